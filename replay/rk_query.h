// Checks shared by the CH and the CCH query objects (their interfaces coincide).
#ifndef RK_QUERY_H
#define RK_QUERY_H
#include "rk_graph.h"
#include <map>
namespace rk{
typedef std::vector<std::pair<unsigned,unsigned>> Ends; // node, initial distance

struct Dist{ // distances of one weighted graph, computed on demand and cached per source
	const Graph*g; const std::vector<unsigned>*w; std::map<unsigned,std::vector<uint64_t>> from;
	Dist(const Graph&g,const std::vector<unsigned>&w):g(&g),w(&w){}
	uint64_t operator()(unsigned s, unsigned t){ auto i=from.find(s); if(i==from.end()) i=from.insert(std::make_pair(s,ref_dist(*g,*w,{{s,0}}))).first; return i->second[t]; }
	uint64_t best(const Ends&src,const Ends&tgt){ uint64_t b=~0ull; for(auto&s:src)for(auto&t:tgt){ uint64_t d=(*this)(s.first,t.first); if(d!=~0ull) b=std::min<uint64_t>(b,d+s.second+t.second); } return clip(b); }
};
inline std::map<unsigned,unsigned> least(const Ends&e){ std::map<unsigned,unsigned> m; for(auto&x:e){ auto i=m.find(x.first); if(i==m.end()) m[x.first]=x.second; else i->second=std::min(i->second,x.second);} return m; }
inline void note(Case&c,const char*name,const Ends&e){ std::vector<unsigned> v; for(auto&x:e){ v.push_back(x.first); v.push_back(x.second);} c.note(name,v); }
inline Ends random_ends(Rng&r, unsigned n, uint64_t max_off){ Ends e; unsigned k=r.one_in(2)?1:1+r.below(4); for(unsigned i=0;i<k;++i) e.push_back({r.below(n), r.one_in(2)?0:r.below(r.one_in(2)?5:max_off+1)}); return e; }

enum{ CHECK_DISTANCE=1, CHECK_PATH=2 };
// q must be initialised (no source or target). Asks one query and compares with the reference.
template<class Q> void ask(Case&c, Q&q, Dist&d, const Ends&src, const Ends&tgt, int what){
	for(auto&s:src) q.add_source(s.first,s.second);
	for(auto&t:tgt) q.add_target(t.first,t.second);
	q.run();
	uint64_t expect=d.best(src,tgt); unsigned got=q.get_distance();
	auto where=[&](std::ostream&o){ o<<"query from"; for(auto&s:src)o<<" "<<s.first<<"(+"<<s.second<<")"; o<<" to"; for(auto&t:tgt)o<<" "<<t.first<<"(+"<<t.second<<")"; o<<": "; };
	if(what&CHECK_DISTANCE) c.check(got==expect,[&](std::ostream&o){where(o); o<<"distance "<<got<<", expected "<<expect;});
	if(what&CHECK_PATH){
		auto ap=q.get_arc_path(), np=q.get_node_path(); unsigned us=q.get_used_source(), ut=q.get_used_target();
		if(got==INF){ c.check(ap.empty()&&np.empty(),[&](std::ostream&o){where(o); o<<"no path exists but arc path "<<show(ap)<<", node path "<<show(np);}); c.check(us==RoutingKit::invalid_id&&ut==RoutingKit::invalid_id,[&](std::ostream&o){where(o); o<<"no path exists but used source "<<us<<", used target "<<ut;}); }
		else{
			auto ms=least(src), mt=least(tgt);
			c.check(ms.count(us)==1,[&](std::ostream&o){where(o); o<<"used source "<<us<<" is no source";});
			c.check(mt.count(ut)==1,[&](std::ostream&o){where(o); o<<"used target "<<ut<<" is no target";});
			uint64_t len=check_walk(c,*d.g,*d.w,us,ut,ap,np,"path");
			c.check(len+ms[us]+mt[ut]==got,[&](std::ostream&o){where(o); o<<"path "<<show(ap)<<" has length "<<len+ms[us]+mt[ut]<<", reported distance "<<got;});
		}
	}
}
// the targets must be pinned already
template<class Q> void ask_pinned_targets(Case&c, Q&q, Dist&d, const Ends&src, const std::vector<unsigned>&pinned){
	for(auto&s:src) q.add_source(s.first,s.second);
	q.run_to_pinned_targets(); auto v=q.get_distances_to_targets(); c.check(v.size()==pinned.size(),"the number of distances is not the number of pinned targets");
	std::vector<unsigned> v2(pinned.size()+1,77); q.get_distances_to_targets(v2.data()); c.check(v2[pinned.size()]==77,"wrote behind the output buffer"); v2.pop_back(); c.equalv(v2,v,"get_distances_to_targets(pointer)");
	for(unsigned i=0;i<pinned.size();++i){ uint64_t e=d.best(src,{{pinned[i],0}}); c.check(v[i]==e,[&](std::ostream&o){o<<"distance from"; for(auto&s:src)o<<" "<<s.first<<"(+"<<s.second<<")"; o<<" to pinned target "<<pinned[i]<<" is "<<v[i]<<", expected "<<e;}); }
}
template<class Q> void ask_pinned_sources(Case&c, Q&q, Dist&d, const Ends&tgt, const std::vector<unsigned>&pinned){
	for(auto&s:tgt) q.add_target(s.first,s.second);
	q.run_to_pinned_sources(); auto v=q.get_distances_to_sources(); c.check(v.size()==pinned.size(),"the number of distances is not the number of pinned sources");
	std::vector<unsigned> v2(pinned.size()+1,77); q.get_distances_to_sources(v2.data()); c.check(v2[pinned.size()]==77,"wrote behind the output buffer"); v2.pop_back(); c.equalv(v2,v,"get_distances_to_sources(pointer)");
	for(unsigned i=0;i<pinned.size();++i){ uint64_t e=d.best({{pinned[i],0}},tgt); c.check(v[i]==e,[&](std::ostream&o){o<<"distance from pinned source "<<pinned[i]<<" to"; for(auto&s:tgt)o<<" "<<s.first<<"(+"<<s.second<<")"; o<<" is "<<v[i]<<", expected "<<e;}); }
}
inline std::vector<unsigned> random_nodes(Rng&r,unsigned n,bool dups){ std::vector<unsigned> v; if(dups&&r.one_in(2)){ unsigned k=r.below(r.one_in(4)?3*n+2:n+1); for(unsigned i=0;i<k;++i) v.push_back(r.below(n)); } else { v=random_perm(r,n); v.resize(r.below(n+1)); } return v; }
}
#endif
