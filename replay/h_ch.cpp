// C06 CH distances, C07 CH paths, C08 CH query history and pins, C09 CH save/load, C24 extra weights.
#include "rk_query.h"
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/customizable_contraction_hierarchy.h>
#include <memory>
#include <new>
#include <sys/stat.h>
using namespace RoutingKit; using namespace rk;
typedef std::vector<unsigned> V; typedef ContractionHierarchy CH; typedef ContractionHierarchyQuery Query;
namespace{
V rank_of(const V&o){ V r(o.size()); for(unsigned i=0;i<o.size();++i) r[o[i]]=i; return r; }
std::function<void(std::string)> some_log(unsigned k,unsigned*lines){ if(k==0) return std::function<void(std::string)>(); return [=](std::string){ ++*lines; }; }
unsigned random_pops(Rng&r){ switch(r.below(5)){ case 0: return 0; case 1: return 1; case 2: return 2+r.below(4); case 3: return 50; default: return CH::default_max_pop_count; } }
// how: 0 automatic order, 1 given order, 2 given rank
CH make_ch(unsigned how,const Graph&g,const V&w,const V&order,unsigned pops,unsigned log){
	unsigned lines=0; auto l=some_log(log,&lines);
	if(how==0) return CH::build(g.n,g.tail,g.head,w,l,pops);
	if(how==1) return CH::build_given_order(order,g.tail,g.head,w,l,pops);
	return CH::build_given_rank(rank_of(order),g.tail,g.head,w,l,pops);
}
CH random_ch(Case&c,const Graph&g){ unsigned how=c.rng.below(3), pops=random_pops(c.rng), log=c.rng.one_in(4); V o=random_perm(c.rng,g.n); note(c,g); c.note("build (0 automatic, 1 order, 2 rank)",how); if(how) c.note("order",o); c.note("max_pop_count",pops); return make_ch(how,g,g.weight,o,pops,log); }
// the structure of a CH: what queries, unpacking and the extra weights rely on
void check_ch(Case&c,const CH&ch,const Graph&g){
	c.equal(ch.node_count(),g.n,"node_count"); for(unsigned i=0;i<g.n;++i) c.check(ch.order[i]<g.n&&ch.rank[ch.order[i]]==i,"rank and order are not inverse");
	check_contraction_hierarchy_for_errors(ch);
}
void queries(Case&c,const Graph&g,const CH&ch,int what,unsigned k){
	if(g.n==0) return; Dist d(g,g.weight); Query q(ch);
	if(g.n<=7) for(unsigned s=0;s<g.n;++s)for(unsigned t=0;t<g.n;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,0}},what); }
	for(unsigned i=0;i<k;++i){ Ends a=random_ends(c.rng,g.n,c.rng.one_in(4)?INF-1:1000), b=random_ends(c.rng,g.n,1000); if(c.rng.one_in(3)){ Query f(ch); ask(c,f,d,a,b,what);} else { q.reset(); ask(c,q,d,a,b,what);} }
}
void rnd(Case&c,int what,unsigned n,unsigned k){ Graph g=random_graph(c.rng,n); CH ch=random_ch(c,g); check_ch(c,ch,g); queries(c,g,ch,what,k); }
void c06_rand(Case&c){ rnd(c,CHECK_DISTANCE,14,10); } void c07_rand(Case&c){ rnd(c,CHECK_DISTANCE|CHECK_PATH,14,10); }
void c06_big(Case&c){ rnd(c,CHECK_DISTANCE,90,30); } void c07_big(Case&c){ rnd(c,CHECK_DISTANCE|CHECK_PATH,90,30); }
V order3(unsigned i){ V p={0,1,2}; while(i--) std::next_permutation(p.begin(),p.end()); return p; }
const unsigned wp[3][2]={{0,1},{1,3},{1000000000u,400000000u}};
const unsigned pp[3]={0,1,500};
void ex3(Case&c,int what){ uint64_t i=c.index; unsigned o=i%7; i/=7; unsigned k=i%3; i/=3; unsigned p=i%3; i/=3; Graph g=enumerated_loopless_graph(3,i,wp[k][0],wp[k][1]); note(c,g); V ord=order3(o%6); if(o<6)c.note("order",ord); c.note("max_pop_count",pp[p]);
	CH ch=make_ch(o==6?0:1+(i&1),g,g.weight,ord,pp[p],0); check_ch(c,ch,g); Dist d(g,g.weight); Query q(ch);
	for(unsigned s=0;s<3;++s)for(unsigned t=0;t<3;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,0}},what); q.reset(); ask(c,q,d,{{s,1},{(s+1)%3,0}},{{t,1},{(t+1)%3,2}},what);} }
void c06_ex(Case&c){ ex3(c,CHECK_DISTANCE); } void c07_ex(Case&c){ ex3(c,CHECK_DISTANCE|CHECK_PATH); }
void c06_edge(Case&c){
	uint64_t i=c.index; unsigned n=i%4; i/=4; unsigned how=i%3; i/=3; unsigned log=i%2; i/=2; unsigned loops=i%2; i/=2; unsigned pops=i%2?0:500; Graph g; g.n=n; if(loops)for(unsigned x=0;x<n;++x){ g.tail.push_back(x); g.head.push_back(x); g.weight.push_back(x);} V o(n); for(unsigned x=0;x<n;++x)o[x]=n-1-x;
	note(c,g); c.note("build (0 automatic, 1 order, 2 rank)",how); c.note("log function",log); CH ch=make_ch(how,g,g.weight,o,pops,log); check_ch(c,ch,g); Dist d(g,g.weight); Query q; q.reset(ch);
	for(unsigned s=0;s<n;++s)for(unsigned t=0;t<n;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,3}},CHECK_DISTANCE|CHECK_PATH);} 
	q.reset().pin_targets({}); if(n) ask_pinned_targets(c,q,d,{{0,0}},{}); q.reset().pin_sources({}); if(n) ask_pinned_sources(c,q,d,{{0,0}},{});
}
// ---- C08
struct World{ Graph g; std::unique_ptr<CH> ch; std::unique_ptr<Dist> d; void make(Case&c,unsigned n){ g=random_graph(c.rng,n); ch.reset(new CH(random_ch(c,g))); d.reset(new Dist(g,g.weight)); } };
void used_to_targets(Case&c,Query&q,Dist&d,const Ends&src,const V&p){ auto m=least(src); auto u=q.get_used_sources_to_targets(); c.check(u.size()==p.size(),"number of used sources"); c.equal(q.get_pinned_target_count(),p.size(),"get_pinned_target_count"); V v(p.size()+1,77); q.get_used_sources_to_targets(v.data()); c.check(v.back()==77,"wrote behind the output buffer"); v.pop_back(); c.equalv(v,u,"get_used_sources_to_targets(pointer)");
	for(unsigned i=0;i<p.size();++i){ uint64_t b=d.best(src,{{p[i],0}}); if(b==INF) c.check(u[i]==invalid_id,"used source of an unreachable target is not invalid_id"); else c.check(m.count(u[i])&&d.best({{u[i],m[u[i]]}},{{p[i],0}})==b,[&](std::ostream&o){o<<"used source "<<u[i]<<" to pinned target "<<p[i]<<" does not attain the distance "<<b;}); } }
void used_to_sources(Case&c,Query&q,Dist&d,const Ends&tgt,const V&p){ auto m=least(tgt); auto u=q.get_used_targets_to_sources(); c.check(u.size()==p.size(),"number of used targets"); c.equal(q.get_pinned_source_count(),p.size(),"get_pinned_source_count"); V v(p.size()+1,77); q.get_used_targets_to_sources(v.data()); c.check(v.back()==77,"wrote behind the output buffer"); v.pop_back(); c.equalv(v,u,"get_used_targets_to_sources(pointer)");
	for(unsigned i=0;i<p.size();++i){ uint64_t b=d.best({{p[i],0}},tgt); if(b==INF) c.check(u[i]==invalid_id,"used target of a pinned source without path is not invalid_id"); else c.check(m.count(u[i])&&d.best({{p[i],0}},{{u[i],m[u[i]]}})==b,[&](std::ostream&o){o<<"used target "<<u[i]<<" of pinned source "<<p[i]<<" does not attain the distance "<<b;}); } }
void c08_rand(Case&c){
	World W[3]; W[0].make(c,12); W[1].make(c,c.rng.one_in(2)?12:4); 
	// a third hierarchy with the node count of the first
	{ Graph h; do{ h=random_graph(c.rng,12);}while(h.n>W[0].g.n); h.n=W[0].g.n; W[2].g=h; W[2].ch.reset(new CH(random_ch(c,W[2].g))); W[2].d.reset(new Dist(W[2].g,W[2].g.weight)); }
	unsigned cur=0; std::unique_ptr<Query> q(new Query(*W[0].ch)); std::ostringstream log; unsigned steps=14+c.rng.below(20); V trace;
	if(c.rng.one_in(4)){ q.reset(new Query); q->reset(*W[0].ch); }
	try{
	for(unsigned i=0;i<steps;++i){
		unsigned op=c.rng.below(8); trace.push_back(op*4+cur);
		if(op<=1){ cur=c.rng.below(3); log<<" reset(hierarchy "<<cur<<")"; q->reset(*W[cur].ch); }
		else { log<<" reset()"; q->reset(); }
		World*u=&W[cur]; unsigned n=u->g.n; if(c.rng.one_in(6)){ log<<" add, reset()"; q->add_source(c.rng.below(n)); if(c.rng.one_in(2)) q->add_target(c.rng.below(n),c.rng.below(9)); if(c.rng.one_in(2)) q->reset(); else q->reset(*u->ch); }
		if(c.rng.one_in(6)){ log<<" copy"; Query cp(*q); Query as(*u->ch); as=cp; *q=as; }
		switch(c.rng.below(4)){
			case 0: case 1: { Ends a=random_ends(c.rng,n,1000),b=random_ends(c.rng,n,1000); log<<" query("<<a[0].first<<(a.size()>1?"..":"")<<"->"<<b[0].first<<(b.size()>1?"..":"")<<")"; ask(c,*q,*u->d,a,b,c.rng.one_in(2)?CHECK_DISTANCE|CHECK_PATH:CHECK_DISTANCE); if(c.rng.one_in(3)) q->get_arc_path(); break; }
			case 2: { V p=random_nodes(c.rng,n,true); log<<" pin_targets"<<show(p); q->pin_targets(p); c.equal(q->get_pinned_target_count(),p.size(),"get_pinned_target_count"); unsigned r=c.rng.below(5); for(unsigned j=0;j<r;++j){ if(j||c.rng.one_in(3)) q->reset_source(); Ends a=random_ends(c.rng,n,1000); if(c.rng.one_in(5)){ q->add_source(c.rng.below(n),c.rng.below(20)); if(c.rng.one_in(2)) q->run_to_pinned_targets(); q->reset_source(); } log<<" run("<<a[0].first<<")"; ask_pinned_targets(c,*q,*u->d,a,p); if(c.rng.one_in(2)) used_to_targets(c,*q,*u->d,a,p); if(c.rng.one_in(4)){ std::vector<int> e(u->g.m(),1); q->get_extra_weight_distances_to_targets(e,SaturatedWeightAddition()); used_to_targets(c,*q,*u->d,a,p);} } if(c.rng.one_in(3)){ if(r) q->reset_source(); q->add_source(c.rng.below(n)); log<<" add_source"; } break; }
			default: { V p=random_nodes(c.rng,n,true); log<<" pin_sources"<<show(p); q->pin_sources(p); c.equal(q->get_pinned_source_count(),p.size(),"get_pinned_source_count"); unsigned r=c.rng.below(5); for(unsigned j=0;j<r;++j){ if(j||c.rng.one_in(3)) q->reset_target(); Ends a=random_ends(c.rng,n,1000); if(c.rng.one_in(5)){ q->add_target(c.rng.below(n),c.rng.below(20)); if(c.rng.one_in(2)) q->run_to_pinned_sources(); q->reset_target(); } log<<" run("<<a[0].first<<")"; ask_pinned_sources(c,*q,*u->d,a,p); if(c.rng.one_in(2)) used_to_sources(c,*q,*u->d,a,p); if(c.rng.one_in(4)){ std::vector<int> e(u->g.m(),1); q->get_extra_weight_distances_to_sources(e,SaturatedWeightAddition()); used_to_sources(c,*q,*u->d,a,p);} } if(c.rng.one_in(3)){ if(r) q->reset_target(); q->add_target(c.rng.below(n)); log<<" add_target"; } break; }
		}
	}
	}catch(Fail&f){ f.msg="history:"+log.str()+": "+f.msg; throw; }
	c.note("operations",trace);
}
void c08_ex(Case&c){ uint64_t i=c.index; V o=order3(i%6); i/=6; Graph g=enumerated_loopless_graph(3,i,1,2); note(c,g); c.note("order",o); CH ch=make_ch(1,g,g.weight,o,500,0); Dist d(g,g.weight); Query q(ch);
	for(unsigned mask=0;mask<8;++mask){ V p; for(unsigned x=0;x<3;++x) if(mask>>x&1) p.push_back(x); for(int dir=0;dir<2;++dir){ q.reset(); if(dir==0)q.pin_targets(p); else q.pin_sources(p); for(unsigned s=0;s<3;++s){ Ends e={{s,0},{(s+1)%3,1}}; if(dir==0){ q.reset_source(); ask_pinned_targets(c,q,d,{{s,0}},p); used_to_targets(c,q,d,{{s,0}},p); q.reset_source(); ask_pinned_targets(c,q,d,e,p); used_to_targets(c,q,d,e,p);} else { q.reset_target(); ask_pinned_sources(c,q,d,{{s,0}},p); used_to_sources(c,q,d,{{s,0}},p); q.reset_target(); ask_pinned_sources(c,q,d,e,p); used_to_sources(c,q,d,e,p);} } } }
	for(unsigned s=0;s<3;++s)for(unsigned t=0;t<3;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,0}},CHECK_DISTANCE|CHECK_PATH);} }
// many resets: the time stamps wrap
void c08_wrap(Case&c){ Graph g=random_graph(c.rng,5); CH ch=random_ch(c,g); Dist d(g,g.weight); Query q(ch); for(unsigned r=0;r<70000;++r){ q.reset(); if(r%977==0||r>65400&&r<65700&&r%3==0){ Ends a={{c.rng.below(g.n),0}},b={{c.rng.below(g.n),0}}; ask(c,q,d,a,b,CHECK_DISTANCE|CHECK_PATH); } } }
// ---- C09
void same_bits(Case&c,const BitVector&a,const BitVector&b,const char*what){ c.check(a.size()==b.size(),[&](std::ostream&o){o<<what<<": size "<<a.size()<<", expected "<<b.size();}); for(uint64_t i=0;i<a.size();++i) c.check(a.is_set(i)==b.is_set(i),[&](std::ostream&o){o<<what<<": bit "<<i<<" of "<<a.size()<<" differs";}); }
void same_side(Case&c,const CH::Side&a,const CH::Side&b){ c.equalv(a.first_out,b.first_out,"first_out"); c.equalv(a.head,b.head,"head"); c.equalv(a.weight,b.weight,"weight"); same_bits(c,a.is_shortcut_an_original_arc,b.is_shortcut_an_original_arc,"is_shortcut_an_original_arc"); c.equalv(a.shortcut_first_arc,b.shortcut_first_arc,"shortcut_first_arc"); c.equalv(a.shortcut_second_arc,b.shortcut_second_arc,"shortcut_second_arc"); }
void same_ch(Case&c,const CH&a,const CH&b){ c.equalv(a.rank,b.rank,"rank"); c.equalv(a.order,b.order,"order"); same_side(c,a.forward,b.forward); same_side(c,a.backward,b.backward); }
std::string bytes_of(const CH&ch){ std::ostringstream o; ch.write(o); return o.str(); }
template<class F> void must_throw(Case&c,const F&f,const char*what){ bool t=false; try{ f(); }catch(std::exception&){ t=true; } c.check(t,[&](std::ostream&o){o<<"no error was raised: "<<what;}); }
struct Mem{ const std::string*s; size_t*pos; void operator()(char*p,unsigned long long l)const{ if(*pos+l>s->size()) throw std::runtime_error("end of data"); memcpy(p,s->data()+*pos,l); *pos+=l; } };
struct Scratch{ std::string dir; Scratch(){ char t[]="rk_ch_XXXXXX"; if(!mkdtemp(t)) throw std::runtime_error("mkdtemp"); dir=t; } ~Scratch(){ unlink((dir+"/f").c_str()); rmdir(dir.c_str()); } };
void round_trip(Case&c,const CH&ch,bool files){
	std::string b=bytes_of(ch); std::string b2; ch.write([&](const char*p,unsigned long long l){ b2.append(p,l); }); c.equal(b2.size(),b.size(),"bytes written by write(function)"); { std::istringstream in(b2); same_ch(c,CH::read(in),ch); }
	{ std::istringstream in(b); same_ch(c,CH::read(in),ch); } { std::istringstream in(b); same_ch(c,CH::read(in,b.size()),ch); }
	{ size_t pos=0; same_ch(c,CH::read(Mem{&b,&pos}),ch); c.equal(pos,b.size(),"bytes consumed by read"); } { size_t pos=0; same_ch(c,CH::read(Mem{&b,&pos},b.size()),ch); }
	{ std::istringstream in(b+"xyz"); same_ch(c,CH::read(in),ch); std::string rest; in>>rest; c.check(rest=="xyz","read consumed more than the hierarchy"); }
	{ std::istringstream in(b+b); CH x=CH::read(in), y=CH::read(in); same_ch(c,x,ch); same_ch(c,y,ch); }
	if(files){ Scratch s; std::string f=s.dir+"/f"; ch.save_file(f); { std::ifstream in(f,std::ios::binary); std::string r((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>()); c.equal(r.size(),b.size(),"bytes written by save_file"); std::istringstream i2(r); same_ch(c,CH::read(i2),ch); } same_ch(c,CH::load_file(f),ch); ch.save_file(f); same_ch(c,CH::load_file(f),ch); must_throw(c,[&]{ CH::load_file(s.dir+"/missing"); },"loading a missing file"); must_throw(c,[&]{ ch.save_file(s.dir+"/missing/f"); },"saving into a missing directory"); }
}
void c09_rand(Case&c){ Graph g=random_graph(c.rng,c.rng.one_in(6)?60:12); CH ch=random_ch(c,g); round_trip(c,ch,true); std::istringstream in(bytes_of(ch)); CH r=CH::read(in); queries(c,g,r,CHECK_DISTANCE|CHECK_PATH,5); }
CH synthetic(Rng&r,unsigned n,unsigned m1,unsigned m2){ CH ch; ch.order=random_perm(r,n); ch.rank=rank_of(ch.order); CH::Side*sd[2]={&ch.forward,&ch.backward}; unsigned mm[2]={m1,m2}; for(int k=0;k<2;++k){ CH::Side&s=*sd[k]; unsigned m=mm[k]; s.first_out.assign(n+1,0); for(unsigned i=1;i<n;++i) s.first_out[i]=r.below(m+1); std::sort(s.first_out.begin(),s.first_out.end()); s.first_out[n]=m; std::sort(s.first_out.begin(),s.first_out.end()); s.is_shortcut_an_original_arc=BitVector(m); for(unsigned a=0;a<m;++a){ s.head.push_back(r.below(n)); s.weight.push_back(r()); s.shortcut_first_arc.push_back(r()); s.shortcut_second_arc.push_back(r()); s.is_shortcut_an_original_arc.set(a,r.one_in(2)); } } return ch; }
const unsigned sizes[]={0,1,2,63,64,65,511,512,513,1023,1024,1025,1536,2048,4096};
void c09_sizes(Case&c){ unsigned m1=sizes[c.index%15],m2=sizes[c.index/15%15]; c.note("forward arcs",m1); c.note("backward arcs",m2); CH ch=synthetic(c.rng,1+c.rng.below(9),m1,m2); round_trip(c,ch,true); }
void c09_trunc(Case&c){ Graph g=random_graph(c.rng,6); CH ch=random_ch(c,g); std::string b=bytes_of(ch); Scratch s; std::string f=s.dir+"/f"; auto put=[&](const std::string&d){ std::ofstream o(f,std::ios::binary); o.write(d.data(),d.size()); };
	for(size_t l=0;l<b.size();++l){ std::string t=b.substr(0,l); if(l%8==0||l+8>b.size()||l<32){ must_throw(c,[&]{ std::istringstream in(t); CH::read(in); },"reading truncated data"); must_throw(c,[&]{ std::istringstream in(t); CH::read(in,t.size()); },"reading truncated data with its size"); must_throw(c,[&]{ size_t p=0; CH::read(Mem{&t,&p},t.size()); },"reading truncated data from a function with its size"); } }
	for(size_t l:{(size_t)0,(size_t)1,(size_t)23,(size_t)24,b.size()/2,b.size()-4,b.size()-1}){ put(b.substr(0,l)); must_throw(c,[&]{ CH::load_file(f); },"loading a truncated file"); }
	for(size_t x:{1u,3u,4u,8u,64u,512u}){ std::string t=b+std::string(x,(char)c.rng()); must_throw(c,[&]{ std::istringstream in(t); CH::read(in,t.size()); },"reading data with trailing bytes and its size"); put(t); must_throw(c,[&]{ CH::load_file(f); },"loading a file with trailing bytes"); }
	for(unsigned k=0;k<8;++k){ std::string t=b; t[k]^=1<<c.rng.below(8); must_throw(c,[&]{ std::istringstream in(t); CH::read(in); },"reading data with a wrong signature"); must_throw(c,[&]{ std::istringstream in(t); CH::read(in,t.size()); },"reading data with a wrong signature and its size"); put(t); must_throw(c,[&]{ CH::load_file(f); },"loading a file with a wrong signature"); }
	// a stream that fails while writing
	must_throw(c,[&]{ std::ostringstream o; o.setstate(std::ios::badbit); ch.write(o); },"writing to a broken stream"); }
// ---- C24
const std::string SEP=",";
struct Concat{ std::string operator()(const std::string&a,const std::string&b)const{ if(a.empty()||b.empty()) throw Fail{"the link function was given a default constructed value"}; return a+SEP+b; } };
V parse(const std::string&s){ V v; std::istringstream in(s); std::string x; while(std::getline(in,x,',')) v.push_back(strtoul(x.c_str(),0,10)); return v; }
std::vector<std::string> names(const Graph&g){ std::vector<std::string> v; for(unsigned a=0;a<g.m();++a) v.push_back(std::to_string(a)); return v; }
// arcs form a walk from a source to t of the given total distance (or none)
void check_named_path(Case&c,const Graph&g,const V&p,const Ends&src,const Ends&tgt,uint64_t dist,const char*what){
	if(dist==INF){ c.check(p.empty(),"extra weight of a missing path is not default constructed"); return; }
	auto ms=least(src),mt=least(tgt);
	if(p.empty()){ bool ok=false; for(auto&s:ms) if(mt.count(s.first)&&(uint64_t)s.second+mt[s.first]==dist) ok=true; c.check(ok,[&](std::ostream&o){o<<what<<": default constructed, but no source is a target at the distance "<<dist;}); return; }
	uint64_t len=0; for(size_t i=0;i<p.size();++i){ c.check(p[i]<g.m()&&(i==0||g.head[p[i-1]]==g.tail[p[i]]),[&](std::ostream&o){o<<what<<": "<<show(p)<<" is not a path (position "<<i<<")";}); len+=g.weight[p[i]]; }
	unsigned s=g.tail[p[0]],t=g.head[p.back()]; c.check(ms.count(s)&&mt.count(t)&&len+ms[s]+mt[t]==dist,[&](std::ostream&o){o<<what<<": the combined path "<<show(p)<<" from "<<s<<" to "<<t<<" has length "<<len<<", the distance (with initial distances) is "<<dist;}); }
template<class EW> void c24_single(Case&c,const Graph&g,Query&q,const EW&e,Dist&d,const Ends&a,const Ends&b){ std::string s=q.get_extra_weight_distance(e,Concat()); V p=parse(s); c.equalv(p,q.get_arc_path(),"extra weights combined in path order, compared with the arc path"); check_named_path(c,g,p,a,b,d.best(a,b),"single pair"); }
void c24_rand(Case&c){
	Graph g=random_graph(c.rng,c.rng.one_in(8)?40:12); CH ch; if(c.rng.one_in(4)){ V o=random_perm(c.rng,g.n); note(c,g); c.note("CCH order",o); CustomizableContractionHierarchy cch(o,g.tail,g.head,[](const std::string&){}); CustomizableContractionHierarchyMetric m(cch,g.weight); ch=m.build_contraction_hierarchy_using_perfect_witness_search(); } else ch=random_ch(c,g);
	Dist d(g,g.weight); auto nm=names(g); ContractionHierarchyExtraWeight<std::string> ew(ch,nm,Concat()); if(c.rng.one_in(3)){ ContractionHierarchyExtraWeight<std::string> e2; e2.reset(ch,nm,Concat()); ew=e2; }
	std::vector<int> iw(g.m()); for(auto&x:iw) x=c.rng.one_in(8)?(c.rng.one_in(2)?INT_MAX:INT_MIN):(int)c.rng.below(2000)-1000; std::vector<int> small(g.m()); for(auto&x:small) x=(int)c.rng.below(2000)-1000; std::vector<unsigned> uw(g.m()); for(auto&x:uw) x=c.rng.one_in(6)?INF:c.rng.below(c.rng.one_in(2)?INF:1000);
	ContractionHierarchyExtraWeight<int> ei; if(c.rng.one_in(2)){ V w1(g.m()); for(auto&x:w1) x=c.rng.below(50); ei.reset(ch,w1,SaturatedWeightAddition()); } ei.reset(ch,small,SaturatedWeightAddition()); ContractionHierarchyExtraWeight<unsigned> eu; if(c.rng.one_in(2)){ V w1(g.m()); for(auto&x:w1) x=c.rng.below(50); if(c.rng.one_in(2)) eu.reset(ch,w1,SaturatedWeightAddition()); else { Graph g2=random_graph(c.rng,12); CH ch2=make_ch(0,g2,g2.weight,V(),500,0); V w2(g2.m(),3); eu.reset(ch2,w2,SaturatedWeightAddition()); } } eu.reset(ch,uw,SaturatedWeightAddition()); c.note("int extra weights",small); c.note("unsigned extra weights",uw);
	Query q(ch);
	for(unsigned i=0;i<12;++i){ q.reset(); Ends a=random_ends(c.rng,g.n,1000),b=random_ends(c.rng,g.n,1000); note(c,"sources",a); note(c,"targets",b); for(auto&x:a)q.add_source(x.first,x.second); for(auto&x:b)q.add_target(x.first,x.second); q.run(); c24_single(c,g,q,nm,d,a,b); c24_single(c,g,q,ew,d,a,b);
		auto p=q.get_arc_path(); int si=0; uint64_t su=0; for(unsigned x:p){ si+=small[x]; su+=uw[x]; } c.equal(q.get_extra_weight_distance(small,SaturatedWeightAddition()),si,"int extra weight"); c.equal(q.get_extra_weight_distance(ei,SaturatedWeightAddition()),si,"int extra weight (precomputed)"); c.equal(q.get_extra_weight_distance(uw,SaturatedWeightAddition()),p.empty()?0:clip(su),"unsigned extra weight"); c.equal(q.get_extra_weight_distance(eu,SaturatedWeightAddition()),p.empty()?0:clip(su),"unsigned extra weight (precomputed)"); }
	for(unsigned i=0;i<6;++i){ q.reset(); V p=random_nodes(c.rng,g.n,true); c.note("pinned",p); bool to=c.rng.one_in(2); if(to) q.pin_targets(p); else q.pin_sources(p);
		for(unsigned j=0;j<3;++j){ Ends a=random_ends(c.rng,g.n,1000); note(c,to?"sources":"targets",a); if(j) { if(to) q.reset_source(); else q.reset_target(); } for(auto&x:a){ if(to) q.add_source(x.first,x.second); else q.add_target(x.first,x.second); } if(to) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
			std::vector<std::string> r; unsigned variant=c.rng.below(6); std::vector<std::string> tmp(g.n,"#"),dist(p.size(),"#");
			if(to) switch(variant){ case 0: r=q.get_extra_weight_distances_to_targets(nm,Concat()); break; case 1: r=q.get_extra_weight_distances_to_targets(ew,Concat()); break; case 2: r=q.get_extra_weight_distances_to_targets(nm,Concat(),tmp); break; case 3: r=q.get_extra_weight_distances_to_targets(ew,Concat(),tmp); break; case 4: q.get_extra_weight_distances_to_targets(nm,Concat(),tmp,dist); r=dist; break; default: q.get_extra_weight_distances_to_targets(ew,Concat(),tmp,dist); r=dist; }
			else switch(variant){ case 0: r=q.get_extra_weight_distances_to_sources(nm,Concat()); break; case 1: r=q.get_extra_weight_distances_to_sources(ew,Concat()); break; case 2: r=q.get_extra_weight_distances_to_sources(nm,Concat(),tmp); break; case 3: r=q.get_extra_weight_distances_to_sources(ew,Concat(),tmp); break; case 4: q.get_extra_weight_distances_to_sources(nm,Concat(),tmp,dist); r=dist; break; default: q.get_extra_weight_distances_to_sources(ew,Concat(),tmp,dist); r=dist; }
			c.equal(r.size(),p.size(),"number of extra weights"); std::vector<int> ri=to?q.get_extra_weight_distances_to_targets(small,SaturatedWeightAddition()):q.get_extra_weight_distances_to_sources(small,SaturatedWeightAddition()); std::vector<unsigned> ru=to?q.get_extra_weight_distances_to_targets(eu,SaturatedWeightAddition()):q.get_extra_weight_distances_to_sources(eu,SaturatedWeightAddition());
			for(unsigned k=0;k<p.size();++k){ Ends e={{p[k],0}}; V path=parse(r[k]); if(to) check_named_path(c,g,path,a,e,d.best(a,e),"pinned targets"); else check_named_path(c,g,path,e,a,d.best(e,a),"pinned sources"); int si=0; uint64_t su=0; for(unsigned x:path){ si+=small[x]; su+=uw[x]; } c.equal(ri[k],si,"int extra weight of a pinned node"); c.equal(ru[k],path.empty()?0:clip(su),"unsigned extra weight of a pinned node"); }
			auto dd=to?q.get_distances_to_targets():q.get_distances_to_sources(); for(unsigned k=0;k<p.size();++k){ Ends e={{p[k],0}}; c.equal(dd[k],to?d.best(a,e):d.best(e,a),"distance after the extra weights were computed"); } } }
}
// SaturatedWeightAddition at the limits
void c24_sat(Case&c){ static const int iv[]={INT_MIN,INT_MIN+1,INT_MIN/2,-2,-1,0,1,2,INT_MAX/2,INT_MAX/2+1,INT_MAX-1,INT_MAX}; static const unsigned uv[]={0,1,2,INF/2,INF/2+1,INF-2,INF-1,INF}; SaturatedWeightAddition s;
	for(int a:iv)for(int b:iv){ long long r=(long long)a+b; r=r>INT_MAX?INT_MAX:r<INT_MIN?INT_MIN:r; c.equal(s(a,b),(int)r,"saturated int addition"); } for(unsigned a:uv)for(unsigned b:uv) c.equal(s(a,b),clip((uint64_t)a+b),"saturated unsigned addition");
	for(unsigned i=0;i<200;++i){ int a=(int)c.rng(),b=(int)c.rng(); long long r=(long long)a+b; r=r>INT_MAX?INT_MAX:r<INT_MIN?INT_MIN:r; c.equal(s(a,b),(int)r,"saturated int addition"); unsigned x=c.rng.below(INF+1),y=c.rng.below(INF+1); c.equal(s(x,y),clip((uint64_t)x+y),"saturated unsigned addition"); } }
void c24_ex(Case&c){ uint64_t i=c.index; V o=order3(i%6); i/=6; Graph g=enumerated_loopless_graph(3,i,1,2); note(c,g); c.note("order",o); CH ch=make_ch(1,g,g.weight,o,500,0); Dist d(g,g.weight); auto nm=names(g); ContractionHierarchyExtraWeight<std::string> ew(ch,nm,Concat()); Query q(ch);
	for(unsigned s=0;s<3;++s)for(unsigned t=0;t<3;++t){ q.reset(); q.add_source(s).add_target(t).run(); c24_single(c,g,q,nm,d,{{s,0}},{{t,0}}); c24_single(c,g,q,ew,d,{{s,0}},{{t,0}}); }
	V all={2,0,1}; for(unsigned s=0;s<3;++s)for(int to=0;to<2;++to){ q.reset(); if(to){ q.pin_targets(all); q.add_source(s).run_to_pinned_targets(); } else { q.pin_sources(all); q.add_target(s).run_to_pinned_sources(); } for(int k=0;k<2;++k){ auto r=to?(k?q.get_extra_weight_distances_to_targets(ew,Concat()):q.get_extra_weight_distances_to_targets(nm,Concat())):(k?q.get_extra_weight_distances_to_sources(ew,Concat()):q.get_extra_weight_distances_to_sources(nm,Concat())); for(unsigned x=0;x<3;++x){ Ends a={{s,0}},e={{all[x],0}}; if(to) check_named_path(c,g,parse(r[x]),a,e,d.best(a,e),"pinned targets"); else check_named_path(c,g,parse(r[x]),e,a,d.best(e,a),"pinned sources"); } } } }
EXHAUSTIVE_SUITE("C06","all_loopless_graphs_with_3_nodes",45927,45927,c06_ex,"every graph with 3 nodes where each ordered pair has no arc or one of two weights; automatic order and all given orders; 3 weight pairs; witness search limits 0, 1, 500; every pair and two-source two-target queries");
EXHAUSTIVE_SUITE("C06","empty_and_arcless_graphs",96,96,c06_edge,"0..3 nodes without arcs or with loops only, all ways to build, with and without log function");
RANDOM_SUITE("C06","random_graphs",5000,100000,c06_rand,"random graphs up to 14 nodes (parallel arcs, loops, components), zero to near-infinite weights with path lengths below infinity, random orders, witness search limits 0..500; up to 4 sources and targets with initial distances");
RANDOM_SUITE("C06","larger_graphs",500,8000,c06_big,"as random_graphs with up to 90 nodes");
EXHAUSTIVE_SUITE("C07","all_loopless_graphs_with_3_nodes",45927,45927,c07_ex,"as C06; every path is walked arc by arc");
RANDOM_SUITE("C07","random_graphs",5000,100000,c07_rand,"random graphs up to 14 nodes with parallel arcs, loops, zero weights and ties; every path is walked arc by arc");
RANDOM_SUITE("C07","larger_graphs",500,8000,c07_big,"as random_graphs with up to 90 nodes");
EXHAUSTIVE_SUITE("C08","all_loopless_graphs_with_3_nodes",4374,4374,c08_ex,"every graph with 3 nodes (2 weights per arc), every order, one reused query object over all pinned subsets (with used sources/targets) and all pairs");
RANDOM_SUITE("C08","random_histories",3000,60000,c08_rand,"random sequences of reset, reset to one of three hierarchies (two of the same size), copies, single pair, pinned target and pinned source queries, used sources/targets and extra weight extraction on one object; every answer compared with Bellman-Ford");
RANDOM_SUITE("C08","timestamp_wrap",8,60,c08_wrap,"70000 resets of one query object with queries in between");
EXHAUSTIVE_SUITE("C09","arc_counts_around_block_sizes",225,225,c09_sizes,"synthetic hierarchies with forward and backward arc counts around multiples of 64 and 512");
RANDOM_SUITE("C09","round_trips",600,10000,c09_rand,"hierarchies of random graphs, all ways to write and read, files in a scratch directory; the loaded hierarchy answers queries");
RANDOM_SUITE("C09","broken_data",200,4000,c09_trunc,"every truncation (step 8 and around the ends), trailing bytes, broken signatures");
EXHAUSTIVE_SUITE("C24","all_loopless_graphs_with_3_nodes",4374,4374,c24_ex,"every graph with 3 nodes (2 weights per arc), every order: string concatenation over all pairs and pinned sets");
RANDOM_SUITE("C24","random_graphs",1500,30000,c24_rand,"random graphs up to 40 nodes, hierarchies from all builders and perfect customization; string concatenation (associative, not commutative), int and unsigned saturated sums; single pair, pinned targets, pinned sources, all buffer variants");
RANDOM_SUITE("C24","saturated_addition",50,500,c24_sat,"limits and random operands of SaturatedWeightAddition");
}
RK_MAIN
