// Random and enumerated graphs plus reference shortest path algorithms (independent of the code under test).
#ifndef RK_GRAPH_H
#define RK_GRAPH_H
#include "rk_harness.h"
#include <routingkit/constants.h>
namespace rk{
const uint64_t INF = RoutingKit::inf_weight;
struct Graph{
	unsigned n; std::vector<unsigned> tail, head, weight;
	std::vector<unsigned> first_out;
	unsigned m()const{ return tail.size(); }
	void make_adj(){ // requires arcs sorted by tail
		first_out.assign(n+1,0); for(unsigned t:tail) ++first_out[t+1]; for(unsigned i=0;i<n;++i) first_out[i+1]+=first_out[i]; }
	void sort_by_tail(Rng*rng=nullptr){
		std::vector<unsigned> p(m()); for(unsigned i=0;i<m();++i) p[i]=i;
		std::stable_sort(p.begin(),p.end(),[&](unsigned a,unsigned b){return tail[a]<tail[b];});
		Graph g=*this; for(unsigned i=0;i<m();++i){ tail[i]=g.tail[p[i]]; head[i]=g.head[p[i]]; weight[i]=g.weight[p[i]]; } make_adj(); }
};
inline void note(Case&c, const Graph&g){ c.note("node_count",g.n); c.note("tail",g.tail); c.note("head",g.head); c.note("weight",g.weight); }

// weight profile: 0 small positive, 1 with zeros, 2 zeros and ones, 3 large (path lengths close to, but below, infinity), 4 wide range
inline unsigned random_weight(Rng&r, unsigned profile, unsigned n){
	switch(profile){
		case 0: return 1+r.below(20);
		case 1: return r.below(4);
		case 2: return r.below(2);
		case 3: { uint64_t m=(INF-1)/(n==0?1:n); return r.one_in(4)?r.below(m+1):(unsigned)(m-r.below(3)); }
		default:{ uint64_t m=(INF-1)/(n==0?1:n); return r.below(m+1); }
	}
}
inline Graph random_graph(Rng&r, unsigned max_n){
	Graph g; 
	unsigned shape=r.below(10);
	g.n = r.one_in(16)?1:(1+r.below(max_n));
	unsigned profile=r.below(5);
	auto add=[&](unsigned a,unsigned b){ g.tail.push_back(a); g.head.push_back(b); g.weight.push_back(random_weight(r,profile,g.n)); };
	unsigned n=g.n;
	if(shape<5){ unsigned m; switch(r.below(5)){ case 0: m=r.below(n+1); break; case 1: m=n+r.below(n+1); break; case 2: m=2*n; break; case 3: m=3*n+r.below(n+1); break; default: m=5*n; }
		for(unsigned i=0;i<m;++i) add(r.below(n),r.below(n)); }
	else if(shape<7){ // grid, both directions with different weights
		unsigned w=1; while((w+1)*(w+1)<=n) ++w; unsigned h=n/w; 
		for(unsigned y=0;y<h;++y)for(unsigned x=0;x<w;++x){ unsigned v=y*w+x; if(x+1<w){ if(!r.one_in(8)) add(v,v+1); if(!r.one_in(8)) add(v+1,v);} if(y+1<h){ if(!r.one_in(8)) add(v,v+w); if(!r.one_in(8)) add(v+w,v);} }
	}else if(shape==7){ // path or cycle with chords
		for(unsigned i=0;i+1<n;++i){ add(i,i+1); if(r.one_in(2)) add(i+1,i);} if(n>1&&r.one_in(2)) add(n-1,0); for(unsigned i=0;i<n/3;++i) add(r.below(n),r.below(n)); }
	else if(shape==8){ // star with ring
		for(unsigned i=1;i<n;++i){ add(0,i); add(i,0); if(i+1<n&&r.one_in(2)) add(i,i+1);} }
	else { // two components
		unsigned h=(n+1)/2; for(unsigned i=0;i<3*n;++i){ unsigned a=r.below(n); unsigned b=a<h?r.below(h):h+r.below(n-h); add(a,b);} }
	// duplicates and loops
	unsigned m=g.m(); for(unsigned i=0;i<m;++i) if(r.one_in(12)) add(g.tail[i],g.head[i]);
	if(r.one_in(3)) for(unsigned i=0;i<n;++i) if(r.one_in(5)) add(i,i);
	// relabel the nodes, shuffle the arcs
	std::vector<unsigned>p(n); for(unsigned i=0;i<n;++i)p[i]=i; for(unsigned i=n;i>1;--i)std::swap(p[i-1],p[r.below(i)]);
	for(auto&x:g.tail)x=p[x]; for(auto&x:g.head)x=p[x];
	m=g.m(); for(unsigned i=m;i>1;--i){ unsigned j=r.below(i); std::swap(g.tail[i-1],g.tail[j]); std::swap(g.head[i-1],g.head[j]); std::swap(g.weight[i-1],g.weight[j]); }
	return g;
}
inline std::vector<unsigned> random_perm(Rng&r, unsigned n){ std::vector<unsigned>p(n); for(unsigned i=0;i<n;++i)p[i]=i; for(unsigned i=n;i>1;--i)std::swap(p[i-1],p[r.below(i)]); return p; }

// Bellman-Ford in 64 bit; weights >= INF are closed arcs.
inline std::vector<uint64_t> ref_dist(const Graph&g, const std::vector<unsigned>&w, const std::vector<std::pair<unsigned,unsigned>>&src){
	const uint64_t inf=~0ull; std::vector<uint64_t>d(g.n,inf);
	for(auto&s:src) d[s.first]=std::min<uint64_t>(d[s.first],s.second);
	bool ch=true; while(ch){ ch=false; for(unsigned a=0;a<g.m();++a) if(w[a]<INF && d[g.tail[a]]!=inf && d[g.tail[a]]+w[a]<d[g.head[a]]){ d[g.head[a]]=d[g.tail[a]]+w[a]; ch=true; } }
	return d;
}
inline uint64_t clip(uint64_t d){ return d>=INF?INF:d; }
// all simple-path/walk facts about an arc path; returns the total length
inline uint64_t check_walk(Case&c, const Graph&g, const std::vector<unsigned>&w, unsigned s, unsigned t, const std::vector<unsigned>&arcs, const std::vector<unsigned>&nodes, const char*what){
	uint64_t len=0; unsigned x=s;
	c.check(nodes.size()==arcs.size()+1,[&](std::ostream&o){o<<what<<": node path "<<show(nodes)<<" does not have one node more than the arc path "<<show(arcs);});
	c.check(nodes[0]==s,[&](std::ostream&o){o<<what<<": node path "<<show(nodes)<<" does not start at the used source "<<s;});
	for(size_t i=0;i<arcs.size();++i){
		c.check(arcs[i]<g.m(),[&](std::ostream&o){o<<what<<": arc path "<<show(arcs)<<" contains an id that is no arc";});
		c.check(g.tail[arcs[i]]==x,[&](std::ostream&o){o<<what<<": arc path "<<show(arcs)<<" is not connected at position "<<i;});
		c.check(w[arcs[i]]<INF,[&](std::ostream&o){o<<what<<": arc path "<<show(arcs)<<" uses a closed arc";});
		len+=w[arcs[i]]; x=g.head[arcs[i]];
		c.check(nodes[i+1]==x,[&](std::ostream&o){o<<what<<": node path "<<show(nodes)<<" does not match arc path "<<show(arcs);});
	}
	c.check(x==t,[&](std::ostream&o){o<<what<<": arc path "<<show(arcs)<<" does not end at the used target "<<t;});
	return len;
}
// graph number idx over nodes n<=3: every arc set over ordered pairs (incl. loops) with weights from {absent,w0,w1}; base 3 digits
inline Graph enumerated_graph(unsigned n, uint64_t idx, unsigned w0, unsigned w1){
	Graph g; g.n=n; for(unsigned a=0;a<n;++a)for(unsigned b=0;b<n;++b){ unsigned d=idx%3; idx/=3; if(d){ g.tail.push_back(a); g.head.push_back(b); g.weight.push_back(d==1?w0:w1);} }
	g.make_adj(); return g;
}
// without loops
inline Graph enumerated_loopless_graph(unsigned n, uint64_t idx, unsigned w0, unsigned w1){
	Graph g; g.n=n; for(unsigned a=0;a<n;++a)for(unsigned b=0;b<n;++b){ if(a==b) continue; unsigned d=idx%3; idx/=3; if(d){ g.tail.push_back(a); g.head.push_back(b); g.weight.push_back(d==1?w0:w1);} }
	g.make_adj(); return g;
}
}
#endif
