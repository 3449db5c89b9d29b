// C01 Dijkstra, C18 graph utilities, C21 strongly connected components, C22 nested dissection.
#include "rk_graph.h"
#include <routingkit/dijkstra.h>
#include <routingkit/graph_util.h>
#include <routingkit/strongly_connected_component.h>
#include <routingkit/nested_dissection.h>
#include <routingkit/inverse_vector.h>
#include <set>
#include <memory>
#include <map>
using namespace RoutingKit; using namespace rk;
typedef std::vector<unsigned> V;
namespace{
typedef std::vector<std::pair<unsigned,unsigned>> Src;
void check_search(Case&c, Dijkstra&d, const Graph&g, const std::vector<unsigned>&w, const Src&src, bool functor, int stop_after=-1){
	std::vector<uint64_t> ref=ref_dist(g,w,src); std::vector<char> settled(g.n,0); unsigned last=0; bool first=true; std::map<unsigned,unsigned> s0; for(auto&s:src) s0[s.first]=s.second;
	int steps=0;
	for(unsigned x=0;x<g.n;++x) c.check(!d.was_node_reached(x)&&d.get_distance_to(x)==inf_weight&&d.get_node_path_to(x).empty()&&d.get_arc_path_to(x).empty(),"a node is reported as reached before anything was settled");
	auto check_node=[&](unsigned x){
		c.check(d.was_node_reached(x),"a settled node is not reported as reached"); c.check(d.get_distance_to(x)==ref[x],[&](std::ostream&o){o<<"get_distance_to("<<x<<") = "<<d.get_distance_to(x)<<" expected "<<ref[x];});
		auto ap=d.get_arc_path_to(x); auto np=d.get_node_path_to(x); c.check(!np.empty(),"empty node path to a settled node"); unsigned s=np[0]; c.check(s0.count(s)!=0,[&](std::ostream&o){o<<"the path "<<show(np)<<" does not start at a source";});
		uint64_t len=check_walk(c,g,w,s,x,ap,np,"path to a settled node"); c.check(len+s0[s]==ref[x],[&](std::ostream&o){o<<"the path to "<<x<<" has length "<<len+s0[s]<<" expected "<<ref[x];});
	};
	while(!d.is_finished()){
		if(stop_after>=0&&steps>=stop_after) break;
		Dijkstra::SettleResult r; if(functor) r=d.settle(ScalarGetWeight(w)); else r=d.settle([&](unsigned a,unsigned){return w[a];});
		++steps;
		c.check(r.node<g.n&&!settled[r.node],[&](std::ostream&o){o<<"node "<<r.node<<" is settled twice or is no node";}); settled[r.node]=1;
		c.check(r.distance==ref[r.node],[&](std::ostream&o){o<<"node "<<r.node<<" settled with distance "<<r.distance<<" expected "<<(long long)ref[r.node];});
		c.check(first||r.distance>=last,"nodes are not settled in the order of their distance"); first=false; last=r.distance;
		if(g.n<=12||c.rng.one_in(8)) check_node(r.node);
	}
	bool fin=d.is_finished();
	for(unsigned x=0;x<g.n;++x){
		if(fin) c.check((settled[x]!=0)==(ref[x]!=~0ull),[&](std::ostream&o){o<<"node "<<x<<(settled[x]?" was settled but is not reachable":" is reachable but was never settled");});
		if(settled[x]) check_node(x); else c.check(!d.was_node_reached(x)&&d.get_distance_to(x)==inf_weight&&d.get_node_path_to(x).empty()&&d.get_arc_path_to(x).empty(),[&](std::ostream&o){o<<"node "<<x<<" was not settled but a distance or path is reported";});
	}
}
Src rand_sources(Rng&r,const Graph&g,unsigned maxdep){ Src s; unsigned k=r.one_in(2)?1:r.in(1,std::min(g.n,5u)); std::set<unsigned> used; for(unsigned i=0;i<k;++i){ unsigned x=r.below(g.n); if(used.insert(x).second) s.push_back({x,(k==1&&r.below(2))?0:r.below(maxdep+1)}); } return s; }
void note_src(Case&c,const Src&s,const char*w){ V a,b; for(auto&x:s){ a.push_back(x.first); b.push_back(x.second);} c.note(w,a); c.note("with departure times",b); }
void add(Dijkstra&d,const Src&s){ for(auto&x:s){ if(x.second==0) d.add_source(x.first); else d.add_source(x.first,x.second);} }
void dij_rand(Case&c){
	Rng&r=c.rng; unsigned graphs=r.in(1,3); Dijkstra d; V fo,ta,he; bool inplace=r.one_in(3); std::vector<std::unique_ptr<Graph>> keep; 
	for(unsigned gi=0;gi<graphs;++gi){
		keep.emplace_back(new Graph(random_graph(r,r.one_in(3)?60:10))); Graph&g=*keep.back(); g.sort_by_tail();
		if(gi&&r.one_in(3)){ g.n=keep[gi-1]->n; for(auto&x:g.tail)x%=g.n; for(auto&x:g.head)x%=g.n; g.sort_by_tail(); }
		// path lengths have to stay below infinity: limit weights and departure times
		uint64_t lim=(INF-1)/(g.n+1); for(auto&x:g.weight) x=std::min<uint64_t>(x,lim); unsigned maxdep=r.below(2)?20:lim; note(c,g);
		if(inplace){ fo=g.first_out; ta=g.tail; he=g.head; }
		const V&F=inplace?fo:g.first_out,&T=inplace?ta:g.tail,&H=inplace?he:g.head;
		if(gi==0&&r.below(2)) d=Dijkstra(F,T,H); else d.reset(F,T,H);
		unsigned runs=r.in(1,4); for(unsigned q=0;q<runs;++q){ if(q) d.reset(); 
			V w=g.weight; if(r.one_in(3)) for(auto&x:w) if(r.one_in(5)) x=inf_weight; Src s=rand_sources(r,g,maxdep); note_src(c,s,"sources"); add(d,s);
			int stop=r.one_in(4)?(int)r.below(g.n+1):-1; if(stop>=0) c.note("settle at most",stop); check_search(c,d,g,w,s,r.below(2),stop); }
		if(gi+1<graphs&&!inplace&&r.one_in(4)){ Dijkstra e=d; d=e; }
	}
}
void dij_exh(Case&c){ // all graphs with 3 nodes, 9 ordered pairs, absent / w0 / w1: 19683, times sources
	uint64_t x=c.index; unsigned sel=x%4; x/=4; static const unsigned W[4][2]={{1,2},{0,1},{0,0},{1,3}}; Graph g=enumerated_graph(3,x%19683,W[sel][0],W[sel][1]); note(c,g);
	Dijkstra d(g.first_out,g.tail,g.head); Src s1={{0,0}},s2={{0,0},{1,1}},s3={{2,1},{1,3}}; d.add_source(0); check_search(c,d,g,g.weight,s1,true); d.reset(); add(d,s2); check_search(c,d,g,g.weight,s2,false); d.reset(g.first_out,g.tail,g.head); add(d,s3); check_search(c,d,g,g.weight,s3,false);
}
void dij_wrap(Case&c){ // the same object reused beyond the wrap-around of the reset counter
	Rng&r=c.rng; Graph g=random_graph(r,6); g.sort_by_tail(); uint64_t lim=(INF-1)/(g.n+1); for(auto&x:g.weight)x=std::min<uint64_t>(x,lim); note(c,g); Dijkstra d(g.first_out,g.tail,g.head); Src s=rand_sources(r,g,3); note_src(c,s,"sources"); add(d,s); check_search(c,d,g,g.weight,s,true);
	unsigned k=65533+r.below(4); c.note("then resets",k); for(unsigned i=0;i<k;++i) d.reset(); for(unsigned i=0;i<4;++i){ Src t=rand_sources(r,g,3); note_src(c,t,"then sources"); add(d,t); check_search(c,d,g,g.weight,t,true); d.reset(); }
}

bool is_perm(const V&p,unsigned n){ if(p.size()!=n) return false; std::vector<char> s(n,0); for(unsigned x:p){ if(x>=n||s[x]) return false; s[x]=1; } return true; }
void gu_graph(Case&c,Graph&g){
	Rng&r=c.rng; g.sort_by_tail(); note(c,g);
	Graph h=g; { V p(g.m()); for(unsigned i=0;i<g.m();++i)p[i]=i; std::sort(p.begin(),p.end(),[&](unsigned a,unsigned b){return g.tail[a]!=g.tail[b]?g.tail[a]<g.tail[b]:g.head[a]<g.head[b];}); for(unsigned i=0;i<g.m();++i){ h.tail[i]=g.tail[p[i]]; h.head[i]=g.head[p[i]]; } }
	for(unsigned x=0;x<g.n;++x)for(unsigned y=0;y<g.n;++y){ bool e=false; for(unsigned a=0;a<g.m();++a) e=e||(g.tail[a]==x&&g.head[a]==y);
		unsigned a=find_arc_or_return_invalid(g.first_out,g.head,x,y); unsigned b=find_arc_or_return_invalid_given_sorted_head(h.first_out,h.head,x,y);
		c.check(e?(a<g.m()&&g.tail[a]==x&&g.head[a]==y):a==invalid_id,[&](std::ostream&o){o<<"find_arc_or_return_invalid("<<x<<","<<y<<") = "<<a;}); c.check(e?(b<g.m()&&h.tail[b]==x&&h.head[b]==y):b==invalid_id,[&](std::ostream&o){o<<"find_arc_or_return_invalid_given_sorted_head("<<x<<","<<y<<") = "<<b<<" for sorted heads";});
		if(e){ unsigned a2=find_arc(g.first_out,g.head,x,y),b2=find_arc_given_sorted_head(h.first_out,h.head,x,y); c.check(a2<g.m()&&g.tail[a2]==x&&g.head[a2]==y,"find_arc"); c.check(b2<g.m()&&h.tail[b2]==x&&h.head[b2]==y,"find_arc_given_sorted_head"); } }
	if(g.n) for(unsigned q=0;q<6;++q){ // a random walk
		unsigned s=r.below(g.n),x=s; V np{x},ap; unsigned len=q==0?0:q==1?1:r.below(12); for(unsigned i=0;i<len&&g.first_out[x]!=g.first_out[x+1];++i){ unsigned a=g.first_out[x]+r.below(g.first_out[x+1]-g.first_out[x]); ap.push_back(a); x=g.head[a]; np.push_back(x);} c.note("walk",np); c.note("arcs",ap);
		V got=convert_node_path_to_arc_path(g.first_out,g.head,np); c.check(got.size()==ap.size(),"convert_node_path_to_arc_path: length"); for(unsigned i=0;i<got.size();++i) c.check(got[i]<g.m()&&g.tail[got[i]]==np[i]&&g.head[got[i]]==np[i+1],[&](std::ostream&o){o<<"convert_node_path_to_arc_path gives "<<show(got)<<" for the node path "<<show(np);});
		if(!ap.empty()){ c.equalv(convert_arc_path_to_node_path(s,g.head,ap),np,"convert_arc_path_to_node_path"); c.equalv(convert_arc_path_to_node_path(s,g.head,got),np,"node path -> arc path -> node path"); } }
	c.check(convert_node_path_to_arc_path(g.first_out,g.head,V()).empty()&&convert_arc_path_to_node_path(0,g.head,V()).empty(),"conversion of empty paths");
}
void gu_sort(Case&c,unsigned ac,const V&a,unsigned bc,const V&b){
	c.note("left_count",ac); c.note("left",a); c.note("right_count",bc); c.note("right",b); unsigned n=a.size();
	auto ok=[&](const V&p,const char*w){ c.check(is_perm(p,n),[&](std::ostream&o){o<<w<<" gives "<<show(p)<<", no permutation";}); for(unsigned i=1;i<n;++i) c.check(a[p[i-1]]<a[p[i]]||(a[p[i-1]]==a[p[i]]&&b[p[i-1]]<=b[p[i]]),[&](std::ostream&o){o<<w<<" gives "<<show(p)<<", which does not order lexicographically";}); };
	auto inv=[&](const V&q,const char*w){ c.check(is_perm(q,n),[&](std::ostream&o){o<<w<<" gives "<<show(q)<<", no permutation";}); V p(n); for(unsigned i=0;i<n;++i)p[q[i]]=i; ok(p,w); };
	V sa=a; std::sort(sa.begin(),sa.end());
	ok(compute_sort_permutation_first_by_left_then_by_right(ac,a,bc,b),"compute_sort_permutation_first_by_left_then_by_right"); inv(compute_inverse_sort_permutation_first_by_left_then_by_right(ac,a,bc,b),"compute_inverse_sort_permutation_first_by_left_then_by_right");
	V t=a; inv(compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(ac,t,bc,b),"compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left"); c.equalv(t,sa,"..._and_apply_sort_to_left: the left vector");
	unsigned nc=std::max(ac,bc); ok(compute_sort_permutation_first_by_tail_then_by_head(nc,a,b),"compute_sort_permutation_first_by_tail_then_by_head"); inv(compute_inverse_sort_permutation_first_by_tail_then_by_head(nc,a,b),"compute_inverse_sort_permutation_first_by_tail_then_by_head");
	t=a; inv(compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(nc,t,b),"compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail"); c.equalv(t,sa,"inverse ..._and_apply_sort_to_tail: the tail vector"); t=a; ok(compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(nc,t,b),"compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail"); c.equalv(t,sa,"..._and_apply_sort_to_tail: the tail vector");
}
void gu_rand(Case&c){ Rng&r=c.rng; Graph g=random_graph(r,r.one_in(3)?30:6); gu_graph(c,g);
	unsigned n=r.below(r.one_in(3)?200:12),ac,bc; auto cnt=[&]{ switch(r.below(4)){ case 0: return 1+r.below(4); case 1: return 16*n+1+r.below(40); case 2: return n+1; default: return 1+r.below(20*n+5);} }; ac=cnt(); bc=cnt(); V a(n),b(n); for(auto&x:a)x=r.below(ac); for(auto&x:b)x=r.below(bc); gu_sort(c,ac,a,bc,b); }
void gu_exh(Case&c){ uint64_t x=c.index%19683; Graph g=enumerated_graph(3,x,1,1); gu_graph(c,g); V a,b; for(unsigned i=0;i<4;++i){ a.push_back(x%3); x/=3; b.push_back(x%3); x/=3; } gu_sort(c,3,a,3,b); gu_sort(c,100,a,3,b); gu_sort(c,3,a,100,b); }

// --- SCC
void scc_check(Case&c,const Graph&g){
	note(c,g); std::vector<std::vector<char>> R(g.n,std::vector<char>(g.n,0)); for(unsigned s=0;s<g.n;++s){ V st{s}; R[s][s]=1; while(!st.empty()){ unsigned x=st.back(); st.pop_back(); for(unsigned a=g.first_out[x];a<g.first_out[x+1];++a) if(!R[s][g.head[a]]){ R[s][g.head[a]]=1; st.push_back(g.head[a]); } } }
	auto res=compute_strongly_connected_components(g.first_out,g.head); c.check(res.component_of.size()==g.n,"component_of has the wrong size"); std::vector<char> used(res.component_count,0); unsigned nu=0;
	for(unsigned x=0;x<g.n;++x){ c.check(res.component_of[x]<res.component_count,"component id out of range"); if(!used[res.component_of[x]]){ used[res.component_of[x]]=1; ++nu; } for(unsigned y=0;y<g.n;++y) c.check((res.component_of[x]==res.component_of[y])==(R[x][y]&&R[y][x]),[&](std::ostream&o){o<<"nodes "<<x<<" and "<<y<<(R[x][y]&&R[y][x]?" reach each other but have different components":" do not reach each other but have the same component");}); }
	c.equal(nu,res.component_count,"component_count");
	auto L=compute_largest_strongly_connected_component(g.first_out,g.head); c.check(L.size()==g.n,"the selection has the wrong size"); unsigned cnt=0,best=0,rep=invalid_id; for(unsigned x=0;x<g.n;++x){ unsigned k=0; for(unsigned y=0;y<g.n;++y) k+=R[x][y]&&R[y][x]; best=std::max(best,k); if(L[x]){ ++cnt; rep=x; } }
	if(g.n){ c.check(rep!=invalid_id,"no node is selected"); for(unsigned y=0;y<g.n;++y) c.check(L[y]==(bool)(R[rep][y]&&R[y][rep]),"the selection is no strongly connected component"); c.equal(cnt,best,"size of the selected component"); }
}
void scc_exh(Case&c){ uint64_t x=c.index; unsigned n=4; Graph g; g.n=n; for(unsigned a=0;a<n;++a)for(unsigned b=0;b<n;++b){ if(x&1){ g.tail.push_back(a); g.head.push_back(b); g.weight.push_back(1);} x>>=1; } g.make_adj(); scc_check(c,g); }
void scc_rand(Case&c){ Rng&r=c.rng; Graph g; if(r.one_in(40)){ g.n=0; g.make_adj(); } else if(r.below(2)){ g=random_graph(r,r.one_in(3)?80:14); g.sort_by_tail(); } else { // blobs of cycles joined by few arcs
		unsigned k=r.in(1,7); g.n=0; std::vector<std::pair<unsigned,unsigned>> cyc; for(unsigned i=0;i<k;++i){ unsigned l=r.in(1,9); cyc.push_back({g.n,l}); g.n+=l; } V p=random_perm(r,g.n); auto add=[&](unsigned a,unsigned b){ g.tail.push_back(p[a]); g.head.push_back(p[b]); g.weight.push_back(1);}; for(auto&q:cyc) for(unsigned i=0;i<q.second;++i) add(q.first+i,q.first+(i+1)%q.second); unsigned e=r.below(2*k+2); for(unsigned i=0;i<e;++i){ unsigned a=r.below(g.n),b=r.below(g.n); if(r.one_in(4)||a<b) add(a,b);} 
		for(unsigned i=g.m();i>1;--i){ unsigned j=r.below(i); std::swap(g.tail[i-1],g.tail[j]); std::swap(g.head[i-1],g.head[j]); } g.sort_by_tail(); }
	scc_check(c,g); }

// --- nested dissection
void check_fragment(Case&c,const GraphFragment&f,const char*w){
	unsigned n=f.node_count(),m=f.arc_count(); c.check(f.first_out.size()==n+1&&f.head.size()==m&&f.back_arc.size()==m&&f.first_out[0]==0&&f.first_out[n]==m,[&](std::ostream&o){o<<w<<": inconsistent fragment";});
	for(unsigned x=0;x<n;++x) for(unsigned a=f.first_out[x];a<f.first_out[x+1];++a) c.check(a<m&&f.tail[a]==x&&f.head[a]<n,[&](std::ostream&o){o<<w<<": inconsistent adjacency";});
	for(unsigned a=0;a<m;++a) c.check(f.back_arc[a]<m&&f.back_arc[f.back_arc[a]]==a&&f.tail[a]==f.head[f.back_arc[a]]&&f.head[a]==f.tail[f.back_arc[a]]&&f.tail[a]!=f.head[a],[&](std::ostream&o){o<<w<<": wrong back arc of arc "<<a;});
}
std::multiset<std::pair<unsigned,unsigned>> global_arcs(const GraphFragment&f){ std::multiset<std::pair<unsigned,unsigned>> s; for(unsigned a=0;a<f.arc_count();++a) s.insert({f.global_node_id[f.tail[a]],f.global_node_id[f.head[a]]}); return s; }
void components_of(const GraphFragment&f,const BitVector*removed,V&comp){ comp.assign(f.node_count(),invalid_id); unsigned k=0; for(unsigned s=0;s<f.node_count();++s) if(comp[s]==invalid_id&&!(removed&&removed->is_set(s))){ V st{s}; comp[s]=k; while(!st.empty()){ unsigned x=st.back(); st.pop_back(); for(unsigned a=f.first_out[x];a<f.first_out[x+1];++a){ unsigned y=f.head[a]; if(comp[y]==invalid_id&&!(removed&&removed->is_set(y))){ comp[y]=k; st.push_back(y);} } } ++k; } }
void check_cut(Case&c,const GraphFragment&f,const CutSide&s,unsigned min_side,const char*w){
	unsigned n=f.node_count(); c.check(s.is_node_on_side.size()==n,[&](std::ostream&o){o<<w<<": size";}); unsigned pop=s.is_node_on_side.population_count(); c.check(pop==s.node_on_side_count,[&](std::ostream&o){o<<w<<": node_on_side_count = "<<s.node_on_side_count<<" but "<<pop<<" nodes are marked";});
	c.check(pop>=min_side&&n-pop>=min_side,[&](std::ostream&o){o<<w<<": a side has fewer than "<<min_side<<" of "<<n<<" nodes ("<<pop<<")";}); unsigned cut=0; for(unsigned a=0;a<f.arc_count();++a) cut+=s.is_node_on_side.is_set(f.tail[a])&&!s.is_node_on_side.is_set(f.head[a]); c.check(cut==s.cut_size,[&](std::ostream&o){o<<w<<": cut_size = "<<s.cut_size<<" but "<<cut<<" arcs leave the side";});
}
void check_separator(Case&c,const GraphFragment&f,const BitVector&cut,const BitVector&sep){
	c.check(sep.size()==f.node_count(),"separator size"); for(unsigned a=0;a<f.arc_count();++a){ unsigned x=f.tail[a],y=f.head[a]; if(!sep.is_set(x)&&!sep.is_set(y)) c.check(cut.is_set(x)==cut.is_set(y),[&](std::ostream&o){o<<"the arc from "<<x<<" to "<<y<<" crosses the cut although neither end is in the separator";}); }
	// every separator node is at the cut
	for(unsigned x=0;x<f.node_count();++x) if(sep.is_set(x)){ bool adj=false; for(unsigned a=f.first_out[x];a<f.first_out[x+1];++a) adj=adj||cut.is_set(f.head[a])!=cut.is_set(x); c.check(adj,"a separator node has no neighbour on the other side"); }
}
struct Decomp{ Case&c; const SeparatorDecomposition&d; const GraphFragment&f; V pos; 
	void range(unsigned t,unsigned&b,unsigned&e){ b=d.tree[t].first_separator_vertex; e=d.tree[t].last_separator_vertex; for(unsigned k=d.tree[t].left_child;k!=0;k=d.tree[k].right_sibling){ unsigned x,y; range(k,x,y); b=std::min(b,x); } }
	void check(){ unsigned n=f.node_count(); pos.assign(n,0); std::map<unsigned,unsigned> loc; for(unsigned i=0;i<n;++i) loc[f.global_node_id[i]]=i; for(unsigned i=0;i<n;++i) pos[loc[d.order[i]]]=i;
		// owner[i] = child interval of each tree node; arcs between different child intervals of the same tree node are forbidden
		for(unsigned t=0;t<d.tree.size();++t){ V iv(n,invalid_id); c.check(d.tree[t].first_separator_vertex<=d.tree[t].last_separator_vertex&&d.tree[t].last_separator_vertex<=n,"separator interval of the decomposition"); unsigned id=0; for(unsigned k=d.tree[t].left_child;k!=0;k=d.tree[k].right_sibling){ c.check(k<d.tree.size()&&k>t,"child index of the decomposition"); unsigned b,e; range(k,b,e); for(unsigned i=b;i<e;++i){ c.check(iv[i]==invalid_id,"overlapping children in the decomposition"); iv[i]=id; } ++id; }
			for(unsigned a=0;a<f.arc_count();++a){ unsigned x=iv[pos[f.tail[a]]],y=iv[pos[f.head[a]]]; c.check(x==invalid_id||y==invalid_id||x==y,"an arc joins two different parts of the decomposition"); } } 
		V cover(n,0); for(unsigned t=0;t<d.tree.size();++t) for(unsigned i=d.tree[t].first_separator_vertex;i<d.tree[t].last_separator_vertex;++i) ++cover[i]; for(unsigned i=0;i<n;++i) c.check(cover[i]==1,"a node is not in exactly one separator of the decomposition"); }
};
void nd_case(Case&c,const Graph&g,const std::vector<float>&lat,const std::vector<float>&lon,unsigned bal){
	note(c,g); if(c.verbose){ c.text<<"  latitude = "<<show(lat)<<"\n  longitude = "<<show(lon)<<"\n"; } for(float x:lat) c.hash=mix(c.hash,(int64_t)(x*1000)); 
	auto f=make_graph_fragment(g.n,g.tail,g.head); check_fragment(c,f,"make_graph_fragment"); { std::multiset<std::pair<unsigned,unsigned>> e; for(unsigned a=0;a<g.m();++a) if(g.tail[a]!=g.head[a]){ e.insert({g.tail[a],g.head[a]}); e.insert({g.head[a],g.tail[a]}); } c.check(e==global_arcs(f),"make_graph_fragment: wrong arcs"); for(unsigned i=0;i<g.n;++i) c.check(f.global_node_id[i]==i,"make_graph_fragment: node ids"); }
	auto parts=decompose_graph_fragment_into_connected_components(f); { V comp; components_of(f,nullptr,comp); std::multiset<std::pair<unsigned,unsigned>> all; std::set<unsigned> nodes; std::set<unsigned> ids; for(auto&p:parts){ check_fragment(c,p,"decompose_graph_fragment_into_connected_components"); c.check(p.node_count()>0,"an empty component"); V cp; components_of(p,nullptr,cp); for(unsigned x:cp) c.check(x==0,"a part is not connected"); for(unsigned x:p.global_node_id){ c.check(x<g.n&&nodes.insert(x).second,"a node is in two parts"); } auto s=global_arcs(p); all.insert(s.begin(),s.end()); } c.check(nodes.size()==g.n,"a node is in no part"); c.check(all==global_arcs(f),"the parts do not have the arcs of the fragment"); }
	for(auto&p:parts) if(p.node_count()>=2){
		unsigned n=p.node_count(); c.note("part with nodes",n);
		auto cut=inertial_flow(p,bal,lat,lon); unsigned ms=std::max(1u,n*bal/100); check_cut(c,p,cut,ms,"inertial_flow"); auto sep=derive_separator_from_cut(p,cut.is_node_on_side); check_separator(c,p,cut.is_node_on_side,sep); c.check(sep.is_any_set(),"empty separator in a connected part");
		auto best=inertial_flow(p,lat,lon); check_cut(c,p,best,std::max(1u,n*25/100),"inertial_flow (automatic balance)"); unsigned cs=best.cut_size; pick_smaller_side(best); c.check(best.node_on_side_count==best.is_node_on_side.population_count()&&best.node_on_side_count<=n/2,"pick_smaller_side"); best.cut_size=cs; check_cut(c,p,best,std::max(1u,n*25/100),"pick_smaller_side"); check_separator(c,p,best.is_node_on_side,derive_separator_from_cut(p,best.is_node_on_side));
		// a maximum flow between given nodes
		BitVector s(n),t(n); unsigned a=c.rng.below(n),b=c.rng.below(n-1); if(b>=a)++b; s.set(a); t.set(b); for(unsigned i=0;i<n;++i) if(i!=a&&i!=b&&c.rng.one_in(6)){ if(c.rng.below(2)) s.set(i); else t.set(i);} 
		BlockingFlow bf(p,s,t); unsigned guard=0; while(!bf.is_finished()){ bf.advance(); c.check(++guard<4*p.arc_count()+10,"BlockingFlow does not finish"); }
		auto sc=bf.get_source_cut(),tc=bf.get_target_cut(),bc=bf.get_balanced_cut(); check_cut(c,p,sc,1,"get_source_cut"); check_cut(c,p,tc,1,"get_target_cut"); check_cut(c,p,bc,1,"get_balanced_cut"); c.check(sc.cut_size==bf.get_current_flow_intensity(),"flow intensity"); for(unsigned i=0;i<n;++i){ if(s.is_set(i)) c.check(sc.is_node_on_side.is_set(i)&&!tc.is_node_on_side.is_set(i),"a source is on the wrong side"); if(t.is_set(i)) c.check(!sc.is_node_on_side.is_set(i)&&tc.is_node_on_side.is_set(i),"a target is on the wrong side"); }
		bool srcside=bc.is_node_on_side.is_set(a); for(unsigned i=0;i<n;++i){ if(s.is_set(i)) c.check(bc.is_node_on_side.is_set(i)==srcside,"balanced cut: sources on both sides"); if(t.is_set(i)) c.check(bc.is_node_on_side.is_set(i)!=srcside,"balanced cut: a target is on the side of the sources"); }
	}
	auto order=compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,lat,lon); c.check(is_perm(order,g.n),[&](std::ostream&o){o<<"the order "<<show(order)<<" is no permutation";});
	auto dec=compute_separator_decomposition(f,[&](const GraphFragment&x){ auto k=inertial_flow(x,lat,lon); pick_smaller_side(k); return derive_separator_from_cut(x,k.is_node_on_side); }); c.check(is_perm(dec.order,g.n),"the order of the decomposition is no permutation"); Decomp{c,dec,f,V()}.check();
	auto o2=compute_nested_node_dissection_order(f,[&](const GraphFragment&x){ BitVector b(x.node_count()); b.set(0); return b; }); c.check(is_perm(o2,g.n),"the order with a given separator function is no permutation");
}
void nd_rand(Case&c){ Rng&r=c.rng; Graph g=random_graph(r,r.one_in(4)?70:12); if(r.one_in(60)){ g=Graph(); g.n=0; } std::vector<float> lat(g.n),lon(g.n); unsigned k=r.below(4); for(unsigned i=0;i<g.n;++i){ if(k==0){ lat[i]=lon[i]=1; } else if(k==1){ lat[i]=r.below(4); lon[i]=r.below(3); } else { lat[i]=(int)r.below(180000)/1000.0f-90; lon[i]=(int)r.below(360000)/1000.0f-180; } } unsigned bal; switch(r.below(4)){ case 0: bal=50; break; case 1: bal=0; break; default: bal=r.below(51);} nd_case(c,g,lat,lon,bal); }
void nd_exh(Case&c){ uint64_t x=c.index; Graph g; g.n=4; for(unsigned a=0;a<4;++a)for(unsigned b=a+1;b<4;++b){ unsigned k=x%3; x/=3; for(unsigned i=0;i<k;++i){ g.tail.push_back(i?b:a); g.head.push_back(i?a:b); g.weight.push_back(1);} } std::vector<float> lat={0,1,2,3},lon={5,3,9,1}; nd_case(c,g,lat,lon,25*(c.index%3)); }
}
EXHAUSTIVE_SUITE("C01","all_graphs_with_3_nodes",78732,78732,dij_exh,"every graph with 3 nodes where each ordered pair (loops included) has no arc or an arc of one of two weights; 4 weight pairs; three source sets on one reused object");
RANDOM_SUITE("C01","random_graphs",6000,100000,dij_rand,"random graphs (sparse, dense, grids, stars, components; loops, parallel arcs; small, zero and near-limit weights, closed arcs), several sources with departure times, reuse after reset, with other graphs (also in the same vectors), aborted runs");
RANDOM_SUITE("C01","reset_wrap_around",16,200,dij_wrap,"one object reset about 65536 times between searches");
EXHAUSTIVE_SUITE("C18","all_graphs_with_3_nodes",19683,19683,gu_exh,"every graph with 3 nodes and up to one arc per ordered pair; every pair vector of length 4 over 3 values; both sides of the bucket sort switch");
RANDOM_SUITE("C18","random_graphs",4000,60000,gu_rand,"random graphs with parallel arcs and loops, random walks, random pair vectors");
EXHAUSTIVE_SUITE("C21","all_graphs_with_4_nodes",65536,65536,scc_exh,"every directed graph with 4 nodes, loops included");
RANDOM_SUITE("C21","random_graphs",6000,80000,scc_rand,"random graphs and chains of cycles of different sizes with permuted ids");
EXHAUSTIVE_SUITE("C22","all_graphs_with_4_nodes",729,729,nd_exh,"every undirected multigraph with 4 nodes and up to 2 edges per pair");
RANDOM_SUITE("C22","random_graphs",1500,20000,nd_rand,"random graphs and positions (also all equal), balances 0..50 percent, all cuts, flows, separators, decompositions and orders");
RK_MAIN
