// C02 CCH distances, C03 CCH paths, C04 CCH customization, C05 CCH query history.
#include "rk_query.h"
#include <routingkit/customizable_contraction_hierarchy.h>
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/nested_dissection.h>
#include <memory>
#include <new>
using namespace RoutingKit; using namespace rk;
typedef std::vector<unsigned> V; typedef CustomizableContractionHierarchy CCH; typedef CustomizableContractionHierarchyMetric Metric; typedef CustomizableContractionHierarchyQuery Query;
namespace{
std::function<void(const std::string&)> quiet(){ return [](const std::string&){}; }
// a weight vector for g: profile of the graph, other profile, some closed arcs
V random_weights(Rng&r,const Graph&g){ unsigned profile=r.below(6); V w(g.m()); for(auto&x:w){ x=profile==5?(r.one_in(2)?INF-1-r.below(3):r.below(INF)):random_weight(r,profile,g.n); } unsigned closed=r.below(4); if(closed==1||closed==2) for(auto&x:w) if(r.one_in(closed==1?6:2)) x=INF; return w; }
Graph cch_graph(Rng&r, unsigned max_n){ Graph g=random_graph(r,r.one_in(12)?max_n*3:max_n); return g; }
V random_order(Rng&r,const Graph&g){ 
	if(r.one_in(4)){ std::vector<float> la(g.n),lo(g.n); for(auto&x:la)x=r.below(1000)/10.0f; for(auto&x:lo)x=r.below(1000)/10.0f; return compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,la,lo); }
	if(r.one_in(4)){ V d(g.n,0); for(unsigned a=0;a<g.m();++a){ ++d[g.tail[a]]; ++d[g.head[a]]; } V o(g.n); for(unsigned i=0;i<g.n;++i)o[i]=i; std::stable_sort(o.begin(),o.end(),[&](unsigned a,unsigned b){return d[a]<d[b];}); return o; }
	return random_perm(r,g.n); }
void note_case(Case&c,const Graph&g,const V&order){ note(c,g); c.note("order",order); }

void queries(Case&c,const Graph&g,const CCH&cch,int what){
	for(unsigned round=0;round<2;++round){
		V w=round==0?g.weight:random_weights(c.rng,g); c.note("arc weights",w);
		Metric m(cch,w); m.customize(); Dist d(g,w); Query q(m);
		if(g.n==0) return;
		if(g.n<=7) for(unsigned s=0;s<g.n;++s)for(unsigned t=0;t<g.n;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,0}},what); }
		unsigned k=g.n<=7?4:20;
		for(unsigned i=0;i<k;++i){ Ends a=random_ends(c.rng,g.n,c.rng.one_in(4)?INF:1000), b=random_ends(c.rng,g.n,1000); Query f(m); ask(c,f,d,a,b,what); }
	}
}
void c02_rand(Case&c){ Graph g=cch_graph(c.rng,14); V o=random_order(c.rng,g); note_case(c,g,o); bool f=c.rng.one_in(3); c.note("filter_always_inf_arcs",f); CCH cch(o,g.tail,g.head,quiet(),f); queries(c,g,cch,CHECK_DISTANCE);
	c.equal(cch.node_count(),g.n,"node_count"); c.equal(cch.input_arc_count(),g.m(),"input_arc_count"); }
void c03_rand(Case&c){ Graph g=cch_graph(c.rng,14); V o=random_order(c.rng,g); note_case(c,g,o); bool f=c.rng.one_in(3); c.note("filter_always_inf_arcs",f); CCH cch(o,g.tail,g.head,quiet(),f); queries(c,g,cch,CHECK_PATH|CHECK_DISTANCE); }
V order3(unsigned i){ V p={0,1,2}; while(i--) std::next_permutation(p.begin(),p.end()); return p; }
const unsigned wp[3][2]={{0,1},{1,3},{2147483646u,1073741824u}};
void ex3(Case&c,int what){ uint64_t i=c.index; V o=order3(i%6); i/=6; bool f=i%2; i/=2; unsigned k=i%3; i/=3; Graph g=enumerated_loopless_graph(3,i,wp[k][0],wp[k][1]); note_case(c,g,o); c.note("filter",f);
	CCH cch(o,g.tail,g.head,quiet(),f); Metric m(cch,g.weight); m.customize(); Dist d(g,g.weight); Query q(m);
	for(unsigned s=0;s<3;++s)for(unsigned t=0;t<3;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,0}},what); q.reset(); ask(c,q,d,{{s,1},{(s+1)%3,0}},{{t,1},{(t+1)%3,2}},what);} }
void c02_ex(Case&c){ ex3(c,CHECK_DISTANCE); }
void c03_ex(Case&c){ ex3(c,CHECK_PATH|CHECK_DISTANCE); }
// larger, structured: chordal structure, many triangles
void big(Case&c,int what){ Graph g=random_graph(c.rng,90); V o=random_order(c.rng,g); note_case(c,g,o); bool f=c.rng.one_in(3); CCH cch(o,g.tail,g.head,quiet(),f); V w=random_weights(c.rng,g); c.note("arc weights",w); Metric m(cch,w); m.customize(); Dist d(g,w); Query q(m);
	for(unsigned i=0;i<25;++i){ q.reset(); unsigned s=c.rng.below(g.n); ask(c,q,d,{{s,0}},{{c.rng.below(g.n),0}},what); }
	for(unsigned i=0;i<10;++i){ q.reset(); ask(c,q,d,random_ends(c.rng,g.n,1000),random_ends(c.rng,g.n,1000),what); } }
void c02_big(Case&c){ big(c,CHECK_DISTANCE); } void c03_big(Case&c){ big(c,CHECK_PATH|CHECK_DISTANCE); }
// constructed with an empty log function and with empty graphs
void c02_edge(Case&c){
	unsigned n=c.index%4; bool f=(c.index/4)%2; unsigned log=(c.index/8)%3; unsigned loops=(c.index/24)%2; unsigned ctor=(c.index/48)%3; Graph g; g.n=n; if(loops)for(unsigned i=0;i<n;++i){ g.tail.push_back(i); g.head.push_back(i); g.weight.push_back(i);} V o(n); for(unsigned i=0;i<n;++i)o[i]=n-1-i; note_case(c,g,o); c.note("filter",f); c.note("log (0 default, 1 empty function, 2 function)",log); c.note("metric set up (0 constructor, 1 reset with vector, 2 reset of a default constructed metric)",ctor);
	unsigned lines=0; std::unique_ptr<CCH> cch; 
	if(log==0) cch.reset(f?new CCH(o,g.tail,g.head,quiet(),f):new CCH(o,g.tail,g.head)); else if(log==1) cch.reset(new CCH(o,g.tail,g.head,std::function<void(const std::string&)>(),f)); else cch.reset(new CCH(o,g.tail,g.head,[&](const std::string&){++lines;},f));
	Metric m; if(ctor==0) m=Metric(*cch,g.weight); else if(ctor==1){ m=Metric(*cch,g.weight); m.reset(g.weight);} else m.reset(*cch,g.weight);
	m.customize(); Query q; q.reset(m); Dist d(g,g.weight); c.equal(cch->node_count(),n,"node_count");
	for(unsigned s=0;s<n;++s)for(unsigned t=0;t<n;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,3}},CHECK_DISTANCE|CHECK_PATH);} 
	q.reset().pin_targets({}); if(n){ ask_pinned_targets(c,q,d,{{0,0}},{}); } q.reset().pin_sources({}); if(n){ ask_pinned_sources(c,q,d,{{0,0}},{}); }
	if(n){ q.reset(); q.add_source(0).run(); c.equal(q.get_distance(),inf_weight,"distance without a target"); q.reset(); q.add_target(0).run(); c.equal(q.get_distance(),inf_weight,"distance without a source"); }
	ContractionHierarchy ch=m.build_contraction_hierarchy_using_perfect_witness_search(); c.equal(ch.node_count(),n,"node count of the perfect CH");
	CustomizableContractionHierarchyPartialCustomization p(*cch); p.reset(); for(unsigned a=0;a<g.m();++a)p.update_arc(a); p.customize(m);
}

// copies and moved objects answer like the original, also after the original was changed or destroyed
void c02_copy(Case&c){ Graph g=cch_graph(c.rng,9); V o=random_order(c.rng,g); note_case(c,g,o); bool f=c.rng.one_in(3); c.note("filter_always_inf_arcs",f); unsigned how=c.index%6; c.note("how",how);
	std::unique_ptr<CCH> a(new CCH(o,g.tail,g.head,quiet(),f)); Graph g2=cch_graph(c.rng,9); CCH other(random_order(c.rng,g2),g2.tail,g2.head,quiet(),f); CCH b; 
	if(how==0) b=*a; else if(how==1) b=std::move(*a); else if(how==2){ CCH t(*a); b=t; } else if(how==3){ CCH t(std::move(*a)); b=std::move(t); } else if(how==4){ b=other; const CCH&r=b; b=r; b=*a; *a=other; } else { std::vector<CCH> v; v.push_back(other); v.push_back(*a); v.push_back(CCH()); v.erase(v.begin()); b=v[0]; }
	a.reset(); other=CCH(); queries(c,g,b,CHECK_DISTANCE|CHECK_PATH); }

// ---- C04
void check_structure(Case&c,const Graph&g,const CCH&h,const V&o){
	unsigned n=g.n;
	c.check(h.rank.size()==n&&h.order==o,"order/rank have the wrong size"); for(unsigned i=0;i<n;++i) c.check(h.rank[o[i]]==i,"rank is not the inverse of the order");
	c.check(h.up_first_out.size()==n+1&&h.down_first_out.size()==n+1,"first_out sizes"); c.check(h.up_first_out[0]==0&&h.up_first_out[n]==h.up_head.size()&&h.up_tail.size()==h.up_head.size(),"up graph sizes");
	for(unsigned x=0;x<n;++x)for(unsigned a=h.up_first_out[x];a<h.up_first_out[x+1];++a) c.check(h.up_tail[a]==x&&h.up_head[a]>x&&h.up_head[a]<n&&(a==h.up_first_out[x]||h.up_head[a-1]<h.up_head[a]),"up graph is not sorted or contains a downward arc");
	for(unsigned y=0;y<n;++y)for(unsigned a=h.down_first_out[y];a<h.down_first_out[y+1];++a){ c.check(h.down_to_up[a]<h.up_head.size()&&h.up_head[h.down_to_up[a]]==y&&h.up_tail[h.down_to_up[a]]==h.down_head[a],"down graph does not mirror the up graph"); c.check(a==h.down_first_out[y]||h.down_head[a-1]<h.down_head[a],"down graph is not sorted"); }
	c.check(h.down_first_out[n]==h.up_head.size(),"down graph misses arcs");
	for(unsigned a=0;a<g.m();++a){ unsigned x=h.rank[g.tail[a]],y=h.rank[g.head[a]]; unsigned b=h.input_arc_to_cch_arc[a]; if(x==y) c.check(b==invalid_id,"a loop is mapped to a CCH arc"); else c.check(b<h.up_head.size()&&h.up_tail[b]==std::min(x,y)&&h.up_head[b]==std::max(x,y)&&h.is_input_arc_upward.is_set(a)==(x<y),"an input arc is mapped to the wrong CCH arc"); }
}
void expected_metric(const Graph&g,const CCH&h,const V&w,std::vector<uint64_t>&f,std::vector<uint64_t>&b){
	unsigned n=g.n,m=h.up_head.size(); f.assign(m,INF); b.assign(m,INF);
	for(unsigned a=0;a<g.m();++a){ unsigned x=h.input_arc_to_cch_arc[a]; if(x==invalid_id)continue; auto&z=h.rank[g.tail[a]]<h.rank[g.head[a]]?f[x]:b[x]; z=std::min<uint64_t>(z,w[a]); }
	std::map<std::pair<unsigned,unsigned>,unsigned> id; for(unsigned a=0;a<m;++a) id[{h.up_tail[a],h.up_head[a]}]=a;
	for(unsigned x=0;x<n;++x)for(unsigned p=h.up_first_out[x];p<h.up_first_out[x+1];++p)for(unsigned q=p+1;q<h.up_first_out[x+1];++q){ auto i=id.find({h.up_head[p],h.up_head[q]}); if(i==id.end()) continue; unsigned t=i->second; f[t]=std::min(f[t],b[p]+f[q]); b[t]=std::min(b[t],f[p]+b[q]); }
}
void same_metric(Case&c,const Metric&m,const std::vector<uint64_t>&f,const std::vector<uint64_t>&b,const char*what){
	c.check(m.forward.size()==f.size()&&m.backward.size()==b.size(),"metric size");
	for(unsigned a=0;a<f.size();++a){ c.check(m.forward[a]==f[a],[&](std::ostream&o){o<<what<<": forward weight of CCH arc "<<a<<" is "<<m.forward[a]<<", expected "<<f[a];}); c.check(m.backward[a]==b[a],[&](std::ostream&o){o<<what<<": backward weight of CCH arc "<<a<<" is "<<m.backward[a]<<", expected "<<b[a];}); } }
void perfect(Case&c,const Graph&g,const CCH&cch,const V&w,bool filtered){
	Metric m(cch,w); ContractionHierarchy ch=m.build_contraction_hierarchy_using_perfect_witness_search(); Dist d(g,w); ContractionHierarchyQuery q(ch);
	if(g.n<=6) for(unsigned s=0;s<g.n;++s)for(unsigned t=0;t<g.n;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,0}},CHECK_DISTANCE|CHECK_PATH);} 
	else for(unsigned i=0;i<12;++i){ q.reset(); unsigned s=c.rng.below(g.n); ask(c,q,d,{{s,0}},{{c.rng.below(g.n),0}},CHECK_DISTANCE|CHECK_PATH);} 
	// after the witness search the CCH arcs carry exact distances
	if(!filtered) for(unsigned a=0;a<cch.up_head.size();++a){ unsigned x=cch.order[cch.up_tail[a]],y=cch.order[cch.up_head[a]]; c.check(m.forward[a]==clip(d(x,y))&&m.backward[a]==clip(d(y,x)),"perfect customization: the weight of a CCH arc is not the distance of its end points"); }
}
void c04_rand(Case&c){
	Graph g=cch_graph(c.rng,11); V o=random_order(c.rng,g); note_case(c,g,o); bool filt=c.rng.one_in(3); c.note("filter_always_inf_arcs",filt);
	CCH cch(o,g.tail,g.head,quiet(),filt); check_structure(c,g,cch,o);
	V w=random_weights(c.rng,g); c.note("arc weights",w); Metric m(cch,w); m.customize(); std::vector<uint64_t> f,b; expected_metric(g,cch,w,f,b); same_metric(c,m,f,b,"full customization");
	CustomizableContractionHierarchyPartialCustomization p; p.reset(cch); V w2;
	for(unsigned round=0;round<5;++round){
		bool other_vector=c.rng.one_in(3); V nw=w; V upd; unsigned mode=c.rng.below(5);
		for(unsigned a=0;a<g.m();++a){ bool ch=mode==0?c.rng.one_in(g.m()):mode==1?c.rng.one_in(3):mode==2?true:mode==3?c.rng.one_in(6):c.rng.one_in(2); if(ch){ nw[a]=c.rng.one_in(5)?INF:c.rng.one_in(3)?0:mode==3?(nw[a]>=1&&nw[a]<INF?nw[a]-1:5):c.rng.below(c.rng.one_in(2)?20:INF); upd.push_back(a);} else if(c.rng.one_in(9)) upd.push_back(a); }
		for(unsigned i=upd.size();i>1;--i) std::swap(upd[i-1],upd[c.rng.below(i)]); if(!upd.empty()&&c.rng.one_in(3)) upd.push_back(upd[0]);
		c.note("new arc weights",nw); c.note("updated arcs",upd);
		if(other_vector){ w2=nw; m.reset(w2); } else { w=nw; m.reset(w); } w=nw;
		if(g.m()&&c.rng.one_in(4)){ p.update_arc(c.rng.below(g.m())); p.reset(); }
		for(unsigned a:upd) p.update_arc(a); p.customize(m);
		expected_metric(g,cch,nw,f,b); same_metric(c,m,f,b,"partial customization"); if(other_vector) m.reset(w);
	}
	m.customize(); same_metric(c,m,f,b,"full customization after partial ones"); perfect(c,g,cch,w,filt); perfect(c,g,cch,random_weights(c.rng,g),filt);
}
void c04_ex(Case&c){ uint64_t i=c.index; V o=order3(i%6); i/=6; bool fl=i%2; i/=2; unsigned k=i%3; i/=3; Graph g=enumerated_loopless_graph(3,i,wp[k][0],wp[k][1]); note_case(c,g,o); c.note("filter",fl);
	CCH cch(o,g.tail,g.head,quiet(),fl); check_structure(c,g,cch,o); Metric m(cch,g.weight); m.customize(); std::vector<uint64_t> f,b; expected_metric(g,cch,g.weight,f,b); same_metric(c,m,f,b,"full customization"); perfect(c,g,cch,g.weight,fl);
	CustomizableContractionHierarchyPartialCustomization p(cch); V w=g.weight; m.reset(w); m.customize(); const unsigned vals[]={0,1,2,INF};
	for(unsigned a=0;a<g.m();++a)for(unsigned v:vals){ unsigned old=w[a]; w[a]=v; p.update_arc(a); p.customize(m); expected_metric(g,cch,w,f,b); same_metric(c,m,f,b,"partial customization (one arc changed)"); w[a]=old; p.update_arc(a); p.customize(m); expected_metric(g,cch,w,f,b); same_metric(c,m,f,b,"partial customization (change undone)"); }
}

// ---- C05
struct World{ Graph g; std::unique_ptr<CCH> cch; V w[2]; std::unique_ptr<Metric> m[2]; std::unique_ptr<Dist> d[2]; 
	void make(Case&c,unsigned max_n){ g=random_graph(c.rng,max_n); V o=random_order(c.rng,g); note_case(c,g,o); cch.reset(new CCH(o,g.tail,g.head,quiet(),c.rng.one_in(3))); for(int k=0;k<2;++k){ w[k]=k==0?g.weight:random_weights(c.rng,g); c.note("arc weights",w[k]); m[k].reset(new Metric(*cch,w[k])); m[k]->customize(); d[k].reset(new Dist(g,w[k])); } } };
void c05_rand(Case&c){
	World W[2]; W[0].make(c,12); W[1].make(c,c.rng.one_in(2)?12:4); unsigned cur=0,k=0; std::unique_ptr<Query> q(new Query(*W[0].m[0])); std::ostringstream log;
	unsigned steps=14+c.rng.below(20); std::vector<unsigned> trace;
	try{
	for(unsigned i=0;i<steps;++i){
		World*u=&W[cur]; unsigned n=u->g.n; unsigned op=c.rng.below(8); trace.push_back(op); c.hash=mix(c.hash,op*31+cur);
		if(op==0){ cur=c.rng.below(2); k=c.rng.below(2); log<<" reset(graph "<<cur<<", weights "<<k<<")"; q->reset(*W[cur].m[k]); u=&W[cur]; n=u->g.n; }
		else if(op==1&&c.rng.one_in(3)){ log<<" new weights"; V nw=random_weights(c.rng,u->g); u->w[k]=nw; u->m[k]->reset(u->w[k]); u->m[k]->customize(); u->d[k].reset(new Dist(u->g,u->w[k])); q->reset(); }
		else if(op==1&&c.rng.one_in(2)){ log<<" another CCH in the same place"; // the CCH, metric objects keep their address
			Graph h=random_graph(c.rng,c.rng.one_in(2)?n:14); V o=random_perm(c.rng,h.n); for(int j=0;j<2;++j){ if(&W[cur]==u) ; } 
			// the query is first moved to the other graph, as the documentation requires the CCH to live as long as it is used
			unsigned oc=1-cur; q->reset(*W[oc].m[0]); u->g=h; *u->cch=CCH(o,h.tail,h.head,quiet(),false); for(int j=0;j<2;++j){ u->w[j]=random_weights(c.rng,h); *u->m[j]=Metric(*u->cch,u->w[j]); u->m[j]->customize(); u->d[j].reset(new Dist(u->g,u->w[j])); } q->reset(*u->m[k]); n=u->g.n; }
		else { log<<" reset()"; q->reset(); }
		if(c.rng.one_in(6)){ log<<" add, reset()"; q->add_source(c.rng.below(n)); if(c.rng.one_in(2)) q->add_target(c.rng.below(n),c.rng.below(9)); if(c.rng.one_in(2)) q->reset(); else q->reset(*u->m[k]); }
		if(c.rng.one_in(6)){ log<<" copy"; Query cp(*q); Query as(*u->m[k]); as=cp; *q=as; }
		switch(c.rng.below(4)){
			case 0: case 1: { Ends a=random_ends(c.rng,n,1000),b=random_ends(c.rng,n,1000); log<<" query("<<a[0].first<<(a.size()>1?"..":"")<<"->"<<b[0].first<<(b.size()>1?"..":"")<<")"; ask(c,*q,*u->d[k],a,b,c.rng.one_in(2)?CHECK_DISTANCE|CHECK_PATH:CHECK_DISTANCE); if(c.rng.one_in(3)) q->get_arc_path(); break; }
			case 2: { V p=random_nodes(c.rng,n,true); log<<" pin_targets"<<show(p); q->pin_targets(p); unsigned r=c.rng.below(5); for(unsigned j=0;j<r;++j){ if(j||c.rng.one_in(3)) q->reset_source(); Ends a=random_ends(c.rng,n,1000); if(c.rng.one_in(5)){ q->add_source(c.rng.below(n),c.rng.below(20)); if(c.rng.one_in(2)) q->run_to_pinned_targets(); q->reset_source(); } log<<" run("<<a[0].first<<")"; ask_pinned_targets(c,*q,*u->d[k],a,p);} if(c.rng.one_in(3)){ Ends a=random_ends(c.rng,n,10); if(r) q->reset_source(); q->add_source(a[0].first); log<<" add_source"; } break; }
			default: { V p=random_nodes(c.rng,n,true); log<<" pin_sources"<<show(p); q->pin_sources(p); unsigned r=c.rng.below(5); for(unsigned j=0;j<r;++j){ if(j||c.rng.one_in(3)) q->reset_target(); Ends a=random_ends(c.rng,n,1000); if(c.rng.one_in(5)){ q->add_target(c.rng.below(n),c.rng.below(20)); if(c.rng.one_in(2)) q->run_to_pinned_sources(); q->reset_target(); } log<<" run("<<a[0].first<<")"; ask_pinned_sources(c,*q,*u->d[k],a,p);} if(c.rng.one_in(3)){ Ends a=random_ends(c.rng,n,10); if(r) q->reset_target(); q->add_target(a[0].first); log<<" add_target"; } break; }
		}
	}
	}catch(Fail&f){ f.msg="history:"+log.str()+": "+f.msg; throw; }
	c.note("operations",trace);
}
// a default constructed object in memory that held another query before
void c05_reuse(Case&c){
	Graph g=random_graph(c.rng,9); V o=random_order(c.rng,g); note_case(c,g,o); CCH cch(o,g.tail,g.head,quiet()); Metric m(cch,g.weight); m.customize(); Dist d(g,g.weight);
	alignas(Query) static unsigned char mem[sizeof(Query)];
	for(unsigned i=0;i<4;++i){ Query*q=new(mem) Query(); q->reset(m); unsigned s=c.rng.below(g.n),t=c.rng.below(g.n); ask(c,*q,d,{{s,0}},{{t,0}},CHECK_DISTANCE|CHECK_PATH); q->reset(); V p=random_nodes(c.rng,g.n,true); q->pin_targets(p); ask_pinned_targets(c,*q,d,{{s,0}},p); q->~Query(); }
}
// all pairs through pins and histories over all graphs with 3 nodes
void c05_ex(Case&c){ uint64_t i=c.index; V o=order3(i%6); i/=6; Graph g=enumerated_loopless_graph(3,i,1,2); note_case(c,g,o); CCH cch(o,g.tail,g.head,quiet()); Metric m(cch,g.weight); m.customize(); Dist d(g,g.weight); Query q(m);
	for(unsigned mask=0;mask<8;++mask){ V p; for(unsigned x=0;x<3;++x) if(mask>>x&1) p.push_back(x); for(int dir=0;dir<2;++dir){ q.reset(); if(dir==0)q.pin_targets(p); else q.pin_sources(p); for(unsigned s=0;s<3;++s){ if(dir==0){ q.reset_source(); ask_pinned_targets(c,q,d,{{s,0}},p);} else { q.reset_target(); ask_pinned_sources(c,q,d,{{s,0}},p);} } } }
	for(unsigned s=0;s<3;++s)for(unsigned t=0;t<3;++t){ q.reset(); ask(c,q,d,{{s,0}},{{t,0}},CHECK_DISTANCE|CHECK_PATH);} }
EXHAUSTIVE_SUITE("C02","all_loopless_graphs_with_3_nodes",26244,26244,c02_ex,"every graph with 3 nodes where each ordered pair has no arc or one of two weights, every order, with and without filtering, 3 weight pairs (incl. sums above infinity); every pair and two two-source two-target queries per pair");
EXHAUSTIVE_SUITE("C02","empty_and_arcless_graphs",144,144,c02_edge,"0..3 nodes, no arcs or loops only; default, empty and real log function; constructed and reset metrics");
RANDOM_SUITE("C02","random_graphs",3500,60000,c02_rand,"random graphs up to 42 nodes (parallel arcs, loops, components), random / degree / nested dissection orders, weights incl. zero, closed, near infinity, sums above infinity; up to 4 sources and targets with initial distances; two weight vectors per CCH");
RANDOM_SUITE("C02","larger_graphs",400,8000,c02_big,"as random_graphs with up to 90 nodes");
RANDOM_SUITE("C02","copied_and_moved",600,8000,c02_copy,"copy and move construction and assignment (also self assignment and in a vector), the original destroyed or overwritten, then all queries");
EXHAUSTIVE_SUITE("C03","all_loopless_graphs_with_3_nodes",26244,26244,c03_ex,"every graph with 3 nodes (2 weights per arc), every order, with and without filtering, 3 weight pairs; all pairs and two-source two-target queries");
RANDOM_SUITE("C03","random_graphs",3500,60000,c03_rand,"random graphs up to 42 nodes with parallel arcs, loops, zero weights and ties; every path is walked arc by arc");
RANDOM_SUITE("C03","larger_graphs",400,8000,c03_big,"as random_graphs with up to 90 nodes");
EXHAUSTIVE_SUITE("C04","all_loopless_graphs_with_3_nodes",26244,26244,c04_ex,"every graph with 3 nodes (2 weights per arc), every order, with and without filtering; full, perfect and every single arc partial customization to 4 values and back");
RANDOM_SUITE("C04","random_graphs",3000,60000,c04_rand,"random graphs up to 33 nodes; metric compared with an independent triangle by triangle computation; 5 rounds of partial customization with increases, decreases, closed and reopened arcs; perfect customization compared with true distances");
EXHAUSTIVE_SUITE("C05","all_loopless_graphs_with_3_nodes",4374,4374,c05_ex,"every graph with 3 nodes (2 weights per arc), every order, one reused query object over all pinned subsets and all pairs");
RANDOM_SUITE("C05","random_histories",2500,50000,c05_rand,"random sequences of reset, reset to other metrics / CCHs, recustomization, single pair, pinned target and pinned source queries on one object; every answer compared with Bellman-Ford");
RANDOM_SUITE("C05","default_constructed",300,3000,c05_reuse,"default constructed query objects placed in memory that held another query, then reset to a metric");
}
RK_MAIN
