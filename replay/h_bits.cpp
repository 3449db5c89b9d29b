// C16 bit vectors, C17 id mappers, against std::vector<bool> and naive counting.
#include "rk_harness.h"
#include <routingkit/bit_vector.h>
#include <routingkit/id_mapper.h>
using namespace RoutingKit; using namespace rk;
typedef std::vector<bool> B;
namespace{
struct Pair{ BitVector v; B m; };
void verify(Case&c,const BitVector&v,const B&m,const char*w){
	c.check(v.size()==m.size(),[&](std::ostream&o){o<<w<<": size() = "<<v.size()<<" expected "<<m.size();});
	c.check(v.empty()==m.empty(),[&](std::ostream&o){o<<w<<": empty()";});
	uint64_t cnt=0; for(uint64_t i=0;i<m.size();++i){ if(v.is_set(i)!=m[i]){ std::ostringstream o; o<<w<<": bit "<<i<<" of "<<m.size()<<" is "<<v.is_set(i)<<" expected "<<m[i]; c.fail(o.str()); } cnt+=m[i]; } ++c.checks;
	c.check(v.population_count()==cnt,[&](std::ostream&o){o<<w<<": population_count() = "<<v.population_count()<<" expected "<<cnt;});
	c.check(v.count_true()==cnt&&v.count_false()==m.size()-cnt,[&](std::ostream&o){o<<w<<": count_true/count_false";});
	c.check(v.are_all_set()==(cnt==m.size()),[&](std::ostream&o){o<<w<<": are_all_set() = "<<v.are_all_set()<<" with "<<cnt<<" of "<<m.size()<<" bits set";});
	c.check(v.is_any_set()==(cnt!=0),[&](std::ostream&o){o<<w<<": is_any_set() = "<<v.is_any_set()<<" with "<<cnt<<" bits set";});
	BitVector fresh(m.size()); for(uint64_t i=0;i<m.size();++i) if(m[i]) fresh.set(i);
	c.check(v==fresh&&!(v!=fresh)&&!(v<fresh)&&!(fresh<v)&&v<=fresh&&v>=fresh,[&](std::ostream&o){o<<w<<": comparison with a fresh vector of the same bits";});
}
unsigned rsize(Rng&r){ switch(r.below(8)){ case 0: return 0; case 1: return r.below(5); case 2: return 512*r.in(1,4); case 3: return 512*r.in(1,4)+r.in(1,3); case 4: return 512*r.in(1,4)-r.in(1,3); case 5: return 64*r.in(1,24)+r.below(3)-1; case 6: return r.below(600); default: return r.below(2100);} }
bool ref_less(const B&a,const B&b){ // word-wise order: size first, then the first differing 64 bit word as number
	if(a.size()!=b.size()) return a.size()<b.size();
	for(uint64_t w=0;w*64<a.size();++w){ uint64_t x=0,y=0; for(unsigned i=0;i<64&&w*64+i<a.size();++i){ x|=(uint64_t)a[w*64+i]<<i; y|=(uint64_t)b[w*64+i]<<i; } if(x!=y) return x<y; }
	return false;
}
void compare(Case&c,const Pair&a,const Pair&b){
	c.check((a.v==b.v)==(a.m==b.m)&&(a.v!=b.v)==(a.m!=b.m),"== / !=");
	// any strict total order consistent with equality is accepted
	bool l=a.v<b.v,g=b.v<a.v; c.check((int)l+(int)g+(int)(a.m==b.m)==1,"< is no strict total order consistent with =="); c.check((a.v>b.v)==g&&(a.v<=b.v)==!g&&(a.v>=b.v)==!l,"> <= >= do not agree with <");
}
void history(Case&c){
	Rng&r=c.rng; unsigned n=rsize(r); std::vector<Pair> p(3); bool init=r.below(2); c.note("initial size",n); c.note("initial value",init);
	p[0].v=BitVector(n,init); p[0].m=B(n,init); 
	unsigned steps=r.in(3,25);
	auto nm=[&](const std::string&s){ if(c.verbose) c.text<<"  "<<s<<"\n"; for(char ch:s) c.hash=mix(c.hash,ch); };
	for(unsigned s=0;s<steps;++s){
		unsigned k=r.below(3); BitVector&v=p[k].v; B&m=p[k].m; std::string K="v"+std::to_string(k); uint64_t sz=m.size();
		unsigned o=r.below(22);
		if(o<3&&sz){ unsigned reps=r.in(1,20); for(unsigned q=0;q<reps;++q){ uint64_t i=r.one_in(4)?sz-1-r.below(std::min<uint64_t>(sz,3)):(r.one_in(4)?(std::min<uint64_t>(sz-1,r.in(0,33)*64+r.below(3))):r.below(sz)); bool b=r.below(2);
			switch(r.below(5)){ case 0: nm(K+".set("+std::to_string(i)+")"); v.set(i); m[i]=true; break; case 1: nm(K+".set("+std::to_string(i)+","+std::to_string(b)+")"); v.set(i,b); m[i]=b; break; case 2: nm(K+".reset("+std::to_string(i)+")"); v.reset(i); m[i]=false; break; case 3: nm(K+".toggle("+std::to_string(i)+")"); v.toggle(i); m[i]=!m[i]; break; default: nm(K+".set_if("+std::to_string(i)+","+std::to_string(b)+")"); v.set_if(i,b); m[i]=m[i]||b; } } }
		else if(o<6){ unsigned z=r.one_in(3)?std::max<int>(0,(int)sz+(int)r.below(5)-2):rsize(r); bool b=r.below(2); nm(K+".resize("+std::to_string(z)+","+std::to_string(b)+")"); v.resize(z,b); m.resize(z,b); }
		else if(o<7){ unsigned z=r.below(2)?(unsigned)r.below(sz+1):rsize(r); nm(K+".resize("+std::to_string(z)+",uninitialized)"); v.resize(z,BitVector::uninitialized); c.check(v.size()==z,"size after resize(uninitialized)"); B old=m; m.resize(z); for(uint64_t i=0;i<z;++i) m[i]=i<old.size()?(bool)old[i]:v.is_set(i); }
		else if(o==7){ uint64_t x=r.one_in(2)?r.below(sz+10):rsize(r); bool b=r.below(2); nm(K+".make_large_enough_for("+std::to_string(x)+","+std::to_string(b)+")"); v.make_large_enough_for(x,b); c.check(v.size()>x&&v.size()>=sz,"make_large_enough_for"); if(x<sz) c.check(v.size()==sz,"make_large_enough_for changed a large enough vector"); m.resize(v.size(),b); }
		else if(o==8){ uint64_t x=rsize(r); nm(K+".make_large_enough_for("+std::to_string(x)+",uninitialized)"); v.make_large_enough_for(x,BitVector::uninitialized); c.check(v.size()>x&&v.size()>=sz,"make_large_enough_for(uninitialized)"); B old=m; m.resize(v.size()); for(uint64_t i=old.size();i<m.size();++i) m[i]=v.is_set(i); }
		else if(o==9){ bool b=r.below(2); if(r.below(2)){ nm(K+".set_all("+std::to_string(b)+")"); v.set_all(b);} else if(b){ nm(K+".set_all()"); v.set_all(); } else { nm(K+".reset_all()"); v.reset_all(); } m.assign(sz,b); }
		else if(o==10){ nm(K+".inplace_not()"); v.inplace_not(); m.flip(); }
		else if(o==11){ nm(K+" = ~"+K); v=~v; m.flip(); }
		else if(o<16){ unsigned j=r.below(3); std::string J="v"+std::to_string(j); if(p[j].m.size()!=sz){ bool b=r.below(2); nm(J+".resize("+std::to_string(sz)+","+std::to_string(b)+")"); p[j].v.resize(sz,b); p[j].m.resize(sz,b); if(sz) for(unsigned q=0;q<8;++q){ uint64_t i=r.below(sz); nm(J+".toggle("+std::to_string(i)+")"); p[j].v.toggle(i); p[j].m[i]=!p[j].m[i]; } verify(c,p[j].v,p[j].m,"after resize"); }
			unsigned op=r.below(3), form=r.below(5); B e(sz); for(uint64_t i=0;i<sz;++i){ bool x=m[i],y=p[j].m[i]; e[i]=op==0?(x||y):op==1?(x&&y):(x!=y); }
			const char*ops[]={"|","&","^"}; nm(K+" "+ops[op]+"= "+J+" (form "+std::to_string(form)+")");
			const BitVector&a=p[k].v; const BitVector&b=p[j].v; BitVector res;
			if(form==0){ res=a; if(op==0) res|=b; else if(op==1) res&=b; else res^=b; }
			else if(form==1) res=op==0?(a|b):op==1?(a&b):(a^b);
			else if(form==2) res=op==0?(BitVector(a)|b):op==1?(BitVector(a)&b):(BitVector(a)^b);
			else if(form==3) res=op==0?(a|BitVector(b)):op==1?(a&BitVector(b)):(a^BitVector(b));
			else res=op==0?(BitVector(a)|BitVector(b)):op==1?(BitVector(a)&BitVector(b)):(BitVector(a)^BitVector(b));
			verify(c,p[j].v,p[j].m,"operand of a logical operation"); p[k].v=res; m=e; }
		else if(o==16){ unsigned j=r.below(3); nm(K+" = v"+std::to_string(j)); p[k].v=p[j].v; B t=p[j].m; p[k].m=t; }
		else if(o==17){ unsigned j=r.below(3); nm(K+".swap(v"+std::to_string(j)+")"); p[k].v.swap(p[j].v); B t=p[j].m; p[j].m=p[k].m; p[k].m=t; verify(c,p[j].v,p[j].m,"after swap"); }
		else if(o==18){ unsigned z=rsize(r); unsigned d=r.in(1,9); uint64_t sd=r(); nm(K+" = make_bit_vector("+std::to_string(z)+", every "+std::to_string(d)+"th on average)"); B e(z); Rng q(sd); for(uint64_t i=0;i<z;++i) e[i]=q.one_in(d); v=make_bit_vector(z,[&](uint64_t i){return (bool)e[i];}); m=e; }
		else if(o==19){ BitVector t(std::move(v)); nm("moved out of "+K); verify(c,t,m,"move constructed"); v=std::move(t); }
		else if(o==20){ BitVector t(sz,BitVector::uninitialized); c.check(t.size()==sz,"size of an uninitialized vector"); B e(sz); for(uint64_t i=0;i<sz;++i) e[i]=t.is_set(i); verify(c,t,e,"uninitialized vector"); }
		else { unsigned j=r.below(3); compare(c,p[k],p[j]); if(sz){ Pair q=p[k]; uint64_t i=r.below(sz); q.v.toggle(i); q.m[i]=!q.m[i]; compare(c,p[k],q); } }
		verify(c,p[k].v,p[k].m,"after the last operation");
	}
}
// all resize pairs (a,va)->(b,vb) for sizes around the block borders
void resize_exh(Case&c){
	static const unsigned S[]={0,1,2,63,64,65,127,128,129,448,511,512,513,575,576,577,1023,1024,1025,1536}; const unsigned N=sizeof(S)/sizeof(S[0]); uint64_t x=c.index; unsigned a=S[x%N]; x/=N; unsigned b=S[x%N]; x/=N; bool va=x&1,vb=x>>1&1; unsigned mode=x>>2&1;
	c.note("size",a); c.note("value",va); c.note("new size",b); c.note("new value",vb); c.note("through a copy",mode);
	BitVector v(a,va); B m(a,va); verify(c,v,m,"constructed"); if(mode){ BitVector w(v); v=w; verify(c,v,m,"copied"); } v.resize(b,vb); m.resize(b,vb); verify(c,v,m,"resized"); v.resize(a,!vb); m.resize(a,!vb); verify(c,v,m,"resized back"); v.inplace_not(); m.flip(); verify(c,v,m,"negated"); v.set_all(); m.assign(m.size(),true); verify(c,v,m,"set_all"); v.resize(b,BitVector::uninitialized); B o=m; m.resize(b); for(uint64_t i=o.size();i<b;++i) m[i]=v.is_set(i); verify(c,v,m,"resized uninitialized"); v.reset_all(); m.assign(m.size(),false); verify(c,v,m,"reset_all");
}

void mapper(Case&c){
	Rng&r=c.rng; unsigned n; switch(r.below(6)){ case 0: n=rsize(r); break; case 1: n=r.below(70); break; case 2: n=512*r.in(1,20)+r.below(3)-1; break; default: n=r.below(12000);} 
	B m(n); unsigned kind=r.below(7); switch(kind){ case 0: for(unsigned i=0;i<n;++i) m[i]=true; break; case 1: break; case 2: { unsigned d=r.in(2,600); for(unsigned i=0;i<n;++i) m[i]=r.one_in(d);} break; case 3: for(unsigned i=0;i<n;++i) m[i]=r.below(2); break; case 4: { unsigned lo=r.below(n+1),hi=lo+r.below(n-lo+1); for(unsigned i=lo;i<hi;++i) m[i]=true; } break; case 5: { unsigned i=0; bool b=r.below(2); while(i<n){ unsigned l=1+r.below(r.one_in(3)?700:80); for(unsigned k=0;k<l&&i<n;++k) m[i++]=b; b=!b; } } break; default: for(unsigned i=0;i<n;++i) m[i]=!r.one_in(50); }
	c.note("size",n); if(c.verbose){ std::vector<unsigned> s; for(unsigned i=0;i<n;++i) if(m[i]) s.push_back(i); c.note("set bits",s);} for(unsigned i=0;i<n;++i) if(m[i]) c.hash=mix(c.hash,i);
	BitVector v(n); for(unsigned i=0;i<n;++i) if(m[i]) v.set(i);
	LocalIDMapper l(v); IDMapper g(v); LocalIDMapper l2(v.size(),v.data()); IDMapper g2(v.size(),v.data());
	uint64_t cnt=0; for(unsigned i=0;i<n;++i) cnt+=m[i];
	c.check(l.global_id_count()==n&&g.global_id_count()==n&&l2.global_id_count()==n&&g2.global_id_count()==n,"global_id_count()"); c.check(l.local_id_count()==cnt&&g.local_id_count()==cnt&&l2.local_id_count()==cnt&&g2.local_id_count()==cnt,[&](std::ostream&o){o<<"local_id_count() = "<<l.local_id_count()<<","<<g.local_id_count()<<" expected "<<cnt;});
	uint64_t k=0; uint64_t inv=r.below(2)?invalid_id:~0ull;
	for(unsigned i=0;i<n;++i){ c.check(l.is_global_id_mapped(i)==m[i]&&g.is_global_id_mapped(i)==m[i],[&](std::ostream&o){o<<"is_global_id_mapped("<<i<<")";});
		uint64_t e=m[i]?k:inv; c.check(l.to_local(i,inv)==e&&g.to_local(i,inv)==e,[&](std::ostream&o){o<<"to_local("<<i<<",invalid) = "<<l.to_local(i,inv)<<" expected "<<e;});
		if(m[i]){ c.check(l.to_local(i)==k&&g.to_local(i)==k&&l2.to_local(i)==k,[&](std::ostream&o){o<<"to_local("<<i<<") = "<<l.to_local(i)<<" expected "<<k;}); c.check(g.to_global(k)==i&&g2.to_global(k)==i,[&](std::ostream&o){o<<"to_global("<<k<<") = "<<g.to_global(k)<<" expected "<<i;}); ++k; } }
	for(unsigned i=0;i<5;++i){ uint64_t x=n+r.below(2000); c.check(l.to_local(x,inv)==inv,"to_local of an id out of range"); }
}
}
EXHAUSTIVE_SUITE("C16","all_border_resizes",3200,3200,resize_exh,"all resizes between 20 sizes around the 64 and 512 bit borders, with both values, directly and through a copy");
RANDOM_SUITE("C16","random_histories",2500,40000,history,"random histories over three bit vectors: single bits, resizes, fills, negation, logic, copies, moves, swaps, comparisons");
RANDOM_SUITE("C17","random_bit_sets",1500,20000,mapper,"random sets over up to 12000 ids: empty, full, sparse, dense, intervals, runs; all ids mapped both ways");
RK_MAIN
