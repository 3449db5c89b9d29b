// C10 MinIDQueue, C11 IDSetMinQueue, C12 TimestampFlags: histories of operations against a reference map / set / bool vector.
#include "rk_harness.h"
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/timestamp_flag.h>
#include <map>
#include <set>
#include <new>
using namespace RoutingKit; using namespace rk;

namespace{
struct QModel{
	Case&c; MinIDQueue q; unsigned n; std::map<unsigned,unsigned> m; std::vector<std::string> log;
	QModel(Case&c, unsigned n):c(c),q(n),n(n){}
	void op(const std::string&s){ if(c.verbose) c.text<<"  "<<s<<"\n"; }
	unsigned minkey(){ unsigned k=~0u; for(auto&x:m) k=std::min(k,x.second); return k; }
	void verify(){
		c.equal(q.id_count(),n,"id_count()");
		c.equal(q.size(),(unsigned)m.size(),"size()"); c.equal(q.empty(),m.empty(),"empty()");
		for(unsigned i=0;i<n;++i){ c.check(q.contains_id(i)==(m.count(i)!=0),[&](std::ostream&o){o<<"contains_id("<<i<<") is wrong";}); if(m.count(i)) c.check(q.get_key(i)==m[i],[&](std::ostream&o){o<<"get_key("<<i<<") = "<<q.get_key(i)<<" expected "<<m[i];}); }
		if(!m.empty()){ auto p=q.peek(); c.check(m.count(p.id)&&m[p.id]==p.key&&p.key==minkey(),[&](std::ostream&o){o<<"peek() = ("<<p.id<<","<<p.key<<") is no minimum, minimum key "<<minkey();}); }
	}
	void push(unsigned i,unsigned k){ op("push("+std::to_string(i)+","+std::to_string(k)+")"); q.push({i,k}); m[i]=k; }
	void pop(){ op("pop()"); unsigned k=minkey(); auto p=q.pop(); c.check(m.count(p.id)&&m[p.id]==p.key&&p.key==k,[&](std::ostream&o){o<<"pop() = ("<<p.id<<","<<p.key<<") is no minimum, minimum key "<<k;}); m.erase(p.id); }
	void dec(unsigned i,unsigned k){ op("decrease_key("+std::to_string(i)+","+std::to_string(k)+")"); bool r=q.decrease_key({i,k}); c.equal(r,k<m[i],"decrease_key result"); if(k<m[i])m[i]=k; }
	void inc(unsigned i,unsigned k){ op("increase_key("+std::to_string(i)+","+std::to_string(k)+")"); bool r=q.increase_key({i,k}); c.equal(r,k>m[i],"increase_key result"); if(k>m[i])m[i]=k; }
	void clear(){ op("clear()"); q.clear(); m.clear(); }
	void step(unsigned o,unsigned i,unsigned k){
		switch(o){
			case 0: if(!m.count(i)) push(i,k); else dec(i,k); break;
			case 1: if(!m.count(i)) push(i,k); else inc(i,k); break;
			default: if(!m.empty()) pop(); else clear(); }
	}
};
// exhaustive: all sequences of 5 operations over 3 ids and keys {0,1,2}; one operation = push-or-decrease / push-or-increase (9+9) or pop: 19^5 = 2476099
void minq_exh(Case&c){
	uint64_t x=c.index; QModel m(c,3); c.hash=mix(c.hash,x);
	for(unsigned s=0;s<5;++s){ unsigned d=x%19; x/=19; if(d==18) m.step(2,0,0); else m.step(d/9,(d%9)/3,d%3); m.verify(); }
	while(!m.m.empty()){ m.pop(); m.verify(); }
}
void minq_rand(Case&c){
	Rng&r=c.rng; unsigned n; switch(r.below(4)){ case 0: n=1+r.below(6); break; case 1: n=4+r.below(20); break; case 2: n=21+r.below(70); break; default: n=80+r.below(120); }
	unsigned ks; switch(r.below(5)){ case 0: ks=2; break; case 1: ks=n; break; case 2: ks=4*n; break; default: ks=~0u; }
	c.note("id_count",n); QModel m(c,n); unsigned steps=r.in(10,3*n+20); unsigned popbias=r.in(2,8), clearbias=r.in(20,200);
	auto key=[&]{ if(ks==~0u){ switch(r.below(4)){ case 0: return 0u; case 1: return ~0u; default: return (unsigned)r(); } } return r.below(ks); };
	for(unsigned s=0;s<steps;++s){
		unsigned i=r.below(n);
		c.hash=mix(c.hash,i);
		if(r.one_in(clearbias)) m.clear();
		else if(r.one_in(popbias)){ if(!m.m.empty()) m.pop(); }
		else if(!m.m.count(i)) m.push(i,key());
		else if(r.below(2)) m.dec(i,key()); else m.inc(i,key());
		if(n<30||r.one_in(8)) m.verify();
	}
	// copies and swap are independent values
	if(r.one_in(3)){ MinIDQueue other(1); { using std::swap; swap(other,m.q); } c.check(m.q.empty()&&m.q.id_count()==1,"swap"); m.q=other; m.verify(); }
	if(r.one_in(4)){ m.clear(); m.verify(); for(unsigned i=0;i<n;++i) m.push(i,key()); m.verify(); }
	while(!m.m.empty()){ m.pop(); if(n<30||r.one_in(8)) m.verify(); }
	m.verify();
}

struct SModel{
	Case&c; IDSetMinQueue q; unsigned n; std::set<unsigned> m;
	SModel(Case&c,unsigned n):c(c),q(n),n(n){}
	void op(const std::string&s){ if(c.verbose) c.text<<"  "<<s<<"\n"; }
	void verify(bool full){
		c.equal(q.id_count(),n,"id_count()"); c.equal(q.empty(),m.empty(),"empty()");
		c.equal(q.peek(),m.empty()?invalid_id:*m.begin(),"peek()");
		if(full) for(unsigned i=0;i<n;++i) c.check(q.contains(i)==(m.count(i)!=0),[&](std::ostream&o){o<<"contains("<<i<<") is wrong";});
	}
	void push(unsigned i){ op("push("+std::to_string(i)+")"); q.push(i); m.insert(i); }
	void pop(){ op("pop()"); unsigned e=*m.begin(); unsigned g=q.pop(); c.equal(g,e,"pop()"); m.erase(m.begin()); }
	void clear(){ op("clear()"); q.clear(); m.clear(); }
};
void setq_exh(Case&c){ // n in 1..6: every subset A pushed (in two orders), k pops, then one further push, then drain; index encodes (n, subset, pops, extra, order)
	uint64_t x=c.index; unsigned n=1+x%6; x/=6; unsigned sub=x%64; x/=64; unsigned pops=x%4; x/=4; unsigned extra=x%6; x/=6; bool rev=x%2; 
	sub&=(1u<<n)-1; extra%=n; c.note("id_count",n); c.hash=mix(c.hash,c.index); SModel m(c,n);
	for(unsigned k=0;k<n;++k){ unsigned i=rev?n-1-k:k; if(sub>>i&1){ m.push(i); m.verify(true);} }
	for(unsigned k=0;k<pops&&!m.m.empty();++k){ m.pop(); m.verify(true);} 
	m.push(extra); m.verify(true); m.push(extra); m.verify(true);
	while(!m.m.empty()){ m.pop(); m.verify(true);} 
	for(unsigned k=0;k<n;++k) m.push(n-1-k); m.verify(true); m.clear(); m.verify(true); m.push(extra); m.verify(true);
}
void setq_rand(Case&c){
	Rng&r=c.rng; unsigned n; switch(r.below(5)){ case 0: n=1+r.below(8); break; case 1: n=1u<<r.below(9); break; case 2: n=(1u<<r.in(1,9))+1; break; case 3: n=(1u<<r.in(2,9))-1; break; default: n=1+r.below(400); }
	c.note("id_count",n); SModel m(c,n); unsigned steps=r.in(5,2*n+20), pb=r.in(1,5), cb=r.in(10,300); unsigned range=r.one_in(3)?std::max(1u,n/3):n; unsigned base=r.below(n-range+1);
	for(unsigned s=0;s<steps;++s){
		unsigned i=base+r.below(range); c.hash=mix(c.hash,i);
		if(r.one_in(cb)) m.clear(); else if(!m.m.empty()&&r.below(pb+1)==0) m.pop(); else m.push(i);
		m.verify(n<40||r.one_in(10));
	}
	while(!m.m.empty()){ m.pop(); m.verify(n<40||r.one_in(10)); }
	m.push(n-1); m.verify(true); m.clear(); m.verify(true); m.push(0); m.verify(true);
}

// large id counts, few ids at structured distances (powers of two and neighbours)
void setq_large(Case&c){
	Rng&r=c.rng; unsigned n=1+r.below(r.one_in(5)?200000:6000); c.note("id_count",n); SModel m(c,n); unsigned base=r.below(n);
	for(unsigned s=0;s<60;++s){ unsigned i; switch(r.below(4)){ case 0: i=r.below(n); break; case 1: base=r.below(n); i=base; break; default: i=(base+(1u<<r.below(17))+r.below(3)-1)%n; } c.hash=mix(c.hash,i); if(!m.m.empty()&&r.one_in(3)) m.pop(); else m.push(i); m.verify(false); }
	while(!m.m.empty()){ m.pop(); m.verify(false); }
}
// objects constructed in memory that is not zero
template<class T> struct Dirty{ alignas(T) unsigned char mem[sizeof(T)]; T*p; Dirty(unsigned char x){ memset(mem,x,sizeof(mem)); p=new(mem) T; } ~Dirty(){ p->~T(); } };
void dirty(Case&c){ unsigned char x=(unsigned char)c.index; c.note("memory filled with",x);
	{ Dirty<MinIDQueue> d(x); c.check(d.p->empty()&&d.p->size()==0&&d.p->id_count()==0,"default constructed queue is not empty"); d.p->clear(); MinIDQueue o(3); o.push({1,5}); swap(*d.p,o); c.check(d.p->size()==1&&d.p->peek().id==1&&o.empty(),"swap with a default constructed queue"); }
}
void dirty_set(Case&c){ unsigned char x=(unsigned char)c.index; c.note("memory filled with",x);
	{ Dirty<IDSetMinQueue> d(x); c.check(d.p->empty()&&d.p->id_count()==0&&d.p->peek()==invalid_id,"default constructed set queue is not empty"); d.p->clear(); *d.p=IDSetMinQueue(4); d.p->push(3); c.check(d.p->pop()==3&&d.p->empty(),"assigned set queue"); }
}
void ts_rand(Case&c){
	Rng&r=c.rng; unsigned n=1+r.below(r.one_in(3)?60:5); TimestampFlags f(n); std::vector<char> m(n,0); c.note("id_count",n);
	unsigned ops=r.in(10,300);
	auto verify=[&]{ for(unsigned i=0;i<n;++i) c.check(f.is_set(i)==(m[i]!=0),[&](std::ostream&o){o<<"is_set("<<i<<") = "<<f.is_set(i)<<" expected "<<(int)m[i];}); };
	verify();
	bool jumped=false; uint64_t resets=0;
	for(unsigned s=0;s<ops;++s){
		unsigned i=r.below(n); unsigned o=r.below(10); c.hash=mix(c.hash,o*100+i);
		if(o<4){ if(c.verbose)c.text<<"  set("<<i<<")\n"; f.set(i); m[i]=1; }
		else if(o<7){ if(c.verbose)c.text<<"  reset_one("<<i<<")\n"; f.reset_one(i); m[i]=0; }
		else if(o<9){ if(c.verbose)c.text<<"  reset_all()\n"; f.reset_all(); ++resets; for(auto&x:m)x=0; }
		else if(!jumped || r.one_in(6)){
			// run up to (and around) the 16 bit wrap-around, sometimes a full period, sometimes the 2^17 one
			unsigned target; switch(r.below(6)){ case 0: target=65535; break; case 1: target=65536; break; case 2: target=65534; break; case 3: target=65537; break; case 4: target=131071; break; default: target=r.in(65530,65540); }
			if(resets>=target) target+=65535; unsigned k=target>resets?target-resets:0; if(r.one_in(4)) k=65535; 
			if(c.verbose)c.text<<"  reset_all() x "<<k<<"\n"; for(unsigned j=0;j<k;++j) f.reset_all(); resets+=k; if(k) for(auto&x:m)x=0; jumped=true; }
		verify();
	}
	TimestampFlags g=f; verify(); g.reset_all(); for(unsigned i=0;i<n;++i) c.check(!g.is_set(i),"copy after reset_all"); verify();
}
// exhaustive around the wrap: k resets before, then all sequences of 4 ops over 2 ids {set0,set1,r0,r1,all}; 5^4 * offsets(8)
void ts_exh(Case&c){
	uint64_t x=c.index; static const unsigned offs[8]={0,1,65533,65534,65535,65536,131068,131070}; unsigned k=offs[x%8]; x/=8; unsigned pre=x%3; x/=3; c.hash=mix(c.hash,c.index);
	TimestampFlags f(2); bool m[2]={false,false};
	if(c.verbose)c.text<<"  TimestampFlags(2)"<<(pre?"; set(0)":"")<<(pre==2?"; set(1)":"")<<"; "<<k<<" x reset_all()\n";
	if(pre){ f.set(0); m[0]=true; if(pre==2){ f.set(1); m[1]=true; } }
	for(unsigned i=0;i<k;++i) f.reset_all(); if(k) m[0]=m[1]=false;
	for(unsigned s=0;s<4;++s){ unsigned d=x%5; x/=5; switch(d){ case 0: f.set(0); m[0]=1; break; case 1: f.set(1); m[1]=1; break; case 2: f.reset_one(0); m[0]=0; break; case 3: f.reset_one(1); m[1]=0; break; default: f.reset_all(); m[0]=m[1]=0; }
		static const char*nm[]={"set(0)","set(1)","reset_one(0)","reset_one(1)","reset_all()"}; if(c.verbose)c.text<<"  "<<nm[d]<<"\n";
		for(unsigned i=0;i<2;++i) c.check(f.is_set(i)==m[i],[&](std::ostream&o){o<<"is_set("<<i<<") = "<<f.is_set(i)<<" expected "<<m[i];}); }
}
}
EXHAUSTIVE_SUITE("C10","minq_all_short_histories",260642,2476099,minq_exh,"every history of 5 operations over 3 ids and 3 keys, drained afterwards");
RANDOM_SUITE("C10","minq_random_histories",4000,60000,minq_rand,"random histories over 1..200 ids, keys with many ties or the whole 32 bit range; compared after the operations with a map");
EXHAUSTIVE_SUITE("C11","setq_all_subsets",18432,18432,setq_exh,"ids 1..6: every subset, 0..3 pops, one further push (twice), drained; then all ids, clear, push");
RANDOM_SUITE("C11","setq_random_histories",6000,80000,setq_rand,"random histories over 1..512 ids, in particular powers of two and their neighbours");
RANDOM_SUITE("C11","setq_large",3000,60000,setq_large,"up to 200000 ids, ids at distances around powers of two");
EXHAUSTIVE_SUITE("C11","default_constructed",256,256,dirty_set,"default constructed object in memory filled with each byte value");
EXHAUSTIVE_SUITE("C10","default_constructed",256,256,dirty,"default constructed object in memory filled with each byte value");
EXHAUSTIVE_SUITE("C12","flags_around_wrap",15000,15000,ts_exh,"every history of 4 operations over 2 flags after 0,1,65533..65536,131068,131070 reset_all operations");
RANDOM_SUITE("C12","flags_random_histories",400,6000,ts_rand,"random histories with jumps across the counter wrap-around");
RK_MAIN
