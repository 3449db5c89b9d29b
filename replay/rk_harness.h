// Common driver of the replay / bounded stand-in harnesses.
// A harness registers suites (property, name, cases, function).  A case is a pure function of (seed, suite, index).
// The executable checks the code of /repo against an executable form of the contract's postcondition.
#ifndef RK_HARNESS_H
#define RK_HARNESS_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <sys/time.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>

namespace rk{

struct Rng{
	uint64_t s;
	explicit Rng(uint64_t s=0):s(s){}
	uint64_t operator()(){ uint64_t z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
	unsigned below(uint64_t n){ return n==0?0:(unsigned)((*this)()%n); }
	unsigned in(unsigned a, unsigned b){ return a+below((uint64_t)b-a+1); }
	bool one_in(unsigned n){ return below(n)==0; }
};

struct Fail{ std::string msg; };

inline uint64_t mix(uint64_t h, uint64_t v){ h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; h ^= h>>33; return h; }

template<class V> std::string show(const V&v, size_t max=60){
	std::ostringstream o; o<<"["; size_t i=0; for(const auto&x:v){ if(i==max){ o<<" ...("<<v.size()<<" elements)"; break; } if(i) o<<","; o<<x; ++i; } o<<"]"; return o.str();
}

struct Case{
	uint64_t index; Rng rng; bool verbose; std::ostringstream text; uint64_t hash; bool nontrivial;
	bool live; // print the description at once (it must survive a crash)
	// number of sub-evaluations (queries, operations) compared with the oracle
	uint64_t checks;
	void said(){ if(live){ fputs(text.str().c_str(),stdout); fflush(stdout); text.str(""); } }
	template<class T> Case& note(const char*name, const std::vector<T>&v){ if(verbose) { text<<"  "<<name<<" = "<<show(v,400)<<"\n"; said(); } for(const auto&x:v) hash=mix(hash,(uint64_t)x); hash=mix(hash,v.size()+77); return *this; }
	Case& note(const char*name, uint64_t v){ if(verbose){ text<<"  "<<name<<" = "<<v<<"\n"; said(); } hash=mix(hash,v); return *this; }
	Case& note(const char*name, const std::string&v){ if(verbose){ text<<"  "<<name<<" = "<<v<<"\n"; said(); } for(char c:v) hash=mix(hash,(unsigned char)c); return *this; }
	void fail(const std::string&m){ throw Fail{m}; }
	void check(bool c, const char*m){ ++checks; if(!c) throw Fail{m}; }
	template<class F> void check(bool c, const F&f){ ++checks; if(!c){ std::ostringstream o; f(o); throw Fail{o.str()}; } }
	template<class A, class B> void equal(const A&a, const B&b, const char*what){ ++checks; if(!(a==b)){ std::ostringstream o; o<<what<<": got "<<a<<", expected "<<b; throw Fail{o.str()}; } }
	template<class A> void equalv(const std::vector<A>&a, const std::vector<A>&b, const char*what){ ++checks; if(!(a==b)){ std::ostringstream o; o<<what<<": got "<<show(a)<<", expected "<<show(b); throw Fail{o.str()}; } }
};

typedef void(*CaseFn)(Case&);
struct Suite{ const char*prop; const char*name; bool exhaustive; uint64_t quick, thorough; CaseFn fn; const char*rule; };
inline std::vector<Suite>&suites(){ static std::vector<Suite> s; return s; }
struct Reg{ Reg(const char*prop, const char*name, bool ex, uint64_t q, uint64_t t, CaseFn f, const char*rule){ suites().push_back(Suite{prop,name,ex,q,t,f,rule}); } };
#define RK_CAT2(a,b) a##b
#define RK_CAT(a,b) RK_CAT2(a,b)
// random suite: number of cases in the quick and the thorough tier
#define RANDOM_SUITE(prop,name,q,t,fn,rule) static rk::Reg RK_CAT(reg_,__COUNTER__)(prop,name,false,q,t,fn,rule)
// exhaustive suite: the index enumerates a finite space; (cases in quick, cases in thorough)
#define EXHAUSTIVE_SUITE(prop,name,q,t,fn,rule) static rk::Reg RK_CAT(reg_,__COUNTER__)(prop,name,true,q,t,fn,rule)

struct Progress{ volatile uint64_t suite, index, tick; };
inline Progress*&progress(){ static Progress*p = nullptr; return p; }
inline unsigned&limit_s(){ static unsigned l = 40; return l; }
inline void on_tick(int){
	static uint64_t last = ~0ull; static unsigned same = 0;
	Progress*p = progress();
	if(p->tick == last){ if(++same >= limit_s()){ const char m[] = "FAIL the case does not finish (CPU time limit per case)\n"; if(write(1,m,sizeof m-1)){} _exit(3); } }
	else{ last = p->tick; same = 0; }
}
inline std::string json_escape(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((unsigned char)c<32||(unsigned char)c>126){ char b[8]; snprintf(b,8,"\\u%04x",(unsigned)(unsigned char)c); r+=b; } else r+=c; } return r; }

inline uint64_t case_seed(uint64_t seed, const Suite&s, uint64_t index){ uint64_t h = mix(seed*0x1234567ull+1, index); for(const char*c=s.name;*c;++c) h = mix(h,*c); return h; }

inline int run_main(int argc, char**argv){
	std::string prop, tier="quick", out, prog, hashes, only; uint64_t seed=1, idx=0, shard=0, shards=1; bool single=false; double budget=1e9;
	for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nx=[&]{ if(++i>=argc){ fprintf(stderr,"missing argument\n"); exit(2);} return std::string(argv[i]); };
		if(a=="--prop") prop=nx(); else if(a=="--tier") tier=nx(); else if(a=="--seed") seed=strtoull(nx().c_str(),0,10);
		else if(a=="--out") out=nx(); else if(a=="--progress") prog=nx(); else if(a=="--hashes") hashes=nx();
		else if(a=="--shard"){ shard=strtoull(nx().c_str(),0,10); shards=strtoull(nx().c_str(),0,10); }
		else if(a=="--budget") budget=atof(nx().c_str());
		else if(a=="--suite") only=nx();
		else if(a=="--case"){ only=nx(); idx=strtoull(nx().c_str(),0,10); single=true; }
		else if(a=="--list"){ for(auto&s:suites()) printf("%s\t%s\t%d\t%llu\t%llu\t%s\n",s.prop,s.name,(int)s.exhaustive,(unsigned long long)s.quick,(unsigned long long)s.thorough,s.rule); return 0; }
		else{ fprintf(stderr,"unknown argument %s\n",a.c_str()); return 2; } }
	static Progress local; progress()=&local;
	if(!prog.empty()){ int fd=open(prog.c_str(),O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,sizeof(Progress))){ perror("progress"); return 2; } void*m=mmap(0,sizeof(Progress),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(m==MAP_FAILED){ perror("mmap"); return 2; } progress()=(Progress*)m; close(fd); }
	struct itimerval tv={{1,0},{1,0}}; signal(SIGPROF,on_tick); setitimer(ITIMER_PROF,&tv,0);
	struct timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0);
	auto elapsed=[&]{ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9; };
	std::unordered_set<uint64_t> seen; uint64_t evals=0, checks=0; std::ostringstream js; bool firsts=true; bool cut=false;
	std::string samples;
	js<<"{\"suites\":[";
	for(size_t si=0; si<suites().size(); ++si){
		const Suite&s=suites()[si];
		if(!prop.empty() && prop!=s.prop) continue;
		if(!only.empty() && only!=s.name) continue;
		uint64_t n = tier=="thorough"?s.thorough:s.quick, done=0, nontriv=0; bool scut=false;
		if(single){ n=idx+1; }
		for(uint64_t i=single?idx:shard; i<n; i+=single?1:shards){
			progress()->suite=si; progress()->index=i; progress()->tick++;
			if(!single && (done&15)==0 && elapsed()>budget){ scut=true; break; }
			bool vb = single || done==0;
			Case c{i,Rng(case_seed(s.exhaustive?1:seed,s,i)),vb,std::ostringstream(),mix(si*977+1,s.name[0]),true,single,0};
			try{ s.fn(c); }
			catch(const Fail&f){ printf("FAIL property=%s suite=%s index=%llu seed=%llu\n%s  => %s\n",s.prop,s.name,(unsigned long long)i,(unsigned long long)seed,c.text.str().c_str(),f.msg.c_str()); fflush(stdout); _exit(1); }
			catch(const std::exception&e){ printf("FAIL property=%s suite=%s index=%llu seed=%llu\n%s  => unexpected exception: %s\n",s.prop,s.name,(unsigned long long)i,(unsigned long long)seed,c.text.str().c_str(),e.what()); fflush(stdout); _exit(1); }
			if(single){ printf("%s  => ok (%llu comparisons)\n",c.text.str().c_str(),(unsigned long long)c.checks); }
			else if(done==0 && shard==0){ std::string t=c.text.str(); if(t.size()>700) t=t.substr(0,700)+"..."; if(!samples.empty()) samples+=","; samples+="\""+json_escape(std::string(s.name)+" case "+std::to_string(i)+":\n"+t)+"\""; }
			++done; checks+=c.checks; if(c.nontrivial){ if(seen.insert(c.hash).second) ++nontriv; }
		}
		evals+=done; cut|=scut;
		if(!firsts) js<<","; firsts=false;
		js<<"{\"suite\":\""<<s.name<<"\",\"exhaustive\":"<<(s.exhaustive?"true":"false")<<",\"cases\":"<<done<<",\"planned\":"<<n<<",\"new_distinct\":"<<nontriv<<",\"cut_short\":"<<(scut?"true":"false")<<",\"rule\":\""<<json_escape(s.rule)<<"\"}";
	}
	js<<"],\"evaluations\":"<<evals<<",\"comparisons\":"<<checks<<",\"distinct\":"<<seen.size()<<",\"cut_short\":"<<(cut?"true":"false")<<",\"samples\":["<<samples<<"],\"seconds\":"<<elapsed()<<"}\n";
	if(!out.empty()){ std::ofstream o(out); o<<js.str(); }
	else if(!single) fputs(js.str().c_str(),stdout);
	if(!hashes.empty()){ FILE*f=fopen(hashes.c_str(),"wb"); if(f){ for(uint64_t h:seen) fwrite(&h,8,1,f); fclose(f);} }
	return 0;
}
} // rk
#define RK_MAIN int main(int argc,char**argv){ return rk::run_main(argc,argv); }
#endif
