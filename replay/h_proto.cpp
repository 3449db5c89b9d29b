// C19 protobuf primitives, C23 tag maps.
#include "rk_harness.h"
#include <protobuf.h>
#include <routingkit/tag_map.h>
#include <memory>
#include <map>
using namespace RoutingKit; using namespace rk;
typedef std::vector<uint8_t> Bytes;
namespace{
Bytes enc(uint64_t x){ Bytes b; while(x>=128){ b.push_back(x|128); x>>=7; } b.push_back(x); return b; }
// reference decoder in 128 bit: result 0 ok, 1 unterminated, 2 does not fit
int ref_decode(const Bytes&b,size_t pos,size_t&len,uint64_t&val){ unsigned __int128 v=0; unsigned sh=0; size_t i=pos; bool big=false; for(;;){ if(i==b.size()) return 1; uint8_t x=b[i++]; unsigned __int128 p=x&127; if(sh<120) v|=p<<sh; else if(p) big=true; if(sh<120 && sh+7>64 && (p<<sh)>>64) big=true; sh+=7; if(!(x&128)) break; } len=i-pos; if(big||(v>>64)) return 2; val=(uint64_t)v; return 0; }
// the buffer is an exact heap block, so that any read past the end is caught by the address sanitizer
struct Buf{ std::unique_ptr<char[]> p; size_t n; Buf(const Bytes&b):p(new char[b.size()?b.size():1]),n(b.size()){ for(size_t i=0;i<n;++i)p[i]=b[i]; if(n==0){} } };
void decode_case(Case&c,const Bytes&b){
	c.note("bytes",b); char*blk=(char*)malloc(b.size()); struct Fr{char*p; ~Fr(){free(p);}}fr{blk}; memcpy(blk,b.data(),b.size());
	const char*begin=blk,*end=blk+b.size(); size_t len=0; uint64_t val=0; int e=ref_decode(b,0,len,val);
	uint64_t got=0; bool thrown=false; try{ got=decode_varint_as_uint64_and_advance_first_parameter(begin,end);}catch(const std::exception&){ thrown=true; }
	c.check(begin>=blk&&begin<=end,"the position left the buffer");
	if(e==0){
		// encodings with superfluous zero bytes beyond 10 bytes may be rejected
		bool canonical_len=len<=10; if(thrown){ c.check(!canonical_len,[&](std::ostream&o){o<<"a valid encoding of "<<val<<" was rejected";}); return; }
		c.check(got==val,[&](std::ostream&o){o<<"decoded "<<got<<" expected "<<val;}); c.check(begin==blk+len,[&](std::ostream&o){o<<"advanced by "<<(begin-blk)<<" expected "<<len;});
	}else c.check(thrown,[&](std::ostream&o){o<<"decoded "<<got<<" from "<<(e==1?"an unterminated varint":"a varint that does not fit into 64 bit");});
}
uint64_t rval(Rng&r){ switch(r.below(6)){ case 0: return r.below(300); case 1: { unsigned s=r.below(64); return (1ull<<s)+r.below(3)-1; } case 2: return ~0ull-r.below(3); case 3: return r()>>r.below(64); case 4: return (1ull<<(7*r.below(10)))-r.below(2); default: return r(); } }
void rt(Case&c){ Rng&r=c.rng; uint64_t x=rval(r); Bytes b=enc(x); unsigned tail=r.below(3); for(unsigned i=0;i<tail;++i) b.push_back(r()); decode_case(c,b); 
	int64_t s=(int64_t)x; uint64_t z=((uint64_t)s<<1)^(uint64_t)(s>>63); c.check(zigzag_convert_uint64_to_int64(z)==s,[&](std::ostream&o){o<<"zig-zag of "<<s<<" gives "<<zigzag_convert_uint64_to_int64(z);}); }
void raw(Case&c){ Rng&r=c.rng; Bytes b; unsigned n=r.below(14); unsigned bias=r.in(1,20); for(unsigned i=0;i<n;++i){ uint8_t x=r(); if(r.below(bias)) x|=128; else x&=127; if(r.one_in(6)) x=r.below(2)?0x80:r.below(3); b.push_back(x);} decode_case(c,b); }
void exh(Case&c){ // all byte strings of length 0..2 completely, then 10-byte strings with all values of the last byte and of the continuation bits
	uint64_t x=c.index; Bytes b; if(x==0){} else if(x<=256) b={(uint8_t)(x-1)}; else if(x<=256+65536){ x-=257; b={(uint8_t)(x&255),(uint8_t)(x>>8)}; } else { x-=65793; unsigned len=8+x%4; x/=4; unsigned last=x%256; x/=256; uint8_t fill=(x%3==0)?0xff:(x%3==1)?0x80:0x81; b.assign(len,fill); b.back()=last; } decode_case(c,b); }
// messages
struct Field{ unsigned kind; uint64_t id,val; double d; std::string s; bool operator==(const Field&o)const{return kind==o.kind&&id==o.id&&val==o.val&&memcmp(&d,&o.d,8)==0&&s==o.s;} };
void msg(Case&c){
	Rng&r=c.rng; Bytes b; std::vector<Field> f; unsigned n=r.below(7); bool valid=true;
	auto put=[&](const Bytes&x){ b.insert(b.end(),x.begin(),x.end()); };
	for(unsigned i=0;i<n;++i){ uint64_t id=r.below(2)?r.below(20):(r()>>(3+r.below(58))); unsigned k=r.below(4); static const unsigned wt[]={0,1,5,2}; put(enc(id<<3|wt[k])); Field g{k,id,0,0,""};
		if(k==0){ g.val=rval(r); put(enc(g.val)); } else if(k==1){ double d=(double)(int64_t)r()/1024; g.d=d; Bytes x(8); memcpy(x.data(),&d,8); put(x);} else if(k==2){ float d=(float)(int)r()/64; g.d=d; Bytes x(4); memcpy(x.data(),&d,4); put(x);} else { unsigned l=r.below(4)?r.below(12):r.below(300); for(unsigned j=0;j<l;++j) g.s.push_back((char)r()); put(enc(l)); for(char ch:g.s) b.push_back(ch);} f.push_back(g); }
	unsigned mode=r.below(3); if(mode==1&&!b.empty()){ b.resize(r.below(b.size())); valid=false; } else if(mode==2&&!b.empty()){ unsigned k=r.in(1,3); for(unsigned i=0;i<k;++i) b[r.below(b.size())]=r.one_in(2)?0xff:r(); valid=false; }
	c.note("bytes",b); char*blk=(char*)malloc(b.size()); struct Fr{char*p; ~Fr(){free(p);}}fr{blk}; memcpy(blk,b.data(),b.size());
	std::vector<Field> got; bool thrown=false;
	try{ decode_protobuf_message_with_callbacks((const char*)blk,(const char*)blk+b.size(),[&](uint64_t id,uint64_t v){ got.push_back({0,id,v,0,""}); },[&](uint64_t id,double d){ got.push_back({1,id,0,d,""}); },[&](uint64_t id,const char*x,const char*y){ if(!(x>=blk&&x<=y&&y<=blk+b.size())) throw Fail{"string callback outside the buffer"}; got.push_back({3,id,0,0,std::string(x,y)}); }); }
	catch(const Fail&){ throw; } catch(const std::exception&){ thrown=true; }
	// reference parse
	std::vector<Field> exp; bool bad=false; size_t pos=0; while(pos!=b.size()){ size_t l; uint64_t h; if(ref_decode(b,pos,l,h)||l>10){ bad=true; break; } pos+=l; uint64_t id=h>>3; unsigned w=h&7; 
		if(w==0){ uint64_t v; if(ref_decode(b,pos,l,v)||l>10){ bad=true; break; } pos+=l; exp.push_back({0,id,v,0,""}); } else if(w==1){ if(b.size()-pos<8){ bad=true; break; } double d; memcpy(&d,&b[pos],8); pos+=8; exp.push_back({1,id,0,d,""}); } else if(w==5){ if(b.size()-pos<4){ bad=true; break; } float d; memcpy(&d,&b[pos],4); pos+=4; exp.push_back({1,id,0,d,""}); } else if(w==2){ uint64_t L; if(ref_decode(b,pos,l,L)||l>10){ bad=true; break; } pos+=l; if(b.size()-pos<L){ bad=true; break; } exp.push_back({3,id,0,0,std::string((const char*)b.data()+pos,(const char*)b.data()+pos+L)}); pos+=L; } else { bad=true; break; } }
	c.check(thrown==bad,[&](std::ostream&o){o<<(thrown?"an error was raised for a valid message":"no error was raised for a corrupt message");});
	bool nan=false; for(auto&e:exp) if(e.d!=e.d) nan=true; if(!nan){ c.check(got.size()==exp.size(),[&](std::ostream&o){o<<got.size()<<" fields delivered, expected "<<exp.size();}); for(size_t i=0;i<got.size();++i) c.check(got[i]==exp[i],[&](std::ostream&o){o<<"field "<<i<<" is wrong: id "<<got[i].id<<" value "<<got[i].val<<" expected id "<<exp[i].id<<" value "<<exp[i].val;}); }
	(void)valid;
}

std::string rkey(Rng&r,unsigned style){ static const char al[]="eEtTaAoOiInNsShHrRbcxyz:_09\xc3\xbc"; std::string s; unsigned l; if(style==0) l=r.below(3); else if(style==1) l=r.below(8); else l=r.below(20); for(unsigned i=0;i<l;++i){ char ch=style==2&&r.one_in(5)?(char)(1+r.below(255)):al[r.below(sizeof(al)-1)]; s.push_back(ch);} return s; }
void tag(Case&c){
	Rng&r=c.rng; TagMap t; unsigned rounds=r.in(1,4); unsigned style=r.below(3); bool big=r.one_in(100);
	std::vector<std::unique_ptr<std::vector<std::string>>> keep; std::map<std::string,std::vector<const char*>> m; std::vector<std::string> probes{""};
	for(unsigned k=0;k<rounds;++k){
		unsigned n=big?66000+r.below(200):(r.one_in(6)?0:r.below(r.one_in(3)?200:12)); keep.emplace_back(new std::vector<std::string>); auto&ks=*keep.back(); keep.emplace_back(new std::vector<std::string>); auto&vs=*keep.back(); ks.reserve(n); vs.reserve(n);
		for(unsigned i=0;i<n;++i){ if(big) ks.push_back("key"+std::to_string(i)); else if(i&&r.one_in(5)) ks.push_back(ks[r.below(i)]); else ks.push_back(rkey(r,style)); vs.push_back("value"+std::to_string(i)); }
		m.clear(); for(unsigned i=0;i<n;++i) m[ks[i]].push_back(vs[i].c_str());
		if(c.verbose&&n<300){ c.text<<"  build:"; for(unsigned i=0;i<n;++i) c.text<<" {"<<ks[i]<<"="<<vs[i]<<"}"; c.text<<"\n"; } else if(c.verbose) c.text<<"  build with "<<n<<" keys key0, key1, ...\n"; for(auto&s:ks) for(char ch:s) c.hash=mix(c.hash,ch);
		t.build(n,[&](unsigned i){return ks[i].c_str();},[&](unsigned i){return vs[i].c_str();});
		c.equal(t.size(),n,"size()"); c.equal(t.empty(),n==0,"empty()"); unsigned cnt=0; for(auto&e:t){ ++cnt; auto it=m.find(e.key); c.check(it!=m.end()&&std::find(it->second.begin(),it->second.end(),e.value)!=it->second.end(),"iteration delivers a pair that was not stored"); } c.equal(cnt,n,"number of iterated pairs");
		auto probe=[&](const std::string&s){ const char*g=t[s.c_str()]; auto it=m.find(s.c_str()); if(it==m.end()) c.check(g==nullptr,[&](std::ostream&o){o<<"lookup of the absent key '"<<s<<"' gives '"<<g<<"'";}); else c.check(g!=nullptr&&std::find(it->second.begin(),it->second.end(),g)!=it->second.end(),[&](std::ostream&o){o<<"lookup of the stored key '"<<s<<"' gives "<<(g?g:"nothing");}); };
		if(!big) for(auto&s:ks) probe(s); else for(unsigned i=0;i<400;++i) probe(ks[i<50?i:i<100?n-1-(i-50):i<200?65536-100+(i-100)*2:r.below(n)]); for(auto&s:probes) probe(s); for(unsigned i=0;i<60;++i) probe(rkey(r,style)); if(!big) for(auto&s:ks) probes.push_back(s); if(n) for(unsigned i=0;i<20;++i){ std::string s=ks[r.below(n)]; if(!s.empty()){ s[r.below(s.size())]^=1; if(s.find('\0')==std::string::npos) probe(s);} }
		big=false;
	}
	t.clear(); for(auto&s:probes) c.check(t[s.c_str()]==nullptr,"lookup after clear()");
}
}
EXHAUSTIVE_SUITE("C19","all_short_byte_strings",68865,68865,exh,"every byte string of length up to 2; strings of 8..11 bytes of fixed continuation bytes with every last byte");
RANDOM_SUITE("C19","encoded_values",60000,1000000,rt,"standard encodings of values at all powers of two and 7-bit borders, with trailing bytes, and zig-zag");
RANDOM_SUITE("C19","random_bytes",60000,1000000,raw,"arbitrary byte strings up to 13 bytes, mostly continuation bytes");
RANDOM_SUITE("C19","messages",30000,400000,msg,"messages of all wire types, intact, truncated or corrupted");
RANDOM_SUITE("C23","tag_maps",3000,40000,tag,"builds and rebuilds with random, colliding, repeated and empty keys, sometimes more than 65536; lookups of stored, earlier stored, similar and random keys");
RK_MAIN
