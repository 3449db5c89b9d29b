// C13 permutations, C14 sorting, C15 inverse vectors, C20 filter / min / max, against naive reference definitions.
#include "rk_harness.h"
#include <routingkit/permutation.h>
#include <routingkit/sort.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/min_max.h>
#include <routingkit/filter.h>
#include <memory>
#include <random>
using namespace RoutingKit; using namespace rk;
typedef std::vector<unsigned> V;
namespace{
bool ref_is_perm(const V&p){ V s=p; std::sort(s.begin(),s.end()); for(unsigned i=0;i<s.size();++i) if(s[i]!=i) return false; return true; }
V rperm(Rng&r,unsigned n){ V p(n); for(unsigned i=0;i<n;++i)p[i]=i; for(unsigned i=n;i>1;--i)std::swap(p[i-1],p[r.below(i)]); return p; }
V nth_perm(unsigned n,uint64_t k){ V e; for(unsigned i=0;i<n;++i)e.push_back(i); V p; for(unsigned i=n;i>0;--i){ unsigned j=k%i; k/=i; p.push_back(e[j]); e.erase(e.begin()+j);} return p; }
std::vector<std::string> strs(const V&v){ std::vector<std::string> s; for(unsigned x:v) s.push_back("element number "+std::to_string(x)+" with a long heap allocated text"); return s; }

void perm_ops(Case&c,const V&p,const V&q,const V&v,const V&el,const V&inv_el){
	unsigned n=p.size(); c.note("p",p); c.note("q",q); c.note("v",v); c.note("elements",el);
	c.check(is_permutation(p),"is_permutation(p) is false for a permutation");
	V e(n),ip(n);
	for(unsigned i=0;i<n;++i) ip[p[i]]=i;
	c.equalv(invert_permutation(p),ip,"invert_permutation"); c.equalv(invert_permutation(invert_permutation(p)),p,"invert twice");
	for(unsigned i=0;i<n;++i) e[i]=p[q[i]];
	c.equalv(chain_permutation_first_left_then_right(p,q),e,"chain_permutation_first_left_then_right");
	V e2(n); for(unsigned i=0;i<n;++i) e2[i]=q[p[i]];
	c.equalv(chain_permutation_first_right_then_left(p,q),e2,"chain_permutation_first_right_then_left");
	V id=identity_permutation(n); for(unsigned i=0;i<n;++i) e2[i]=i; c.equalv(id,e2,"identity_permutation");
	V ap(n),aip(n); for(unsigned i=0;i<n;++i) ap[i]=v[p[i]]; for(unsigned i=0;i<n;++i) aip[p[i]]=v[i];
	c.equalv(apply_permutation(p,v),ap,"apply_permutation"); c.equalv(apply_permutation(p,V(v)),ap,"apply_permutation (rvalue)");
	c.equalv(apply_inverse_permutation(p,v),aip,"apply_inverse_permutation"); c.equalv(apply_inverse_permutation(p,V(v)),aip,"apply_inverse_permutation (rvalue)");
	c.equalv(apply_inverse_permutation(p,apply_permutation(p,v)),v,"apply then apply inverse");
	c.equalv(apply_permutation(p,apply_permutation(q,v)),apply_permutation(chain_permutation_first_left_then_right(q,p),v),"chaining and applying");
	auto sv=strs(v); c.check(apply_permutation(p,sv)==strs(ap),"apply_permutation on strings"); c.check(apply_permutation(p,std::vector<std::string>(sv))==strs(ap),"apply_permutation on strings (rvalue)");
	c.check(apply_inverse_permutation(p,sv)==strs(aip),"apply_inverse_permutation on strings"); c.check(apply_inverse_permutation(p,std::vector<std::string>(sv))==strs(aip),"apply_inverse_permutation on strings (rvalue)");
	V r(el.size()); for(unsigned i=0;i<el.size();++i) r[i]=p[el[i]];
	c.equalv(apply_permutation_to_elements_of(p,el),r,"apply_permutation_to_elements_of"); V w=el; inplace_apply_permutation_to_elements_of(p,w); c.equalv(w,r,"inplace_apply_permutation_to_elements_of");
	V ri(inv_el.size()); for(unsigned i=0;i<ri.size();++i) ri[i]=inv_el[i]==invalid_id?invalid_id:p[inv_el[i]];
	c.equalv(apply_permutation_to_possibly_invalid_elements_of(p,inv_el),ri,"apply_permutation_to_possibly_invalid_elements_of"); w=inv_el; inplace_apply_permutation_to_possibly_invalid_elements_of(p,w); c.equalv(w,ri,"inplace_apply_permutation_to_possibly_invalid_elements_of");
}
void perm_exh(Case&c){ // n=0..4, all pairs of permutations: 1+1+4+36+576 = 618
	static const unsigned cnt[5]={1,1,4,36,576}; static const unsigned f[5]={1,1,2,6,24}; uint64_t x=c.index; unsigned n=0; while(n<4&&x>=cnt[n]){ x-=cnt[n]; ++n; } x%=cnt[n];
	V p=nth_perm(n,x/f[n]),q=nth_perm(n,x%f[n]),v(n),el,ie; for(unsigned i=0;i<n;++i){ v[i]=10+i*i; } for(unsigned i=0;i<n;++i) el.push_back((i*i)%n); for(unsigned i=0;i<n;++i){ el.push_back(q[i]); ie.push_back(q[i]); ie.push_back(invalid_id);} if(n==0) ie.push_back(invalid_id);
	perm_ops(c,p,q,v,el,ie);
}
void perm_rand(Case&c){ Rng&r=c.rng; unsigned n=r.below(r.one_in(2)?8:120); V p=rperm(r,n),q=rperm(r,n),v(n),el,ie; for(auto&x:v)x=r.one_in(4)?r():r.below(n+1); unsigned k=r.below(2*n+1); if(n) for(unsigned i=0;i<k;++i) el.push_back(r.below(n)); k=r.below(2*n+2); for(unsigned i=0;i<k;++i) ie.push_back(n==0||r.one_in(3)?invalid_id:r.below(n));
	perm_ops(c,p,q,v,el,ie); 
	std::mt19937 gen(r()); c.check(ref_is_perm(random_permutation(n,gen)),"random_permutation is no permutation"); }
void isperm_exh(Case&c){ // all vectors of length n over values 0..n+1, n=0..5 : base n+2
	uint64_t x=c.index; V v; unsigned n=0; uint64_t cnt=1; for(;;){ cnt=1; for(unsigned i=0;i<n;++i)cnt*=n+2; if(x<cnt||n==5) break; x-=cnt; ++n; }
	for(unsigned i=0;i<n;++i){ unsigned d=x%(n+2); x/=n+2; v.push_back(d==n+1?invalid_id:d);} c.note("v",v); c.equal(is_permutation(v),ref_is_perm(v),"is_permutation");
}

struct Item{ unsigned key, id; bool operator==(const Item&o)const{return key==o.key&&id==o.id;} bool operator<(const Item&o)const{return key<o.key;} bool operator>(const Item&o)const{return key>o.key;} };
std::ostream&operator<<(std::ostream&o,const Item&i){ return o<<i.key<<"#"<<i.id; }
void sort_ops(Case&c,const V&keys,unsigned key_count){
	unsigned n=keys.size(); c.note("keys",keys); c.note("key_count",key_count); std::vector<Item> v; for(unsigned i=0;i<n;++i) v.push_back({keys[i],i});
	V sp(n); for(unsigned i=0;i<n;++i)sp[i]=i; std::stable_sort(sp.begin(),sp.end(),[&](unsigned a,unsigned b){return keys[a]<keys[b];}); V isp(n); for(unsigned i=0;i<n;++i)isp[sp[i]]=i;
	std::vector<Item> sv; for(unsigned i=0;i<n;++i) sv.push_back(v[sp[i]]);
	auto gk=[](const Item&i){return i.key;}; auto cmp=[](const Item&a,const Item&b){return a.key<b.key;};
	auto sorts=[&](const V&p,const char*w){ c.check(ref_is_perm(p)&&p.size()==n,[&](std::ostream&o){o<<w<<" returned "<<show(p)<<", which is no permutation";}); for(unsigned i=1;i<n;++i) c.check(keys[p[i-1]]<=keys[p[i]],[&](std::ostream&o){o<<w<<" returned "<<show(p)<<", which does not sort";}); };
	auto inv_sorts=[&](const V&q,const char*w){ c.check(ref_is_perm(q)&&q.size()==n,[&](std::ostream&o){o<<w<<" returned "<<show(q)<<", which is no permutation";}); V p(n); for(unsigned i=0;i<n;++i)p[q[i]]=i; for(unsigned i=1;i<n;++i) c.check(keys[p[i-1]]<=keys[p[i]],[&](std::ostream&o){o<<w<<" returned "<<show(q)<<", whose inverse does not sort";}); };
	auto same=[&](const std::vector<Item>&r,const char*w){ c.check(r.size()==n,w); std::vector<char> seen(n,0); for(unsigned i=0;i<n;++i){ c.check(r[i].id<n&&!seen[r[i].id]&&r[i].key==keys[r[i].id],[&](std::ostream&o){o<<w<<" does not return the same elements: "<<show(r);}); seen[r[i].id]=1; if(i) c.check(r[i-1].key<=r[i].key,[&](std::ostream&o){o<<w<<" is not sorted: "<<show(r);}); } };
	c.equalv(compute_stable_sort_permutation_using_key(v,key_count,gk),sp,"compute_stable_sort_permutation_using_key");
	c.equalv(compute_inverse_stable_sort_permutation_using_key(v,key_count,gk),isp,"compute_inverse_stable_sort_permutation_using_key");
	sorts(compute_sort_permutation_using_key(v,key_count,gk),"compute_sort_permutation_using_key");
	inv_sorts(compute_inverse_sort_permutation_using_key(v,key_count,gk),"compute_inverse_sort_permutation_using_key");
	c.equalv(stable_sort_using_key(v,key_count,gk),sv,"stable_sort_using_key"); c.equalv(stable_sort_using_key(std::vector<Item>(v),key_count,gk),sv,"stable_sort_using_key (rvalue)");
	same(sort_using_key(v,key_count,gk),"sort_using_key"); same(sort_using_key(std::vector<Item>(v),key_count,gk),"sort_using_key (rvalue)");
	c.equalv(compute_stable_sort_permutation_using_comparator(v,cmp),sp,"compute_stable_sort_permutation_using_comparator");
	c.equalv(compute_inverse_stable_sort_permutation_using_comparator(v,cmp),isp,"compute_inverse_stable_sort_permutation_using_comparator");
	sorts(compute_sort_permutation_using_comparator(v,cmp),"compute_sort_permutation_using_comparator"); inv_sorts(compute_inverse_sort_permutation_using_comparator(v,cmp),"compute_inverse_sort_permutation_using_comparator");
	c.equalv(stable_sort_using_comparator(v,cmp),sv,"stable_sort_using_comparator"); c.equalv(stable_sort_using_comparator(std::vector<Item>(v),cmp),sv,"stable_sort_using_comparator (rvalue)");
	same(sort_using_comparator(v,cmp),"sort_using_comparator"); same(sort_using_comparator(std::vector<Item>(v),cmp),"sort_using_comparator (rvalue)");
	c.equalv(compute_stable_sort_permutation_using_less(v),sp,"compute_stable_sort_permutation_using_less"); c.equalv(compute_inverse_stable_sort_permutation_using_less(v),isp,"compute_inverse_stable_sort_permutation_using_less");
	sorts(compute_sort_permutation_using_less(v),"compute_sort_permutation_using_less"); inv_sorts(compute_inverse_sort_permutation_using_less(v),"compute_inverse_sort_permutation_using_less");
	c.equalv(stable_sort_using_less(v),sv,"stable_sort_using_less"); c.equalv(stable_sort_using_less(std::vector<Item>(v)),sv,"stable_sort_using_less (rvalue)"); same(sort_using_less(v),"sort_using_less"); same(sort_using_less(std::vector<Item>(v)),"sort_using_less (rvalue)");
	bool s=std::is_sorted(keys.begin(),keys.end());
	c.equal(is_sorted_using_key(v,key_count,gk),s,"is_sorted_using_key"); c.equal(is_sorted_using_comparator(v,cmp),s,"is_sorted_using_comparator"); c.equal(is_sorted_using_less(v),s,"is_sorted_using_less");
	for(unsigned i=0;i<n;++i) c.check(v[i]==(Item{keys[i],i}),"the argument was modified");
	// strings: moved-from elements must not be used
	std::vector<std::string> str; for(unsigned i=0;i<n;++i) str.push_back(std::to_string(keys[i])+" and a long tail that is heap allocated "+std::to_string(i)); auto sk=[](const std::string&x){return (unsigned)std::stoul(x);};
	std::vector<std::string> es; for(unsigned i=0;i<n;++i) es.push_back(str[sp[i]]); c.check(stable_sort_using_key(str,key_count,sk)==es,"stable_sort_using_key on strings"); c.check(stable_sort_using_key(std::vector<std::string>(str),key_count,sk)==es,"stable_sort_using_key on strings (rvalue)");
	auto ns=sort_using_key(std::vector<std::string>(str),key_count,sk); std::sort(ns.begin(),ns.end()); std::sort(es.begin(),es.end()); c.check(ns==es,"sort_using_key on strings (rvalue)");
}
void sort_exh(Case&c){ // lengths 0..5 over keys 0..3, key_count in {4 (bucket), 16*len+16.. (comparison)}
	uint64_t x=c.index; unsigned sel=x%4; x/=4; unsigned n=0; uint64_t cnt=1; while(n<5&&x>=cnt){ x-=cnt; cnt*=4; ++n; } V k; for(unsigned i=0;i<n;++i){ k.push_back(x%4); x/=4; } sort_ops(c,k,sel==0?4:sel==1?16*(n+1)-1:sel==2?16*(n+1):16*(n+1)+40);
}
void sort_rand(Case&c){ Rng&r=c.rng; unsigned n=r.below(r.one_in(3)?300:40); unsigned kc; switch(r.below(6)){ case 0: kc=1; break; case 1: kc=1+r.below(8); break; case 2: kc=16*n+1+r.below(40); break; case 3: kc=16*n+16+r.below(3); break; case 4: kc=n+1; break; default: kc=1+r.below(40*n+5); }
	unsigned range=r.one_in(3)?std::min(kc,1+r.below(5)):kc; V k(n); for(auto&x:k) x=r.one_in(6)?kc-1-r.below(range):r.below(range); if(r.one_in(6)) std::sort(k.begin(),k.end()); if(r.one_in(6)) std::sort(k.rbegin(),k.rend()); sort_ops(c,k,kc); }

void inv_ops(Case&c,const V&v,unsigned ec){
	c.note("v",v); c.note("element_count",ec); V e(ec+1); for(unsigned i=0;i<=ec;++i) e[i]=std::lower_bound(v.begin(),v.end(),i)-v.begin(); e[ec]=v.size();
	V g=invert_vector(v,ec); c.equalv(g,e,"invert_vector"); c.equalv(invert_inverse_vector(g),v,"invert_inverse_vector(invert_vector(v))"); c.equalv(invert_vector(invert_inverse_vector(e),ec),e,"invert_vector(invert_inverse_vector(index))");
}
void inv_exh(Case&c){ uint64_t x=c.index; unsigned ec=x%6; x/=6; unsigned counts[5]; V v; for(unsigned i=0;i<5;++i){ counts[i]=x%4; x/=4; } for(unsigned i=0;i<ec&&i<5;++i) for(unsigned k=0;k<counts[i];++k) v.push_back(i); inv_ops(c,v,ec); }
void inv_rand(Case&c){ Rng&r=c.rng; unsigned ec=r.below(r.one_in(2)?10:200); V v; if(ec){ unsigned n=r.below(r.one_in(2)?10:300); unsigned lo=r.below(ec),hi=lo+r.below(ec-lo); for(unsigned i=0;i<n;++i) v.push_back(lo+r.below(hi-lo+1)); std::sort(v.begin(),v.end()); } inv_ops(c,v,ec); }

void filter_ops(Case&c,const V&v,const std::vector<bool>&f){
	c.note("v",v); c.note("filter",f); unsigned n=v.size(); V k,d; for(unsigned i=0;i<n;++i) (f[i]?k:d).push_back(v[i]);
	BitVector b=make_bit_vector(n,[&](uint64_t i){return (bool)f[i];}); V w=v; inplace_keep_element_of_vector_if(b,w); c.equalv(w,k,"inplace_keep_element_of_vector_if"); w=v; inplace_remove_element_from_vector_if(b,w); c.equalv(w,d,"inplace_remove_element_from_vector_if");
	c.equalv(keep_element_of_vector_if(b,v),k,"keep_element_of_vector_if"); c.equalv(remove_element_from_vector_if(b,v),d,"remove_element_from_vector_if"); c.equalv(keep_element_of_vector_if(b,V(v)),k,"keep_element_of_vector_if"); 
	auto sv=strs(v); c.check(keep_element_of_vector_if(b,sv)==strs(k),"keep_element_of_vector_if on strings"); c.check(remove_element_from_vector_if(b,sv)==strs(d),"remove_element_from_vector_if on strings");
	for(unsigned i=0;i<n;++i) c.check(b.is_set(i)==f[i],"the filter was modified");
}
void minmax_ops(Case&c,const V&v,unsigned def){
	c.note("v",v); c.note("default",def); std::vector<long long> sv; for(unsigned x:v) sv.push_back((long long)x-3);
	if(!v.empty()){ unsigned mi=0,ma=0; for(unsigned i=1;i<v.size();++i){ if(v[i]<v[mi])mi=i; if(v[i]>v[ma])ma=i; }
		c.equal(first_min_element_position_of(v),mi,"first_min_element_position_of"); c.equal(first_max_element_position_of(v),ma,"first_max_element_position_of"); c.equal(min_element_of(v),v[mi],"min_element_of"); c.equal(max_element_of(v),v[ma],"max_element_of"); c.equal(min_element_of(v,def),v[mi],"min_element_of with default"); c.equal(max_element_of(v,def),v[ma],"max_element_of with default");
		c.equal(first_min_element_position_of(sv),mi,"first_min_element_position_of (signed)"); c.equal(first_max_element_position_of(sv),ma,"first_max_element_position_of (signed)"); c.equal(min_element_of(sv),sv[mi],"min_element_of (signed)"); c.equal(max_element_of(sv),sv[ma],"max_element_of (signed)");
		unsigned x=v[0],y=v.back(),a=x; min_to(a,y); c.equal(a,std::min(x,y),"min_to"); a=x; max_to(a,y); c.equal(a,std::max(x,y),"max_to");
	}else{ c.equal(min_element_of(v,def),def,"min_element_of with default on empty"); c.equal(max_element_of(v,def),def,"max_element_of with default on empty"); }
}
void c20_exh(Case&c){ // n=0..5 over values 0..2 and all filters: 6^n
	uint64_t x=c.index; unsigned n=0; uint64_t cnt=1; while(n<5&&x>=cnt){ x-=cnt; cnt*=6; ++n; } V v; std::vector<bool>f; for(unsigned i=0;i<n;++i){ v.push_back((x%6)%3); f.push_back((x%6)/3); x/=6; } filter_ops(c,v,f); minmax_ops(c,v,7);
}
void c20_rand(Case&c){ Rng&r=c.rng; unsigned n; switch(r.below(4)){ case 0: n=r.below(10); break; case 1: n=64*r.in(1,9)+r.below(3)-1; break; default: n=r.below(700);} V v(n); std::vector<bool>f(n); unsigned d=r.in(1,8), range=r.one_in(2)?3:(r.one_in(2)?100:~0u); bool hi=r.below(2); for(unsigned i=0;i<n;++i){ v[i]=hi?~0u-r.below(range):r.below(range); f[i]=r.one_in(d);} if(r.below(2)) f.flip(); filter_ops(c,v,f); minmax_ops(c,v,r()); }
}
EXHAUSTIVE_SUITE("C13","all_permutation_pairs",618,618,perm_exh,"all pairs of permutations of up to 4 elements, all functions");
EXHAUSTIVE_SUITE("C13","all_small_vectors_is_permutation",18000,18000,isperm_exh,"every vector of length up to 5 over the values 0..n and the invalid id");
RANDOM_SUITE("C13","random_permutations",8000,100000,perm_rand,"random permutations, vectors, element vectors with and without invalid ids, numbers and strings");
EXHAUSTIVE_SUITE("C14","all_small_key_vectors",5460,5460,sort_exh,"every key vector of length up to 5 over 4 keys, on both sides of the bucket/comparison switch");
RANDOM_SUITE("C14","random_key_vectors",6000,80000,sort_rand,"random key vectors up to 300 elements, key counts around 16 x elements, ties, sorted, reversed");
EXHAUSTIVE_SUITE("C15","all_small_sorted_vectors",6144,6144,inv_exh,"every sorted vector over up to 5 numbers each occurring 0..3 times");
RANDOM_SUITE("C15","random_sorted_vectors",20000,200000,inv_rand,"random sorted vectors with gaps at both ends");
EXHAUSTIVE_SUITE("C20","all_small_vectors_and_filters",9331,9331,c20_exh,"every vector of length up to 5 over 3 values with every filter");
RANDOM_SUITE("C20","random_vectors_and_filters",6000,60000,c20_rand,"random vectors up to 700 elements, lengths around multiples of 64");
RK_MAIN
