#include "bit_vector.cpp"
#include <routingkit/filter.h>
namespace RoutingKit{
template void inplace_keep_element_of_vector_if(const BitVector&, std::vector<unsigned>&);
template void inplace_remove_element_from_vector_if(const BitVector&, std::vector<unsigned>&);
template std::vector<unsigned> keep_element_of_vector_if(const BitVector&, std::vector<unsigned>);
template std::vector<unsigned> remove_element_from_vector_if(const BitVector&, std::vector<unsigned>);
}
namespace RoutingKit{
namespace vb{
// an arbitrary pure predicate
struct Pred{ bool operator()(uint64_t x)const; };
}
template BitVector make_bit_vector(uint64_t, const vb::Pred&);
}
