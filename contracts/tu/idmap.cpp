#include "bit_vector.cpp"
#include "bit_select.cpp"
#include "id_mapper.cpp"
namespace RoutingKit{
template LocalIDMapper::LocalIDMapper(const BitVector&);
template IDMapper::IDMapper(const BitVector&);
}
