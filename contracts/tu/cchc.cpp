#define NDEBUG
#include "customizable_contraction_hierarchy.cpp"
#include "graph_util.cpp"
#include "bit_vector.cpp"
#include "bit_select.cpp"
#include "id_mapper.cpp"
