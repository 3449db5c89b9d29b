#include "customizable_contraction_hierarchy.cpp"
#include "graph_util.cpp"
