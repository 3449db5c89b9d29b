#include "customizable_contraction_hierarchy.cpp"
