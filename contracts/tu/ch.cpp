#include <assert.h>
#include "contraction_hierarchy.cpp"
