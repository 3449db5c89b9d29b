#include "graph_util.cpp"
