#include <assert.h>
#include "strongly_connected_component.cpp"
