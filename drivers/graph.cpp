// driver TU: the real graph and allocator sources
#include "tethys/tethys_graph.cpp"
#include "tethys/tethys_allocator.cpp"
