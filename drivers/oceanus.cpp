// driver TU: cuckoo allocator, builder and table as used by Oceanus
#include <cassert>
#include <cstring>
#include <iostream>
#include <sse/schemes/oceanus/oceanus.hpp>
#include "oceanus/cuckoo.cpp"
template class sse::oceanus::OceanusBuilder<512>;
template class sse::oceanus::Oceanus<512>;
template class sse::oceanus::CuckooBuilder<512, sse::oceanus::key_type, sse::oceanus::data_type<512>, sse::oceanus::OceanusKeySerializer, sse::oceanus::OceanusContentSerializer<512>, sse::oceanus::OceanusCuckooHasher>;
