// driver TU: Diana, indexes of 64 bits
#include <list>
#include <thread>
#include <string>
#include <memory>
#include <iostream>
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
#include "diana/diana_common.cpp"
template class sse::diana::DianaClient<uint64_t>;
template class sse::diana::DianaServer<uint64_t>;
template uint64_t sse::diana::xor_mask<uint64_t>(const uint64_t&, const uint64_t&);
template uint64_t sse::diana::xor_mask<uint64_t>(const uint64_t&, std::array<uint8_t, 8>&);
template std::array<uint8_t, 16> sse::diana::xor_mask<16>(const std::array<uint8_t, 16>&, const std::array<uint8_t, 16>&);
