// driver TU: utility templates, instantiated
#include <sse/schemes/utils/utils.hpp>
#include <sse/schemes/utils/concat_iterator.hpp>
#include <deque>
#include <list>
#include <vector>

template uint64_t sse::utility::xor_mask<8>(uint64_t, const std::array<uint8_t, 8>&);
template uint64_t sse::utility::xor_mask<16>(uint64_t, const std::array<uint8_t, 16>&);
template uint64_t sse::utility::xor_mask<32>(uint64_t, const std::array<uint8_t, 32>&);
template class sse::utility::concat_iterator<std::vector<uint64_t>>;
template class sse::utility::concat_const_iterator<std::vector<uint64_t>>;
template class sse::utility::concat_iterator<std::list<uint64_t>>;
template class sse::utility::concat_const_iterator<std::list<uint64_t>>;
