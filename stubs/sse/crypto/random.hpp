#pragma once
#include <sse/crypto/toy.hpp>
namespace sse {
namespace crypto {
template<class T, size_t N>
std::array<T, N> random_bytes()
{
    static uint64_t c = 0x55;
    std::array<T, N> r;
    ++c;
    toy::hash(nullptr, 0, reinterpret_cast<const uint8_t*>(&c), sizeof c, reinterpret_cast<uint8_t*>(r.data()), N * sizeof(T));
    return r;
}
} // namespace crypto
} // namespace sse
