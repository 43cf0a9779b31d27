#pragma once
#include <sse/crypto/toy.hpp>
namespace sse {
namespace crypto {
template<size_t N>
class Key
{
public:
    Key() { static uint64_t c = 0; ++c; toy::hash(nullptr, 0, reinterpret_cast<const uint8_t*>(&c), sizeof c, v.data(), N); }
    explicit Key(uint8_t* const k) { std::memcpy(v.data(), k, N); std::memset(k, 0, N); } // the source is erased
    Key(const Key&) = delete;
    Key(Key&& k) noexcept : v(k.v) {}
    Key& operator=(Key&& k) noexcept { v = k.v; return *this; }
    std::array<uint8_t, N> v;
};
} // namespace crypto
} // namespace sse
