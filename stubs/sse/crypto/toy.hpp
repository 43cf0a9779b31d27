// Toy stand-in for opensse crypto-tk (not installed here): deterministic,
// injective enough for tests, not secure.  Only used by harnesses; the
// verifier sees the declarations and never looks at these bodies.
#pragma once
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace sse {
namespace crypto {
namespace toy {
inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline void hash(const uint8_t* k, size_t kl, const uint8_t* in, size_t len, uint8_t* out, size_t olen)
{
    uint64_t a = 0x1234567, b = 0x89abcdef;
    for (size_t i = 0; i < kl; ++i) { a = mix(a ^ k[i]); b = mix(b + k[i] + i); }
    a = mix(a ^ kl);
    for (size_t i = 0; i < len; ++i) { a = mix(a ^ in[i]); b = mix(b + in[i] * 7919 + i); }
    a = mix(a ^ len); b = mix(b ^ a);
    for (size_t i = 0; i < olen; ++i) out[i] = uint8_t(mix(i % 2 ? a + i : b ^ (i << 8)) >> 24);
}
} // namespace toy
} // namespace crypto
} // namespace sse
