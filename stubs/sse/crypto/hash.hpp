#pragma once
#include <sse/crypto/toy.hpp>
namespace sse {
namespace crypto {
class Hash
{
public:
    static void hash(const unsigned char* in, const size_t len, const size_t out_len, unsigned char* out) { toy::hash(nullptr, 0, in, len, out, out_len); }
    static std::string hash(const std::string& in)
    {
        std::string r(64, 0);
        toy::hash(nullptr, 0, reinterpret_cast<const uint8_t*>(in.data()), in.size(), reinterpret_cast<uint8_t*>(&r[0]), 64);
        return r;
    }
};
} // namespace crypto
} // namespace sse
