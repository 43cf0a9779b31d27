#pragma once
#include <sse/crypto/key.hpp>
namespace sse {
namespace crypto {
class Prg
{
public:
    static constexpr uint8_t kKeySize = 32;
    explicit Prg(Key<kKeySize>&& key) : k(std::move(key)) {}
    void derive(const size_t offset, const size_t len, unsigned char* out) const
    {
        for (size_t i = 0; i < len; ++i) {
            uint64_t p = offset + i;
            toy::hash(k.v.data(), kKeySize, reinterpret_cast<const uint8_t*>(&p), sizeof p, out + i, 1);
        }
    }
private:
    Key<kKeySize> k;
};
} // namespace crypto
} // namespace sse
