#pragma once
#include <sse/crypto/hash.hpp>
#include <sse/crypto/key.hpp>
#include <sse/crypto/random.hpp>
namespace sse {
namespace crypto {
template<uint16_t NBYTES>
class Prf
{
public:
    static constexpr uint8_t kKeySize = 32;
    Prf() = default;
    explicit Prf(Key<kKeySize>&& key) : k(std::move(key)) {}
    Prf(Prf&&) noexcept = default;
    Prf& operator=(Prf&&) noexcept = default;
    std::array<uint8_t, NBYTES> prf(const uint8_t* in, const size_t length) const
    {
        std::array<uint8_t, NBYTES> r;
        toy::hash(k.v.data(), kKeySize, in, length, r.data(), NBYTES);
        return r;
    }
    std::array<uint8_t, NBYTES> prf(const std::string& s) const { return prf(reinterpret_cast<const uint8_t*>(s.data()), s.size()); }
    template<size_t L>
    std::array<uint8_t, NBYTES> prf(const std::array<uint8_t, L>& in) const { return prf(in.data(), L); }
    Key<NBYTES> derive_key(const uint8_t* in, const size_t length) const { std::array<uint8_t, NBYTES> r = prf(in, length); return Key<NBYTES>(r.data()); }
    Key<NBYTES> derive_key(const std::string& s) const { return derive_key(reinterpret_cast<const uint8_t*>(s.data()), s.size()); }
    template<size_t L>
    Key<NBYTES> derive_key(const std::array<uint8_t, L>& in) const { return derive_key(in.data(), L); }
private:
    Key<kKeySize> k;
};
} // namespace crypto
} // namespace sse
