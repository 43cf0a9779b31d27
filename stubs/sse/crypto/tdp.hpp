#pragma once
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
// permutation: addition of an odd constant on the first 8 bytes, modulo 2^64
class Tdp
{
public:
    static constexpr size_t kMessageSize = 256;
    static constexpr size_t kRSAPrfSize  = 272;
    using msg = std::array<uint8_t, kMessageSize>;
protected:
    static msg add(const msg& m, uint64_t c)
    {
        msg r = m;
        uint64_t x;
        std::memcpy(&x, r.data(), 8);
        x += c;
        std::memcpy(r.data(), &x, 8);
        return r;
    }
    static constexpr uint64_t C = 0x9e3779b97f4a7c15ULL;
};
class TdpInverse : public Tdp
{
public:
    TdpInverse() = default;
    explicit TdpInverse(const std::string&) {}
    std::string public_key() const { return "pk"; }
    std::string private_key() const { return "sk"; }
    msg generate_array(const Prf<kRSAPrfSize>& p, const std::string& seed) const
    {
        auto a = p.prf(seed);
        msg m;
        std::memcpy(m.data(), a.data(), kMessageSize);
        return m;
    }
    msg invert(const msg& m) const { return add(m, -C); }
    msg invert_mult(const msg& m, uint32_t n) const { return add(m, -C * n); }
};
class TdpMultPool : public Tdp
{
public:
    TdpMultPool(const std::string&, const uint8_t max_order) : mo(max_order) {}
    std::string public_key() const { return "pk"; }
    msg eval(const msg& m) const { return add(m, C); }
    msg eval(const msg& m, const uint8_t order) const
    {
        if (order == 0 || order > mo) throw std::invalid_argument("invalid order");
        return add(m, C * order);
    }
private:
    uint8_t mo;
};
} // namespace crypto
} // namespace sse
