#pragma once
#include <sse/crypto/hash.hpp>
#include <sse/crypto/prg.hpp>
namespace sse {
namespace crypto {
template<uint16_t NBYTES>
class ConstrainedRCPrfElement {};
template<uint16_t NBYTES>
class ConstrainedRCPrf
{
public:
    ConstrainedRCPrf(std::array<uint8_t, 32> k, uint64_t lo, uint64_t hi) : key(k), min_(lo), max_(hi) {}
    explicit ConstrainedRCPrf(std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&&) : key{}, min_(1), max_(0) {}
    ConstrainedRCPrf(const ConstrainedRCPrf&) = delete;
    ConstrainedRCPrf(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf&&) noexcept = default;
    uint64_t min_leaf() const { return min_; }
    uint64_t max_leaf() const { return max_; }
    std::array<uint8_t, NBYTES> eval(uint64_t leaf) const
    {
        if (leaf < min_ || leaf > max_) throw std::out_of_range("leaf out of range");
        std::array<uint8_t, NBYTES> r;
        toy::hash(key.data(), 32, reinterpret_cast<const uint8_t*>(&leaf), sizeof leaf, r.data(), NBYTES);
        return r;
    }
    void eval_range(uint64_t lo, uint64_t hi, const std::function<void(uint64_t, std::array<uint8_t, NBYTES>)>& cb) const
    {
        if (lo < min_ || hi > max_ || lo > hi) throw std::out_of_range("invalid range");
        for (uint64_t i = lo; i <= hi; ++i) cb(i, eval(i));
    }
private:
    std::array<uint8_t, 32> key;
    uint64_t min_, max_;
};
template<uint16_t NBYTES>
class RCPrf
{
public:
    RCPrf(Key<32>&& key, uint8_t depth) : k(std::move(key)), d(depth) {}
    std::array<uint8_t, NBYTES> eval(uint64_t leaf) const { return constrain(0, (uint64_t(1) << (d - 1)) - 1).eval(leaf); }
    ConstrainedRCPrf<NBYTES> constrain(uint64_t lo, uint64_t hi) const
    {
        if (lo > hi || hi >= (uint64_t(1) << (d - 1))) throw std::out_of_range("invalid range");
        return ConstrainedRCPrf<NBYTES>(k.v, lo, hi);
    }
private:
    Key<32> k;
    uint8_t d;
};
} // namespace crypto
} // namespace sse
