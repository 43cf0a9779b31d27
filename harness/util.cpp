// Concrete runs of index masking (P20) and concatenated iteration (P21).
#include "common.hpp"
#include <sse/schemes/utils/utils.hpp>
#include <sse/schemes/utils/concat_iterator.hpp>
#include <sse/schemes/diana/types.hpp>
#include <deque>
#include <list>
using namespace h;
using namespace sse::utility;

template<size_t N> void mask(uint64_t x, std::array<uint8_t, N> m)
{
    cases()++;
    std::ostringstream o;
    o << "N=" << N << " x=" << x << " mask:";
    for (auto b : m) o << " " << (int)b;
    at(o.str());
    uint64_t y = xor_mask(x, m);
    EXPECT(xor_mask(y, m) == x, "involution", "masking twice gives the index back");
    uint64_t z = xor_mask(0, m), ref = 0;
    for (int i = 0; i < 8; i++) ref = (ref << 8) | m[i];
    EXPECT(z == ref, "injective", "masking zero exposes the first eight mask bytes");
    EXPECT(y == (x ^ z), "xor", "masking is the xor with the mask of zero");
    for (size_t i = 8; i < N; i++) { auto m2 = m; m2[i] ^= 1 + rnd(255); EXPECT(xor_mask(x, m2) == y, "prefix", "later mask bytes do not matter"); }
    auto m3 = m; m3[rnd(8)] ^= 1 + rnd(255);
    EXPECT(xor_mask(x, m3) != y, "whole", "each of the first eight bytes matters");
}
// the masking functions of Diana
template<class T> bool eq(const T& a, const T& b) { return !std::memcmp(&a, &b, sizeof(T)); }
template<class T, class M> void dmask(const T& x, M m)
{
    cases()++;
    at("diana masking, " + str(sizeof(T)) + " bytes, mask of " + str(sizeof(M)));
    T y = sse::diana::xor_mask(x, m);
    EXPECT(eq<T>(sse::diana::xor_mask(y, m), x), "involution", "masking twice gives the index back");
    T z{};
    z = sse::diana::xor_mask(z, m);
    EXPECT(!std::memcmp(&z, &m, sizeof(T)), "diana-zero", "masking zero exposes the mask");
    for (size_t i = 0; i < sizeof(T); i++) EXPECT(reinterpret_cast<uint8_t*>(&y)[i] == (reinterpret_cast<const uint8_t*>(&x)[i] ^ reinterpret_cast<uint8_t*>(&m)[i]), "diana-xor", "masking is the xor of all bytes");
}
template<class T> T rbytes() { T t; for (size_t i = 0; i < sizeof(T); i++) reinterpret_cast<uint8_t*>(&t)[i] = uint8_t(rnd(256)); return t; }
template<class C> void cat(const C& a0, const C& b0)
{
    cases()++;
    at("sizes " + str(a0.size()) + " and " + str(b0.size()));
    C a = a0, b = b0;
    std::vector<uint64_t> want(a.begin(), a.end()), got;
    want.insert(want.end(), b.begin(), b.end());
    {
        concat_iterator<C> it(a, b), end(a, b, b.end(), true);
        while (it != end && got.size() <= want.size()) { got.push_back(*it); if (got.size() & 1) ++it; else it++; }
        EXPECT(got == want, "order", "writable iteration yields both sequences in order");
        EXPECT((it == end) && !(it != end), "end", "iteration ends at the end");
    }
    {
        const C &ca = a, &cb = b;
        got.clear();
        concat_const_iterator<C> it(ca, cb), end(ca, cb, cb.end(), true);
        while (it != end && got.size() <= want.size()) { got.push_back(*it); if (got.size() & 1) ++it; else it++; }
        EXPECT(got == want, "order", "read-only iteration yields both sequences in order");
        EXPECT((it == end) && !(it != end), "end", "iteration ends at the end");
    }
    {
        concat_iterator<C> it(a, b), end(a, b, b.end(), true);
        size_t k = 0;
        for (; it != end && k <= want.size(); ++it, k++) {
            auto old = it;
            auto ret = old++;
            EXPECT(ret == it, "postfix", "postfix increment returns the old position");
            *it = *it + 1000;
        }
        size_t i = 0;
        for (auto x : a) EXPECT(x == want[i++] + 1000, "write", "writes reach the first sequence");
        for (auto x : b) EXPECT(x == want[i++] + 1000, "write", "writes reach the second sequence");
    }
}
int main(int, char** argv)
{
    std::string pid = argv[1];
    rng().seed(strtoull(argv[2], 0, 10));
    bool th = !strcmp(argv[3], "thorough");
    if (pid == "P20") {
        for (int i = 0; i < (th ? 2000000 : 100000) && !nfail(); i++) {
            std::array<uint8_t, 8> a; std::array<uint8_t, 16> b; std::array<uint8_t, 32> c;
            for (auto& x : a) x = rnd(256);
            for (auto& x : b) x = rnd(256);
            for (auto& x : c) x = rnd(256);
            if (i % 10 == 0) {
                dmask(rng()(), a); dmask(uint64_t(rng()()), uint64_t(rng()())); dmask(rbytes<uint32_t>(), rbytes<std::array<uint8_t, 4>>());
                dmask(b, rbytes<decltype(b)>()); dmask(rbytes<std::array<uint8_t, 41>>(), rbytes<std::array<uint8_t, 41>>());
            }
            mask(rng()(), a); mask(rng()(), b); mask(rng()(), c);
        }
    } else {
        for (size_t n = 0; n < 7; n++) for (size_t m = 0; m < 7; m++) {
            std::vector<uint64_t> v, w;
            for (size_t i = 0; i < n; i++) v.push_back(rnd(100));
            for (size_t i = 0; i < m; i++) w.push_back(rnd(100));
            announce();
            cat(v, w);
            cat(std::list<uint64_t>(v.begin(), v.end()), std::list<uint64_t>(w.begin(), w.end()));
            cat(std::deque<uint64_t>(v.begin(), v.end()), std::deque<uint64_t>(w.begin(), w.end()));
        }
    }
    return done();
}
