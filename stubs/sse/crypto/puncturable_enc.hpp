#pragma once
#include <sse/crypto/prf.hpp>
#include <set>
namespace sse {
namespace crypto {
namespace punct {
constexpr size_t kTagSize        = 16;
constexpr size_t kMasterKeySize  = 32;
constexpr size_t kKeyShareSize   = 60;
constexpr size_t kCiphertextSize = 56;
using tag_type           = std::array<uint8_t, kTagSize>;
using key_share_type     = std::array<uint8_t, kKeyShareSize>;   // tag, key (32), index (4), kind (1)
using ciphertext_type    = std::array<uint8_t, kCiphertextSize>; // tag, key (32), masked message (8)
using punctured_key_type = std::vector<key_share_type>;
inline tag_type extract_tag(const ciphertext_type& c) { tag_type t; std::memcpy(t.data(), c.data(), kTagSize); return t; }
inline tag_type extract_tag(const key_share_type& c) { tag_type t; std::memcpy(t.data(), c.data(), kTagSize); return t; }
} // namespace punct
class PuncturableEncryption
{
public:
    explicit PuncturableEncryption(Key<punct::kMasterKeySize>&& key) : k(std::move(key)) {}
    punct::ciphertext_type encrypt(const uint64_t m, const punct::tag_type& tag) const
    {
        punct::ciphertext_type c{};
        std::memcpy(c.data(), tag.data(), 16);
        std::memcpy(c.data() + 16, k.v.data(), 32);
        uint64_t p;
        toy::hash(k.v.data(), 32, tag.data(), 16, reinterpret_cast<uint8_t*>(&p), 8);
        p ^= m;
        std::memcpy(c.data() + 48, &p, 8);
        return c;
    }
    punct::key_share_type initial_keyshare(const size_t d) const { return share(uint32_t(d), punct::tag_type{}, 0); }
    punct::key_share_type inc_puncture(const size_t d, const punct::tag_type& tag) const { return share(uint32_t(d), tag, 1); }
private:
    punct::key_share_type share(uint32_t d, const punct::tag_type& t, uint8_t kind) const
    {
        punct::key_share_type s{};
        std::memcpy(s.data(), t.data(), 16);
        std::memcpy(s.data() + 16, k.v.data(), 32);
        std::memcpy(s.data() + 48, &d, 4);
        s[52] = kind;
        return s;
    }
    Key<punct::kMasterKeySize> k;
};
// the shares fit together when the first is the initial one for d punctures
// and the others are the punctures 1, ..., d, each once
class PuncturableDecryption
{
public:
    explicit PuncturableDecryption(const punct::punctured_key_type& ks) : shares(ks) {}
    bool decrypt(const punct::ciphertext_type& c, uint64_t& m) const
    {
        std::set<uint32_t> idx;
        if (shares.empty() || shares[0][52] != 0) return false;
        for (size_t i = 0; i < shares.size(); ++i) {
            if (std::memcmp(shares[i].data() + 16, c.data() + 16, 32)) return false;
            uint32_t d;
            std::memcpy(&d, shares[i].data() + 48, 4);
            if (i == 0) { if (d != shares.size() - 1) { m = 0xbad; return true; } continue; }
            if (shares[i][52] != 1 || d < 1 || d > shares.size() - 1 || !idx.insert(d).second) { m = 0xbad; return true; } // garbage
            if (!std::memcmp(shares[i].data(), c.data(), 16)) return false;
        }
        uint64_t p;
        toy::hash(c.data() + 16, 32, c.data(), 16, reinterpret_cast<uint8_t*>(&p), 8);
        uint64_t q;
        std::memcpy(&q, c.data() + 48, 8);
        m = p ^ q;
        return true;
    }
private:
    punct::punctured_key_type shares;
};
} // namespace crypto
} // namespace sse
