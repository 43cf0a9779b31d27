// stand-in for libsodium (not installed here)
#pragma once
#include <sse/crypto/toy.hpp>
#define crypto_stream_chacha20_KEYBYTES 32U
#define crypto_stream_chacha20_NONCEBYTES 8U
inline int crypto_stream_chacha20(unsigned char* c, unsigned long long clen, const unsigned char* n, const unsigned char* k)
{
    sse::crypto::toy::hash(k, 32, n, 8, c, clen);
    return 0;
}
inline int crypto_stream_chacha20_xor(unsigned char* c, const unsigned char* m, unsigned long long mlen, const unsigned char* n, const unsigned char* k)
{
    std::vector<unsigned char> s(mlen);
    crypto_stream_chacha20(s.data(), mlen, n, k);
    for (unsigned long long i = 0; i < mlen; ++i) c[i] = m[i] ^ s[i];
    return 0;
}
