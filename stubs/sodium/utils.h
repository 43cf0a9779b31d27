#pragma once
#include <cstring>
inline void sodium_memzero(void* const p, const size_t len) { std::memset(p, 0, len); }
