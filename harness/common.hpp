#pragma once
// shared helpers of the concrete harnesses (bounded, never counted as proved)
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace h {
inline std::mt19937_64& rng() { static std::mt19937_64 r; return r; }
inline uint64_t rnd(uint64_t n) { return n ? rng()() % n : 0; }
inline uint64_t& cases() { static uint64_t c = 0; return c; }
inline int& nfail() { static int c = 0; return c; }
inline std::string& cur() { static std::string c; return c; }
inline void at(const std::string& s) { cur() = s; }
inline void fail(const char* key, const std::string& msg)
{
    if (nfail()++ < 20) { std::printf("FAIL %s %s [case: %s]\n", key, msg.c_str(), cur().c_str()); std::fflush(stdout); }
}
inline void sample(const std::string& s) { static int n = 0; if (n++ < 5) std::printf("SAMPLE %s\n", s.c_str()); }
template<class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
#define EXPECT(c, key, msg) do { if (!(c)) ::h::fail(key, std::string(msg) + " violated: " #c); } while (0)
template<class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
inline int done() { std::printf("CASES %llu\n", (unsigned long long)cases()); std::fflush(stdout); return nfail() ? 1 : 0; }
inline void announce() { std::printf("AT %s\n", cur().c_str()); std::fflush(stdout); }
}
