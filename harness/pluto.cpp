// Pluto (P13): search returns exactly the inserted indexes
#include "common.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <fstream>
#include <iostream>
#include <list>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
using namespace h;
using namespace sse::pluto;
using V = std::vector<uint64_t>;
constexpr size_t PS = 4096;
using P = DefaultPlutoParams<PS>;
using R = RocksDBPlutoParams<PS>;
using Dec = sse::tethys::encoders::EncodeSeparateDecoder<sse::tethys::tethys_core_key_type, index_type, PS>;
static_assert(P::kPlutoListLength <= P::kCuckooListLength && P::kPlutoListLength <= P::kTethysMaxListLength, "");

struct Quiet
{
    std::ostringstream s;
    std::streambuf *a, *b;
    Quiet() : a(std::cerr.rdbuf(s.rdbuf())), b(std::cout.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); }
};
static V rlist(size_t n)
{
    V v(n);
    uint64_t s = rng()(), z = rnd(3);
    for (auto& x : v) x = z == 0 ? rnd(3) : rnd(6) ? s++ * 0x9E3779B97F4A7C15ull : rnd(3);
    return v;
}
static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }

template<class Par> struct HT;
template<> struct HT<P>
{
    static sse::oceanus::CuckooBuilderParam b(const std::string& d, size_t n)
    {
        sse::oceanus::CuckooBuilderParam p;
        p.value_file_path = d + ".ht.tmp"; p.cuckoo_table_path = d + ".ht";
        p.max_n_elements = n + 8; p.epsilon = 0.5; p.max_search_depth = 200;
        return p;
    }
    static std::string s(const std::string& d, size_t) { return d + ".ht"; }
};
template<> struct HT<R>
{
    static GenericRocksDBStoreParams b(const std::string& d, size_t) { GenericRocksDBStoreParams p; p.path = d + ".rdb"; p.rocksdb_options = GenericRocksDBStoreParams::make_rocksdb_regular_table_options(); return p; }
    static GenericRocksDBStoreParams s(const std::string& d, size_t n) { return b(d, n); }
};

template<class Par> static void scheme_case(bool none)
{
    constexpr size_t M = Par::kPlutoListLength;
    std::string dir = "pl" + str(rng()());
    sse::tethys::TethysStoreBuilderParam tp;
    tp.epsilon = 0.2 + rnd(10) / 10.0;
    tp.tethys_table_path = dir + ".table";
    tp.tethys_stash_path = dir + ".stash";
    std::array<uint8_t, 32> mk, mk2, ek;
    for (auto& b : mk) b = uint8_t(rnd(256));
    mk2 = mk;
    for (auto& b : ek) b = uint8_t(rnd(256));
    std::map<std::string, V> ref;
    size_t total = 0, blocks = 0;
    for (size_t i = 0, n = none ? 0 : 1 + rnd(8); i < n; i++) {
        size_t len = rnd(3) == 0 ? rnd(4) : rnd(2) ? M * rnd(5) + rnd(3) : rnd(4 * M);
        if (rnd(4) == 0) len = M * (1 + rnd(3)) - rnd(2);
        std::string kw = rnd(8) == 0 ? "" : "kw" + str(rnd(1000));
        if (ref.count(kw)) continue;
        ref[kw] = rlist(len);
        total += len; blocks += len / M;
    }
    tp.max_n_elements = total + 1 + ref.size() * 6 * 4;
    size_t n_elts = rnd(3) ? total : total + rnd(3 * M);
    at(std::string("pluto ") + (std::is_same<Par, P>::value ? "cuckoo" : "rocksdb") + " keywords=" + str(ref.size()) + " elements=" + str(total) + " n_elts=" + str(n_elts));
    announce();
    Quiet q;
    {
        PlutoBuilder<Par> b0(n_elts, tp, HT<Par>::b(dir, 4 + (n_elts + total) / M), sse::crypto::Key<32>(mk.data()), ek);
        for (auto& x : ref) b0.insert_list(x.first, std::list<uint64_t>(x.second.begin(), x.second.end()));
        b0.build();
    }
    {
        PlutoServer<Par> s(tp.tethys_table_path, HT<Par>::s(dir, 0));
        PlutoClient<Dec> c(tp.tethys_stash_path, sse::crypto::Key<32>(mk2.data()), ek);
        for (auto& x : ref) {
            auto r = c.search_request(x.first);
            auto p = s.search(r);
            EXPECT(p.complete_lists == V(x.second.begin(), x.second.begin() + x.second.size() / M * M), "P13-full", "the full blocks hold the list up to the remainder");
            EXPECT(sorted(c.decode_search_results(r, p)) == sorted(x.second), "P13-result", "a search returns exactly the inserted indexes");
            cases()++;
        }
        for (int i = 0; i < 4; i++) {
            std::string kw = "no" + str(rnd(1000));
            auto r = c.search_request(kw);
            EXPECT(c.decode_search_results(r, s.search(r)).empty(), "P13-absent", "a keyword never inserted returns nothing");
            cases()++;
        }
    }
    for (auto e : {".table", ".stash", ".ht", ".ht.tmp"}) std::remove((dir + e).c_str());
    (void)!system(("rm -rf ./" + dir + ".rdb").c_str());
}

static void ser_case()
{
    PlutoValueSerializer<P> vs;
    PlutoKeySerializer ks;
    P::ht_value_type v, w;
    for (auto& x : v) x = rng()();
    std::vector<uint8_t> b(PS, 0xAB);
    sse::tethys::tethys_core_key_type k;
    for (auto& x : k) x = uint8_t(rnd(256));
    at("pluto serializers");
    ks.serialize(k, b.data());
    vs.serialize(v, b.data() + 16);
    EXPECT(ks.serialization_length() == 16 && vs.serialization_length() == sizeof(v), "P13-serlen", "serialization lengths");
    EXPECT(!memcmp(b.data(), k.data(), 16), "P13-key", "the key is written");
    w = vs.deserialize(b.data() + 16);
    EXPECT(w == v, "P13-value", "a value reads back");
    EXPECT(!memcmp(PlutoCuckooHasher()(k).h, k.data(), 16), "P13-hash", "both halves of the key are used");
    cases()++;
}

int main(int argc, char** argv)
{
    rng().seed(argc > 2 ? strtoull(argv[2], nullptr, 10) : 1);
    int f = argc > 3 && std::string(argv[3]) == "thorough" ? 20 : 1;
    for (int i = 0; i < 200 * f; i++) ser_case();
    for (int i = 0; i < 8 * f; i++) { scheme_case<P>(i == 3); scheme_case<R>(i == 3); }
    sample(cur());
    return done();
}
