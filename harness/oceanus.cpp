// Cuckoo allocator (P11) and Oceanus table (P12) against reference maps.
#include "common.hpp"
#include <array>
#include <cassert>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sse/schemes/oceanus/oceanus.hpp>
using namespace h;
using namespace sse::oceanus;
using details::CuckooAllocator;

static void alloc_case()
{
    size_t ts = 1 + rnd(rnd(2) ? 4 : 40), depth = rnd(5) == 0 ? rnd(3) : rnd(60), n = rnd(2 * ts + 3);
    uint64_t range = rnd(3) == 0 ? 3 : rnd(2) ? ts : ~0ull;
    at("cuckoo table_size=" + str(ts) + " depth=" + str(depth) + " n=" + str(n) + " range=" + str(range));
    CuckooAllocator a(ts, depth);
    std::map<size_t, CuckooKey> in;
    std::set<size_t> used;
    for (size_t k = 0; k <= n; k++) {
        CuckooKey key;
        key.h[0] = rnd(range); key.h[1] = rnd(range);
        size_t idx = rnd(3) ? k : (~0ull - 1 - k);
        if (rnd(20) == 0) {
            EXPECT(throws([&] { a.insert(key, ~0ull); }), "P11-reserved", "reserved index accepted");
        }
        if (!used.insert(idx).second) continue;
        size_t r = a.insert(key, idx);
        in[idx] = key;
        if (r != ~0ull) {
            EXPECT(in.erase(r) == 1, "P11-spill", "the spilled value was not stored");
        }
        std::map<size_t, int> seen;
        for (int t = 0; t < 2; t++) {
            auto b = t ? a.table_1_begin() : a.table_0_begin(), e = t ? a.table_1_end() : a.table_0_end();
            EXPECT(size_t(e - b) == ts, "P11-size", "table size");
            size_t i = 0;
            for (auto it = b; it != e; ++it, ++i) {
                if (it->value_index == ~0ull) continue;
                seen[it->value_index]++;
                auto f = in.find(it->value_index);
                EXPECT(f != in.end(), "P11-extra", "a cell holds a value that should not be stored");
                if (f == in.end()) continue;
                EXPECT(f->second.h[0] == it->key.h[0] && f->second.h[1] == it->key.h[1], "P11-key", "a cell holds the wrong key");
                EXPECT(f->second.h[t] % ts == i, "P11-cell", "a value is not in the cell its key designates");
            }
        }
        for (auto& x : in) EXPECT(seen[x.first] == 1, "P11-lost", "a stored value is not in exactly one cell");
        cases()++;
    }
}

template<size_t PS> static void table_case()
{
    using B = OceanusBuilder<PS>;
    using K = key_type;
    using V = data_type<PS>;
    std::string path = "oc" + str(rnd(1ull << 40));
    size_t n = rnd(40), cap = n + 1 + rnd(20);
    double eps = 0.5 + rnd(20) / 10.0;
    bool dtor = rnd(2);
    at("oceanus PS=" + str(PS) + " n=" + str(n) + " cap=" + str(cap) + " eps=" + str(eps));
    auto rkey = [&] { K k; for (auto& b : k) b = uint8_t(rnd(256)); if (rnd(3) == 0) { for (int i = 1; i < 8; i++) k[i] = k[8 + i] = 0; k[0] %= 8; k[8] %= 8; } return k; };
    auto rval = [&] { V v; uint64_t s = rnd(~0ull); for (auto& x : v) x = s++ * 0x9E3779B97F4A7C15ull; return v; };
    std::map<K, V> ref;
    {
        B b(path, cap, eps, 200);
        for (size_t i = 0; i < n; i++) {
            K k = rkey();
            if (ref.count(k)) continue;
            V v = rval();
            std::ostringstream spill;
            auto* old = std::cerr.rdbuf(spill.rdbuf());
            b.insert(k, v);
            std::cerr.rdbuf(old);
            if (spill.str().find("Spill") != std::string::npos) { b.commit(); return; }   // out of the property
            ref[k] = v;
        }
        if (!dtor) {
            b.commit();
            EXPECT(throws([&] { b.insert(rkey(), rval()); }), "P12-late", "insertion after commit accepted");
        }
    }
    std::ostringstream null;
    auto* old = std::cerr.rdbuf(null.rdbuf());
    {
        Oceanus<PS> o(path);
        std::vector<K> qs;
        for (auto& x : ref) { qs.push_back(x.first); K k = x.first; k[rnd(16)] ^= uint8_t(1 << rnd(8)); qs.push_back(k); }
        for (int i = 0; i < 10; i++) qs.push_back(rkey());
        for (auto& k : qs) {
            auto f = ref.find(k);
            bool found = true;
            V v{};
            try { v = o.get(k); } catch (const std::out_of_range&) { found = false; }
            EXPECT(found == (f != ref.end()), "P12-found", "get finds exactly the stored keys");
            if (found && f != ref.end()) EXPECT(v == f->second, "P12-value", "get returns the stored value");
            cases()++;
        }
        std::mutex m;
        std::condition_variable cv;
        size_t left = qs.size();
        std::vector<int> calls(qs.size(), 0);
        std::vector<bool> fnd(qs.size());
        std::vector<V> vals(qs.size());
        bool direct_ok = true;
        size_t sub = 0;
        try {
            for (size_t i = 0; i < qs.size(); i++) {
                o.async_get(qs[i], [&, i](std::experimental::optional<V> r) {
                    std::lock_guard<std::mutex> l(m);
                    calls[i]++; fnd[i] = bool(r);
                    if (r) vals[i] = *r;
                    left--; cv.notify_all();
                });
                sub++;
            }
        } catch (const std::exception&) { direct_ok = false; }
        if (direct_ok) {
            std::unique_lock<std::mutex> l(m);
            EXPECT(cv.wait_for(l, std::chrono::seconds(20), [&] { return left == 0; }), "P12-async", "every asynchronous lookup is answered");
            for (size_t i = 0; i < qs.size(); i++) {
                auto f = ref.find(qs[i]);
                EXPECT(calls[i] == 1, "P12-async", "the callback is called once");
                EXPECT(fnd[i] == (f != ref.end()), "P12-async", "async_get finds exactly the stored keys");
                if (fnd[i] && f != ref.end()) EXPECT(vals[i] == f->second, "P12-async", "async_get returns the stored value");
            }
        } else {
            left -= sub == 0 ? 0 : 0;
        }
    }
    std::cerr.rdbuf(old);
    EXPECT(throws([&] { std::ifstream f(path + ".tmp"); if (!f.good()) throw std::runtime_error("gone"); }), "P12-tmp", "temporary file removed");
    std::remove(path.c_str());
}

int main(int argc, char** argv)
{
    std::string pid = argc > 1 ? argv[1] : "P11";
    rng().seed(argc > 2 ? strtoull(argv[2], nullptr, 10) : 1);
    bool tier = argc > 3 && std::string(argv[3]) == "thorough";
    if (pid == "P11") for (int i = 0; i < (tier ? 60000 : 6000); i++) alloc_case();
    else for (int i = 0; i < (tier ? 400 : 15); i++) { table_case<512>(); table_case<4096>(); }
    sample(cur());
    return done();
}
