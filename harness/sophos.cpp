// Sophos (P18): search returns exactly the inserted indexes
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <iostream>
#include <list>
#include <memory>
#include <mutex>
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>
#include <thread>
using namespace h;
using namespace sse::sophos;

struct Bed
{
    using V = std::vector<uint64_t>;
    std::string dir = "so" + str(rng()());
    std::array<uint8_t, 32> k1, k2;
    std::unique_ptr<SophosClient> c;
    std::unique_ptr<SophosServer> s;
    std::map<std::string, V> ref;
    std::vector<std::string> hist;
    Bed() { for (auto& b : k1) b = uint8_t(rnd(256)); for (auto& b : k2) b = uint8_t(rnd(256)); open(); }
    ~Bed() { c.reset(); s.reset(); (void)!system(("rm -rf ./" + dir + ".c ./" + dir + ".s").c_str()); }
    void open()
    {
        c.reset(); s.reset();
        auto a = k1, b = k2;
        c.reset(new SophosClient(dir + ".c", "sk", sse::crypto::Key<32>(a.data()), sse::crypto::Key<32>(b.data())));
        s.reset(new SophosServer(dir + ".s", c->public_key()));
    }
    std::string kw() { uint64_t k = rnd(6); return k == 0 ? "" : k == 1 ? std::string("a\0b", 3) : "kw" + str(k); }
    void note(std::string x) { std::replace(x.begin(), x.end(), char(0), char(46)); hist.push_back(x); std::string o = "sophos"; for (size_t i = hist.size() > 25 ? hist.size() - 25 : 0; i < hist.size(); i++) o += " " + hist[i]; at(o); }
    void insert(const std::string& k, uint64_t v)
    {
        auto u = c->insertion_request(k, v);
        if (rnd(10) == 0) s->insert(u); // a repeated update changes nothing
        s->insert(u);
        ref[k].push_back(v);
    }
    static bool same(V a, V b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
    void check(const std::string& k, int how)
    {
        const V& r = ref[k];
        unsigned t = rnd(4) == 0 ? 1 + rnd(255) : 1 + rnd(9), t2 = 1 + rnd(8), t3 = 1 + rnd(8);
        if (how == 4 && rnd(2)) t = 1 + rnd(255);
        note("search(" + k + "," + str(r.size()) + ",how=" + str(how) + (how < 2 ? "" : ",threads=" + str(t)) + ")");
        announce();
        auto q = c->search_request(k);
        EXPECT(q.add_count == r.size(), "P18-count", "the request announces the number of entries");
        std::mutex m;
        V got;
        auto cb = [&](uint64_t x) { std::lock_guard<std::mutex> g(m); got.push_back(x); };
        switch (how) {
        case 0: { auto l = s->search(q); got.assign(l.begin(), l.end()); break; }
        case 1: s->search_callback(q, [&](uint64_t x) { got.push_back(x); }); break;
        case 2: { auto l = s->search_parallel(q, uint8_t(1 + t % 20)); got.assign(l.begin(), l.end()); break; }
        case 3: { auto l = s->search_parallel_light(q, uint8_t(t)); got.assign(l.begin(), l.end()); break; }
        case 4: s->search_parallel_callback(q, cb, uint8_t(t), uint8_t(t2), uint8_t(t3)); break;
        default: s->search_parallel_light_callback(q, cb, uint8_t(t));
        }
        if (how < 2) EXPECT(got == V(r.rbegin(), r.rend()), "P18-order", "a sequential search starts with the newest entry");
        EXPECT(same(got, r), "P18-result", "a search returns exactly the inserted indexes");
        cases()++;
    }
    void run(int steps)
    {
        for (int i = 0; i < steps; i++) {
            switch (rnd(8)) {
            case 0: case 1: case 2: case 3: {
                auto k = kw();
                size_t n = rnd(6) ? 1 : rnd(60);
                note("insert(" + k + ")*" + str(n));
                while (n--) insert(k, rnd(3) ? rng()() : rnd(4));
                break;
            }
            case 4: note("reopen"); open(); break;
            default: check(kw(), int(rnd(6)));
            }
        }
        auto k = kw();
        for (int h = 0; h < 6; h++) check(k, h);
    }
};

int main(int argc, char** argv)
{
    rng().seed(argc > 2 ? strtoull(argv[2], nullptr, 10) : 1);
    int f = argc > 3 && std::string(argv[3]) == "thorough" ? 20 : 1;
    sse::logger::set_logger(spdlog::default_logger());
    spdlog::set_level(spdlog::level::off);
    for (int i = 0; i < 12 * f; i++) {
        Bed b;
        b.run(60);
    }
    sample(cur());
    return done();
}
