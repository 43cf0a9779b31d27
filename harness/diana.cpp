// Diana (P17): search returns exactly the inserted indexes
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <iostream>
#include <list>
#include <mutex>
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>
using namespace h;
using namespace sse::diana;

struct Quiet
{
    std::ostringstream s;
    std::streambuf *a, *b;
    Quiet() : a(std::cerr.rdbuf(s.rdbuf())), b(std::cout.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); }
};
template<class T> struct Gen { static T get() { return rnd(3) ? T(rng()()) : T(rnd(4)); } };
template<size_t N> struct Gen<std::array<uint8_t, N>> { static std::array<uint8_t, N> get() { std::array<uint8_t, N> a; for (auto& b : a) b = uint8_t(rnd(4) ? rnd(256) : 0); return a; } };

template<class T> struct Bed
{
    using V = std::vector<T>;
    std::string dir = "di" + str(rng()());
    std::array<uint8_t, 32> k1, k2;
    std::unique_ptr<DianaClient<T>> c;
    std::unique_ptr<DianaServer<T>> s;
    std::map<std::string, V> ref;
    std::vector<std::string> hist;
    Bed() { for (auto& b : k1) b = uint8_t(rnd(256)); for (auto& b : k2) b = uint8_t(rnd(256)); open(); }
    ~Bed() { c.reset(); s.reset(); (void)!system(("rm -rf ./" + dir + ".c ./" + dir + ".s").c_str()); }
    void open()
    {
        c.reset(); s.reset();
        auto a = k1, b = k2;
        c.reset(new DianaClient<T>(dir + ".c", sse::crypto::Key<32>(a.data()), sse::crypto::Key<32>(b.data())));
        s.reset(new DianaServer<T>(dir + ".s"));
    }
    std::string kw() { uint64_t k = rnd(6); return k == 0 ? "" : k == 1 ? std::string("a\0b", 3) : "kw" + str(k); }
    void note(std::string x) { std::replace(x.begin(), x.end(), char(0), char(46)); hist.push_back(x); std::string o = "diana T=" + str(sizeof(T)); for (size_t i = hist.size() > 25 ? hist.size() - 25 : 0; i < hist.size(); i++) o += " " + hist[i]; at(o); }
    void insert(const std::string& k, const T& v)
    {
        auto u = c->insertion_request(k, v);
        if (rnd(10) == 0) s->insert(u); // a repeated update changes nothing
        s->insert(u);
        ref[k].push_back(v);
    }
    void bulk()
    {
        std::list<std::pair<std::string, T>> l;
        for (size_t i = 0, n = rnd(12); i < n; i++) l.emplace_back(kw(), Gen<T>::get());
        note("bulk(" + str(l.size()) + ")");
        auto us = c->bulk_insertion_request(l);
        EXPECT(us.size() == l.size(), "P17-bulk", "a bulk insertion makes one update per entry");
        for (auto& u : us) s->insert(u);
        for (auto& x : l) ref[x.first].push_back(x.second);
    }
    static bool same(V a, V b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
    void check(const std::string& k, int how, bool del)
    {
        const V& r = ref[k];
        unsigned t = how < 2 ? 1 : rnd(4) == 0 ? 1 + rnd(255) : 1 + rnd(9);
        note("search(" + k + "," + str(r.size()) + ",how=" + str(how) + ",threads=" + str(t) + (del ? ",delete)" : ")"));
        announce();
        auto q = c->search_request(k, false);
        EXPECT(q.add_count == r.size(), "P17-count", "the request announces the number of entries");
        std::mutex m;
        V got;
        bool pos = true;
        Quiet quiet;
        switch (how) {
        case 0: { auto l = s->search(q, del); got.assign(l.begin(), l.end()); break; }
        case 1: s->search(q, [&](T x) { got.push_back(x); }, del); break;
        case 2: { auto l = s->search_parallel(q, uint8_t(t), del); got.assign(l.begin(), l.end()); break; }
        case 3: {
            V v(rnd(2) ? 0 : rnd(2 * r.size() + 1));
            size_t n0 = v.size();
            s->search_parallel(q, uint8_t(t), v, del);
            EXPECT(v.size() == std::max(n0, r.size()), "P17-vsize", "the vector grows to the number of entries");
            v.resize(r.size());
            got = v;
            EXPECT(got == r, "P17-place", "each entry is at its position");
            break;
        }
        case 4: s->search_parallel(q, [&](T x) { std::lock_guard<std::mutex> g(m); got.push_back(x); }, uint8_t(t), del); break;
        default:
            s->search_parallel(q, [&](size_t i, T x, uint8_t id) {
                std::lock_guard<std::mutex> g(m);
                got.push_back(x);
                pos = pos && i < r.size() && r[i] == x && id < t;
            }, uint8_t(t), del);
        }
        EXPECT(pos, "P17-position", "each result comes with its position and a thread number");
        if (how < 2) EXPECT(got == r, "P17-order", "a sequential search follows the insertion order");
        EXPECT(same(got, r), "P17-result", "a search returns exactly the inserted indexes");
        cases()++;
    }
    void run(int steps)
    {
        for (int i = 0; i < steps; i++) {
            switch (rnd(10)) {
            case 0: case 1: case 2: case 3: {
                auto k = kw();
                size_t n = rnd(6) ? 1 : rnd(40);
                note("insert(" + k + ")*" + str(n));
                while (n--) insert(k, Gen<T>::get());
                break;
            }
            case 4: bulk(); break;
            case 5: note("reopen"); open(); break;
            case 6: { auto k = kw(); EXPECT(c->get_match_count(k) == ref[k].size(), "P17-matches", "the match count is the number of entries"); cases()++; break; }
            default: check(kw(), int(rnd(6)), false);
            }
        }
        // a search which deletes its results
        auto k = kw();
        check(k, int(rnd(6)), true);
        note("removed(" + k + ")");
        V keep;
        keep.swap(ref[k]);
        EXPECT(c->remove_keyword(k), "P17-remove", "a keyword is removed");
        EXPECT(c->get_match_count(k) == 0, "P17-matches", "a removed keyword has no entries");
        // the keyword starts anew, other keywords are as they were
        check(k, int(rnd(6)), false);
        insert(k, Gen<T>::get());
        for (int i = 0; i < 6; i++) check(kw(), i, false);
        for (int h = 0; h < 6; h++) check(k, h, h == 5);
    }
};

template<class T> static void deleted()
{
    Bed<T> b;
    std::string k = "del";
    size_t n = 1 + rnd(30);
    for (size_t i = 0; i < n; i++) { b.insert(k, Gen<T>::get()); b.insert("o", Gen<T>::get()); }
    b.check(k, int(rnd(6)), true);
    // what was deleted is not found again
    at("diana deleted results n=" + str(n));
    size_t c = 0;
    Quiet q;
    b.s->search(b.c->search_request(k), [&](T) { c++; });
    EXPECT(c == 0, "P17-deleted", "deleted results are not found again");
    b.check("o", int(rnd(6)), false);
}

int main(int argc, char** argv)
{
    rng().seed(argc > 2 ? strtoull(argv[2], nullptr, 10) : 1);
    int f = argc > 3 && std::string(argv[3]) == "thorough" ? 20 : 1;
    sse::logger::set_logger(spdlog::default_logger());
    spdlog::set_level(spdlog::level::off);
    for (int i = 0; i < 6 * f; i++) {
        { Bed<uint64_t> b; b.run(40); }
        { Bed<uint32_t> b; b.run(30); }
        { Bed<std::array<uint8_t, 40>> b; b.run(30); }
        deleted<uint64_t>();
    }
    sample(cur());
    return done();
}
