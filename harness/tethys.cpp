// Tethys store addressing (P07), list encoding (P08), bucket encryption (P09)
// and scheme-level splitting (P10).
#include "common.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <list>
#include <mutex>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
using namespace h;
using namespace sse::tethys;
using K = tethys_core_key_type;
using V = std::vector<uint64_t>;

struct Quiet
{
    std::ostringstream s;
    std::streambuf *a, *b;
    Quiet() : a(std::cerr.rdbuf(s.rdbuf())), b(std::cout.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); }
};

static K rkey(uint64_t range)
{
    uint64_t w[2] = {rnd(3) ? rnd(range) : rng()(), rnd(3) ? rnd(range) : rng()()};
    K k;
    memcpy(k.data(), w, 16);
    return k;
}
static V rlist(size_t n)
{
    V v(n);
    uint64_t s = rng()();
    for (auto& x : v) x = rnd(6) ? s++ * 0x9E3779B97F4A7C15ull : rnd(3);
    return v;
}
static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }

// ------------------------------------------------------------------- P07
struct Rec { size_t idx; K key; int orient; };
static std::vector<Rec>& recs() { static std::vector<Rec> r; return r; }
struct RecEncoder
{
    static constexpr size_t kListControlValues = 6, kBucketControlValues = 0;
    size_t start_block_encoding(uint8_t*, size_t) { return 0; }
    size_t encode(uint8_t*, size_t i, const K& k, const V&, TethysAssignmentInfo info) { recs().push_back({i, k, info.edge_orientation}); return 0; }
    size_t finish_block_encoding(uint8_t* b, size_t idx, size_t w, size_t r) { memset(b + w, int(idx & 0xff), r); memcpy(b, &idx, 8); return r; }
    void serialize_key_value(std::ostream&, const K&, const TethysStashSerializationValue<uint64_t>&) {}
    void start_tethys_encoding(const details::TethysGraph&) {}
    void finish_tethys_table_encoding() {}
    void finish_tethys_encoding() {}
};
template<size_t PS> static size_t pageno(const std::array<uint8_t, PS>& p) { size_t i; memcpy(&i, p.data(), 8); return i; }

template<size_t PS, class Store> static void lookup(Store& s, const K& k, size_t& i0, size_t& i1)
{
    auto bp = s.get_buckets(k);
    i0 = bp.index_0; i1 = bp.index_1;
    EXPECT(pageno<PS>(bp.payload_0) == i0 && pageno<PS>(bp.payload_1) == i1, "P07-payload", "the pages read are those of the two positions");
    if (PS % 4096) return;      // direct I/O wants aligned pages
    std::mutex m; std::condition_variable cv; int n = 0; std::multiset<size_t> got;
    bool ok = true;
    try {
        s.async_get_buckets(k, [&](std::unique_ptr<std::array<uint8_t, PS>> p, size_t i) {
            std::lock_guard<std::mutex> l(m);
            got.insert(i);
            EXPECT(p && pageno<PS>(*p) == i, "P07-async-payload", "the page delivered is that of the position delivered");
            n++; cv.notify_all();
        });
    } catch (const std::exception&) { ok = false; }
    EXPECT(ok, "P07-async", "asynchronous lookup accepted");
    if (!ok) return;
    std::unique_lock<std::mutex> l(m);
    EXPECT(cv.wait_for(l, std::chrono::seconds(20), [&] { return n == 2; }), "P07-async", "both buckets are delivered");
    std::multiset<size_t> want{i0, i1};
    EXPECT(got == want, "P07-async", "the asynchronous lookup reads the same buckets");
}

template<size_t PS> static void addr_case()
{
    using B = TethysStoreBuilder<PS, K, uint64_t, IdentityHasher, RecEncoder>;
    using S = TethysStore<PS, K, uint64_t, IdentityHasher, EmptyDecoder>;
    TethysStoreBuilderParam p;
    p.max_n_elements = 1 + rnd(rnd(2) ? 60 : 3000);
    p.epsilon = rnd(30) / 10.0;
    p.tethys_table_path = "tt" + str(rng()());
    p.tethys_stash_path = p.tethys_table_path + ".stash";
    at("tethys addressing page=" + str(PS) + " elements=" + str(p.max_n_elements) + " epsilon=" + str(p.epsilon));
    Quiet q;
    std::map<K, V> ref;
    size_t g = p.graph_size(B::kBucketSize);
    recs().clear();
    {
        B b(p);
        for (int i = 0, n = int(rnd(30)); i < n; i++) {
            K k = rkey(g + 1);
            if (ref.count(k)) continue;
            V v = rlist(1 + rnd(B::kMaxListSize));
            b.insert_list(k, v);
            ref[k] = v;
        }
        b.build();
    }
    S s(p.tethys_table_path, "");
    for (auto& x : ref) {
        size_t i0, i1;
        lookup<PS>(s, x.first, i0, i1);
        EXPECT(i0 < g / 2 && i1 >= g / 2 && i1 < g, "P07-halves", "one bucket in each half of the table");
        int o0 = 0, o1 = 0;
        for (auto& r : recs()) if (r.key == x.first) {
            if (r.orient == OutgoingEdge) { o0++; EXPECT(r.idx == i0, "P07-first", "the builder's first bucket is the reader's"); }
            else { o1++; EXPECT(r.idx == i1, "P07-second", "the builder's second bucket is the reader's"); }
        }
        EXPECT(o0 == 1 && o1 == 1, "P07-twice", "a list is offered to exactly its two buckets");
        cases()++;
    }
    std::remove(p.tethys_table_path.c_str());
    std::remove(p.tethys_stash_path.c_str());
}
template<size_t PS> static void odd_case()
{
    using S = TethysStore<PS, K, uint64_t, IdentityHasher, EmptyDecoder>;
    std::string path = "to" + str(rng()());
    size_t n = 2 + rnd(15);
    at("tethys reader page=" + str(PS) + " table of " + str(n) + " pages");
    Quiet q;
    {
        sse::abstractio::awonvm_vector<std::array<uint8_t, PS>, PS> v(path);
        for (size_t i = 0; i < n; i++) { std::array<uint8_t, PS> a; a.fill(uint8_t(i)); memcpy(a.data(), &i, 8); v.push_back(a); }
        v.commit();
    }
    S s(path, "");
    for (int i = 0; i < 30; i++) {
        K k = rkey(n + 1);
        uint64_t w[2];
        memcpy(w, k.data(), 16);
        size_t i0, i1;
        lookup<PS>(s, k, i0, i1);
        EXPECT(i0 < n / 2 && i1 >= n / 2 && i1 < n, "P07-halves", "one bucket in each half of the table");
        EXPECT(i0 == w[0] % (n / 2) && i1 == n / 2 + w[1] % (n - n / 2), "P07-residue", "buckets are the residues of the two hash words");
        cases()++;
    }
    std::remove(path.c_str());
}

// ------------------------------------------------------------------- P08
struct L { K key; V v; size_t flow, rec; V front, back; };

template<size_t PS> static void bucket_case()
{
    using Enc = encoders::EncodeSeparateEncoder<K, uint64_t, PS>;
    using Dec = encoders::EncodeSeparateDecoder<K, uint64_t, PS>;
    Enc enc; Dec dec;
    constexpr size_t B = PS / 8, C = Enc::kListControlValues;
    // lists with a split; each list goes to a random pair of sides of two buckets
    size_t room[2] = {B, B};
    std::vector<L> ls;
    std::vector<std::pair<size_t, int>> order[2];
    std::set<K> keys;
    size_t want = rnd(rnd(2) ? 4 : 30);
    bool tight = rnd(2);
    for (size_t i = 0; i < want; i++) {
        L l;
        l.key = rkey(rnd(2) ? 3 : 1000);
        if (!keys.insert(l.key).second) continue;
        size_t n = rnd(4) == 0 ? rnd(4) : rnd(B - C + 1);
        l.v = rlist(n);
        size_t cap = n + C;
        auto pick = [&](size_t mx) { mx = std::min(mx, cap); size_t t = rnd(5); return t == 0 ? std::min<size_t>(rnd(6), mx) : t == 1 ? mx : t == 2 ? (mx > 4 ? mx - rnd(4) : mx) : rnd(mx + 1); };
        l.flow = pick(room[0]);
        l.rec = std::min(rnd(3) == 0 ? cap - l.flow : pick(cap - l.flow), std::min(room[1], cap - l.flow));
        if (rnd(2)) { size_t t = l.rec; if (t <= room[0] && l.flow <= room[1]) std::swap(l.flow, l.rec); }
        if (l.flow > room[0] || l.rec > room[1]) continue;
        room[0] -= l.flow; room[1] -= l.rec;
        ls.push_back(l);
        order[0].push_back({ls.size() - 1, 0});
        order[1].push_back({ls.size() - 1, 1});
    }
    if (tight) for (int s = 0; s < 2; s++) if (room[s] && !ls.empty()) {
        L& l = ls[rnd(ls.size())];
        size_t cap = l.v.size() + C, more = std::min(room[s], cap - l.flow - l.rec);
        (s ? l.rec : l.flow) += more;
    }
    at("tethys bucket page=" + str(PS) + " lists=" + str(ls.size()));
    std::array<uint8_t, PS> page[2];
    for (int s = 0; s < 2; s++) {
        std::shuffle(order[s].begin(), order[s].end(), rng());
        std::vector<uint8_t> buf(PS + 64, 0xFF);
        size_t w = enc.start_block_encoding(buf.data(), s);
        for (auto& o : order[s]) {
            L& l = ls[o.first];
            details::Edge e(1, l.v.size() + C);
            e.flow = l.flow; e.rec_flow = l.rec;
            size_t share = s ? l.rec : l.flow;
            size_t before = w;
            std::vector<uint8_t> prev = buf;
            w += enc.encode(buf.data() + w, s, l.key, l.v, TethysAssignmentInfo(e, s ? IncomingEdge : OutgoingEdge));
            EXPECT(w - before <= share * 8, "P08-fit", "the encoding fits the share");
            for (size_t j = 0; j < buf.size(); j++) if ((j < before || j >= w) && prev[j] != buf[j]) { EXPECT(false, "P08-outside", "bytes outside the share written"); break; }
        }
        if (w > PS) { EXPECT(false, "P08-page", "the lists of a bucket fit the page"); return; }
        w += enc.finish_block_encoding(buf.data(), s, w, PS - w);
        EXPECT(w == PS, "P08-finish", "the page is completed");
        for (size_t j = PS; j < buf.size(); j++) EXPECT(buf[j] == 0xFF, "P08-outside", "bytes outside the page written");
        memcpy(page[s].data(), buf.data(), PS);
    }
    for (auto& l : ls) {
        V back, front;
        dec.decode_single_bucket(l.key, page[0], back);
        dec.decode_single_bucket(l.key, page[1], front);
        std::ostringstream out;
        details::Edge e(1, l.v.size() + C);
        e.flow = l.flow; e.rec_flow = l.rec;
        enc.serialize_key_value(out, l.key, TethysStashSerializationValue<uint64_t>(&l.v, TethysAssignmentInfo(e, IncomingEdge)));
        V mid;
        if (!out.str().empty()) {
            std::istringstream in(out.str());
            auto kv = dec.deserialize_key_value(in);
            EXPECT(kv.first == l.key, "P08-stash-key", "the stash entry has the key");
            EXPECT(in.peek() == EOF, "P08-stash-rest", "the stash entry is read completely");
            mid = kv.second;
        }
        if (l.flow + l.rec == l.v.size() + C) EXPECT(mid.empty(), "P08-stash-none", "nothing to stash when the list is fully assigned");
        V all = front;
        all.insert(all.end(), mid.begin(), mid.end());
        all.insert(all.end(), back.begin(), back.end());
        if (all != l.v) h::fail("P08-cover", "front, stash and back are the list: n=" + str(l.v.size()) + " flow=" + str(l.flow) + " rec=" + str(l.rec) + " got " + str(front.size()) + "+" + str(mid.size()) + "+" + str(back.size()));
        V both = dec.decode_buckets(l.key, page[0], 0, page[1], 1), bf = back;
        bf.insert(bf.end(), front.begin(), front.end());
        EXPECT(both == bf, "P08-both", "decode_buckets returns the two shares");
        cases()++;
    }
    for (int i = 0; i < 5; i++) {
        K k = rkey(5);
        if (keys.count(k)) continue;
        V r;
        dec.decode_single_bucket(k, page[0], r);
        EXPECT(r.empty(), "P08-absent", "a key with no list decodes to nothing");
    }
}

template<size_t PS> static void store_case(const char* tag)
{
    using Enc = encoders::EncodeSeparateEncoder<K, uint64_t, PS>;
    using Dec = encoders::EncodeSeparateDecoder<K, uint64_t, PS>;
    using B = TethysStoreBuilder<PS, K, uint64_t, IdentityHasher, Enc>;
    using S = TethysStore<PS, K, uint64_t, IdentityHasher, Dec>;
    TethysStoreBuilderParam p;
    size_t nl = rnd(rnd(2) ? 6 : 25);
    p.max_n_elements = 1 + rnd(1 + nl * B::kMaxListSize);
    p.epsilon = rnd(15) / 10.0;
    p.tethys_table_path = "ts" + str(rng()());
    p.tethys_stash_path = p.tethys_table_path + ".stash";
    uint64_t range = rnd(2) ? 2 : 1 + rnd(40);
    at(std::string("tethys store page=") + str(PS) + " lists=" + str(nl) + " elements=" + str(p.max_n_elements) + " range=" + str(range));
    Quiet q;
    std::map<K, V> ref;
    {
        B b(p);
        for (size_t i = 0; i < nl; i++) {
            K k = rkey(range);
            if (ref.count(k)) continue;
            V v = rlist(rnd(4) == 0 ? rnd(3) : rnd(5) == 0 ? B::kMaxListSize - rnd(2) : rnd(B::kMaxListSize + 1));
            b.insert_list(k, v);
            ref[k] = v;
        }
        EXPECT(throws([&] { b.insert_list(rkey(1000), rlist(B::kMaxListSize + 1)); }), "P08-long", "a list longer than a bucket is rejected");
        b.build();
        EXPECT(throws([&] { b.insert_list(rkey(1000), rlist(1)); }), "P08-late", "insertion after build is rejected");
        EXPECT(throws([&] { b.build(); }), "P08-late", "a second build is rejected");
    }
    {
        S s(p.tethys_table_path, p.tethys_stash_path);
        std::vector<std::pair<K, V>> qs(ref.begin(), ref.end());
        for (int i = 0; i < 4; i++) { K k = rkey(range + 50); if (!ref.count(k)) qs.push_back({k, {}}); }
        for (auto& x : qs) {
            EXPECT(sorted(s.get_list(x.first)) == sorted(x.second), tag, "get_list returns the list");
            cases()++;
        }
        std::mutex m; std::condition_variable cv; size_t n = 0; bool ok = true;
        if (PS % 4096) qs.clear();      // direct I/O wants aligned pages
        std::vector<V> got(qs.size());
        std::vector<int> calls(qs.size());
        size_t sub = 0;
        Dec dec;
        try {
            for (size_t i = 0; i < qs.size(); i++) {
                auto cb = [&, i](V r) { std::lock_guard<std::mutex> l(m); got[i] = r; calls[i]++; n++; cv.notify_all(); };
                if (i % 2) s.async_get_list(qs[i].first, cb); else s.async_get_list(qs[i].first, dec, cb);
                sub++;
            }
        } catch (const std::exception&) { ok = false; }
        EXPECT(ok, tag, "asynchronous lookups accepted");
        std::unique_lock<std::mutex> l(m);
        EXPECT(cv.wait_for(l, std::chrono::seconds(20), [&] { return n >= sub; }), tag, "asynchronous lookups are answered");
        for (size_t i = 0; i < sub; i++) EXPECT(calls[i] == 1 && sorted(got[i]) == sorted(qs[i].second), tag, "async_get_list returns the list");
    }
    std::remove(p.tethys_table_path.c_str());
    std::remove(p.tethys_stash_path.c_str());
}

// ------------------------------------------------------------------- P09
struct Seen { K key; std::vector<uint8_t> b[2]; size_t i[2]; };
static Seen& seen() { static Seen s; return s; }
template<size_t PS> struct RawEnc
{
    static constexpr size_t kListControlValues = 6, kBucketControlValues = 0;
    using key_type = K; using value_type = uint64_t;
    size_t start_block_encoding(uint8_t*, size_t) { return 0; }
    size_t encode(uint8_t*, size_t, const K&, const V&, TethysAssignmentInfo) { return 0; }
    size_t finish_block_encoding(uint8_t* b, size_t, size_t w, size_t r) { size_t n = r / 2; for (size_t i = 0; i < n; i++) b[w + i] = uint8_t(i * 7 + 1); return n; }
    void serialize_key_value(std::ostream&, const K&, const TethysStashSerializationValue<uint64_t>&) {}
    void start_tethys_encoding(const details::TethysGraph&) {}
    void finish_tethys_table_encoding() {}
    void finish_tethys_encoding() {}
};
template<size_t PS> struct RawDec
{
    static constexpr size_t kListControlValues = 6, kBucketControlValues = 0;
    using key_type = K; using value_type = uint64_t;
    V decode_buckets(const K& k, const std::array<uint8_t, PS>& a, size_t i, const std::array<uint8_t, PS>& b, size_t j)
    {
        seen().key = k; seen().b[0].assign(a.begin(), a.end()); seen().b[1].assign(b.begin(), b.end()); seen().i[0] = i; seen().i[1] = j;
        return {1, 2, 3};
    }
};
static uint64_t rpos()
{
    switch (rnd(4)) { case 0: return rnd(4); case 1: return rnd(1ull << 20); case 2: return 1ull << rnd(64); default: return rng()(); }
}
template<size_t PS> static void crypt_case()
{
    using E = encoders::EncryptEncoder<RawEnc<PS>, PS>;
    using D = encoders::DecryptDecoder<RawDec<PS>, PS>;
    typename E::key_type key;
    for (auto& b : key) b = uint8_t(rnd(256));
    E e(key); D d(key);
    size_t idx[2] = {rpos(), rpos()};
    if (rnd(3) == 0) idx[1] = idx[0] ^ (1ull << rnd(64));
    at("encryption page=" + str(PS) + " positions " + str(idx[0]) + ", " + str(idx[1]));
    std::array<uint8_t, PS> page[2], plain[2], cipher[2];
    for (int s = 0; s < 2; s++) {
        std::vector<uint8_t> buf(PS + 128, 0x5A);
        size_t w = rnd(4) == 0 ? PS : rnd(4) == 0 ? 0 : rnd(PS + 1);
        for (size_t j = 0; j < PS; j++) buf[64 + j] = rnd(2) ? 0 : uint8_t(rnd(256));
        memcpy(plain[s].data(), buf.data() + 64, PS);
        RawEnc<PS> base;
        base.finish_block_encoding(plain[s].data(), idx[s], w, PS - w);
        size_t r = e.finish_block_encoding(buf.data() + 64, idx[s], w, PS - w);
        EXPECT(r == PS - w, "P09-count", "the whole rest of the block is reported written");
        for (size_t j = 0; j < buf.size(); j++) if (j < 64 || j >= 64 + PS) EXPECT(buf[j] == 0x5A, "P09-outside", "bytes outside the block written");
        memcpy(cipher[s].data(), buf.data() + 64, PS);
    }
    K k = rkey(100);
    auto keep0 = cipher[0], keep1 = cipher[1];
    V r = d.decode_buckets(k, cipher[0], idx[0], cipher[1], idx[1]);
    EXPECT(r == (V{1, 2, 3}), "P09-result", "the inner result is returned");
    EXPECT(keep0 == cipher[0] && keep1 == cipher[1], "P09-const", "the encrypted blocks are not modified");
    EXPECT(seen().key == k && seen().i[0] == idx[0] && seen().i[1] == idx[1], "P09-args", "key and positions are passed on");
    for (int s = 0; s < 2; s++) EXPECT(std::equal(plain[s].begin(), plain[s].end(), seen().b[s].begin()), "P09-inverse", "decryption gives back the block");
    if (idx[0] != idx[1]) {
        // a block decrypted at another position does not come out
        std::vector<uint8_t> m0(PS), m1(PS);
        for (size_t j = 0; j < PS; j++) { m0[j] = cipher[0][j] ^ plain[0][j]; m1[j] = cipher[1][j] ^ plain[1][j]; }
        EXPECT(m0 != m1, "P09-position", "different positions use different keystreams");
        size_t z = 0, run = 0;
        for (size_t j = 0; j < PS; j++) { run = m0[j] ? 0 : run + 1; z = std::max(z, run); }
        EXPECT(z < 16, "P09-cover", "the keystream covers the whole block");
    }
    typename E::key_type key2 = key;
    key2[rnd(32)] ^= uint8_t(1 + rnd(255));
    E e2(key2);
    std::array<uint8_t, PS> c2 = plain[0];
    e2.finish_block_encoding(c2.data(), idx[0], PS, 0);
    EXPECT(c2 != cipher[0], "P09-key", "different keys use different keystreams");
    cases()++;
}

// ------------------------------------------------------------------- P10
template<size_t PS> static void scheme_case()
{
    using Enc = encoders::EncodeSeparateEncoder<K, uint64_t, PS>;
    using Dec = encoders::EncodeSeparateDecoder<K, uint64_t, PS>;
    using B = TethysBuilder<PS, Enc>;
    using Srv = TethysServer<tethys_server_store_type<PS>>;
    using Cl = TethysClient<Dec>;
    constexpr size_t M = B::tethys_store_type::kMaxListSize;
    std::string dir = "sc" + str(rng()());
    TethysStoreBuilderParam p;
    p.epsilon = 0.2 + rnd(10) / 10.0;
    p.tethys_table_path = dir + ".table";
    p.tethys_stash_path = dir + ".stash";
    std::array<uint8_t, kMasterPrfKeySize> mk, mk2;
    for (auto& b : mk) b = uint8_t(rnd(256));
    mk2 = mk;
    std::array<uint8_t, 32> ek;
    for (auto& b : ek) b = uint8_t(rnd(256));
    std::map<std::string, V> ref;
    size_t total = 0;
    for (size_t i = 0, n = rnd(12); i < n; i++) {
        size_t len = rnd(3) == 0 ? rnd(4) : rnd(2) ? M * rnd(4) + rnd(3) : rnd(4 * M);
        if (rnd(4) == 0) len = M * (1 + rnd(3)) - rnd(2);
        std::string kw = rnd(8) == 0 ? "" : "kw" + str(rnd(1000));
        if (ref.count(kw)) continue;
        ref[kw] = rlist(len);
        total += len;
    }
    p.max_n_elements = total + 1 + (rnd(3) ? ref.size() * 6 * 4 : 0);
    at("tethys scheme page=" + str(PS) + " keywords=" + str(ref.size()) + " elements=" + str(total));
    Quiet q;
    {
        B b(p, dir + ".cnt", sse::crypto::Key<kMasterPrfKeySize>(mk.data()), ek);
        for (auto& x : ref) b.insert_list(x.first, std::list<uint64_t>(x.second.begin(), x.second.end()));
        b.build();
    }
    {
        Srv s(p.tethys_table_path);
        Cl c(dir + ".cnt", p.tethys_stash_path, sse::crypto::Key<kMasterPrfKeySize>(mk2.data()), ek);
        for (auto& x : ref) {
            auto r = c.search_request(x.first);
            size_t blocks = x.second.size() / M + 1;
            EXPECT(r.block_count == blocks, "P10-count", "the number of blocks");
            auto bp = s.search(r);
            EXPECT(bp.size() == r.block_count, "P10-search", "one bucket pair per block");
            std::set<K> ks;
            for (size_t i = 0; i < bp.size(); i++) { ks.insert(bp[i].key); EXPECT(bp[i].key == details::derive_core_key(r.search_token, i), "P10-key", "the key of the block number"); }
            EXPECT(ks.size() == bp.size(), "P10-key", "block keys are distinct");
            EXPECT(sorted(c.decode_search_results(r, bp)) == sorted(x.second), "P10-result", "search returns the list");
            cases()++;
        }
        for (int i = 0; i < 3; i++) {
            std::string kw = "no" + str(rnd(1000));
            auto r = c.search_request(kw, rnd(2));
            EXPECT(r.block_count == 0, "P10-absent", "no blocks for a keyword never inserted");
            EXPECT(c.decode_search_results(r, s.search(r)).empty(), "P10-absent", "no results for a keyword never inserted");
        }
    }
    std::remove(p.tethys_table_path.c_str());
    std::remove(p.tethys_stash_path.c_str());
    (void)!system(("rm -rf ./" + dir + ".cnt").c_str());
}

// splitting with a recording store
static std::vector<std::pair<K, V>>& stored() { static std::vector<std::pair<K, V>> s; return s; }
template<size_t N> struct FakeStore
{
    using value_type = index_type; using value_encoder_type = int; using stash_encoder_type = int;
    static constexpr size_t kBucketSize = N + 6, kMaxListSize = N;
    explicit FakeStore(const TethysStoreBuilderParam&) {}
    void insert_list(const K& k, const V& v) { stored().push_back({k, v}); }
    void build() {}
    void build(int&, int&) {}
};
template<size_t N> static void split_case()
{
    using B = details::GenericTethysBuilder<FakeStore<N>>;
    std::string dir = "sp" + str(rng()());
    std::array<uint8_t, kMasterPrfKeySize> mk, mk2;
    for (auto& b : mk) b = uint8_t(rnd(256));
    mk2 = mk;
    master_prf_type prf{sse::crypto::Key<kMasterPrfKeySize>(mk2.data())};
    Quiet q;
    std::map<std::string, uint32_t> cnt;
    {
        B b(TethysStoreBuilderParam{}, dir, sse::crypto::Key<kMasterPrfKeySize>(mk.data()));
        for (int i = 0; i < 20; i++) {
            std::string kw = "k" + str(i) + std::string(rnd(3), char(0));
            V v = rlist(rnd(2) ? rnd(3) * N + rnd(2) : rnd(5 * N));
            at("tethys split N=" + str(N) + " n=" + str(v.size()));
            stored().clear();
            b.insert_list(kw, std::list<uint64_t>(v.begin(), v.end()));
            V cat;
            for (size_t j = 0; j < stored().size(); j++) {
                auto& x = stored()[j];
                EXPECT(x.second.size() <= N, "P10-long", "blocks are no longer than the maximum");
                EXPECT(x.first == details::derive_core_key(prf.prf(kw), j), "P10-blockkey", "blocks are stored under the key of their number");
                cat.insert(cat.end(), x.second.begin(), x.second.end());
            }
            EXPECT(cat == v, "P10-concat", "the blocks make up the list");
            cnt[kw] = uint32_t(stored().size());
            cases()++;
        }
        b.build();
    }
    sse::sophos::RocksDBCounter c(dir);
    for (auto& x : cnt) { uint32_t r = 0; EXPECT(c.get(x.first, r) && r == x.second, "P10-counter", "the number of blocks is recorded"); }
    (void)!system(("rm -rf ./" + dir).c_str());
}
static void derive_case()
{
    search_token_type t;
    for (auto& b : t) b = uint8_t(rnd(3));
    uint64_t a = rpos(), b = rnd(2) ? a ^ (1ull << rnd(64)) : rpos();
    at("derive_core_key " + str(a) + " " + str(b));
    EXPECT((details::derive_core_key(t, a) == details::derive_core_key(t, b)) == (a == b), "P10-derive", "block keys depend on the whole block number");
    auto u = t;
    u[rnd(16)] ^= uint8_t(1 + rnd(255));
    EXPECT(details::derive_core_key(t, a) != details::derive_core_key(u, a), "P10-derive", "block keys depend on the whole token");
    cases()++;
}

int main(int argc, char** argv)
{
    std::string pid = argc > 1 ? argv[1] : "P07";
    rng().seed(argc > 2 ? strtoull(argv[2], nullptr, 10) : 1);
    int f = argc > 3 && std::string(argv[3]) == "thorough" ? 20 : 1;
    if (pid == "P07") for (int i = 0; i < 40 * f; i++) { addr_case<512>(); odd_case<512>(); if (i % 3 == 0) { addr_case<4096>(); odd_case<4096>(); } }
    else if (pid == "P08") {
        for (int i = 0; i < 3000 * f; i++) { bucket_case<512>(); if (i % 4 == 0) bucket_case<4096>(); }
        for (int i = 0; i < 60 * f; i++) { store_case<512>("P08-store"); if (i % 4 == 0) store_case<4096>("P08-store"); }
    }
    else if (pid == "P09") for (int i = 0; i < 2000 * f; i++) { crypt_case<512>(); if (i % 10 == 0) crypt_case<4096>(); if (i % 3 == 0) crypt_case<40>(); }
    else {
        for (int i = 0; i < 2000 * f; i++) derive_case();
        for (int i = 0; i < 6 * f; i++) { split_case<1>(); split_case<7>(); split_case<58>(); }
        for (int i = 0; i < 15 * f; i++) scheme_case<512>();
        for (int i = 0; i < 2 * f; i++) scheme_case<4096>();
    }
    sample(cur());
    return done();
}
