// Concrete runs of the counters (P15) and of the key-value and list stores
// (P16) against a reference map, on a real RocksDB whose reads and writes can
// be made to fail.
#include "common.hpp"
#include <rocksdb/db.h>
#include <rocksdb/utilities/stackable_db.h>
#include <rocksdb/memtablerep.h>
#include <rocksdb/options.h>
#include <rocksdb/table.h>
#include <array>
#include <iostream>
#include <list>
#include <memory>
#include <spdlog/spdlog.h>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>
#define private public
#include <sse/schemes/utils/rocksdb_wrapper.hpp>
#undef private
using namespace h;
using namespace sse::sophos;
struct Faulty : rocksdb::StackableDB {
    int read = 0, write = 0;      // fail with this error kind (0: healthy)
    bool effect = false;          // a failing write takes effect first
    using rocksdb::StackableDB::StackableDB;
    using rocksdb::StackableDB::Get; using rocksdb::StackableDB::Put; using rocksdb::StackableDB::Delete;
    static rocksdb::Status err(int k) { return k == 1 ? rocksdb::Status::IOError("injected") : k == 2 ? rocksdb::Status::Corruption("injected") : k == 3 ? rocksdb::Status::Busy() : rocksdb::Status::Incomplete(); }
    rocksdb::Status Get(const rocksdb::ReadOptions& o, rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& k, rocksdb::PinnableSlice* v) override { return read ? err(read) : db_->Get(o, c, k, v); }
    rocksdb::Status Get(const rocksdb::ReadOptions& o, rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& k, std::string* v) override { return read ? err(read) : db_->Get(o, c, k, v); }
    rocksdb::Status Put(const rocksdb::WriteOptions& o, rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& k, const rocksdb::Slice& v) override
    { if (!write) return db_->Put(o, c, k, v); if (effect) db_->Put(o, c, k, v); return err(write); }
    rocksdb::Status Delete(const rocksdb::WriteOptions& o, rocksdb::ColumnFamilyHandle* c, const rocksdb::Slice& k) override
    { if (!write) return db_->Delete(o, c, k); if (effect) db_->Delete(o, c, k); return err(write); }
};
template<class W> Faulty* wrap(W& w) { auto* f = new Faulty(w.db_); w.db_ = f; return f; }

void counters(int steps, int reopen)
{
    std::string path = "ctr" + str(rnd(1u << 30));
    std::map<std::string, uint32_t> ref;
    std::ostringstream hist;
    auto w = std::make_unique<RocksDBCounter>(path);
    Faulty* f = wrap(*w);
    std::vector<std::string> keys = {"", "a", "b", "ab", std::string("a\0", 2), std::string(40, 'k')};
    for (int i = 0; i < steps && !nfail(); i++) {
        cases()++;
        const std::string k = keys[rnd(keys.size())];
        f->read = rnd(6) ? 0 : 1 + rnd(4);
        f->write = rnd(6) ? 0 : 1 + rnd(4);
        f->effect = rnd(2);
        int op = rnd(6);
        uint32_t x = rnd(4) ? rnd(1000) : 0xFFFFFFFFu - rnd(2), out = 77;
        hist << "op" << op << "(" << k << "," << x << ",r" << f->read << "w" << f->write << ") ";
        at(hist.str().size() > 600 ? hist.str().substr(hist.str().size() - 600) : hist.str());
        bool fail = f->write, rfail = f->read, r = false, had = ref.count(k);
        uint32_t old = had ? ref[k] : 0, nv = 0;
        bool upd = false;
        if (op == 0) {
            r = w->get(k, out);
            EXPECT(r == (!rfail && had), "get-found", "a count is read iff it is present and readable");
            EXPECT(out == (r ? old : 77), "get-value", "a read returns the stored count, a failed one leaves the output alone");
        } else if (op == 1) { r = w->set(k, x); nv = x; upd = true; rfail = false; EXPECT(r == !fail, "set", "set succeeds iff the write does"); }
        else if (op == 2 || op == 3) { r = w->increment(k, x); nv = had ? old + 1 : x; upd = true; EXPECT(r == (!fail && !rfail), "increment", "increment succeeds iff read and write do"); }
        else if (op == 4) { r = w->get_and_increment(k, out); nv = had ? old + 1 : 0; upd = true; EXPECT(r == (!fail && !rfail), "get_and_increment", "counting succeeds iff read and write do"); if (r) EXPECT(out == nv, "counted", "the count returned is the count stored"); }
        else { r = w->remove_key(k); EXPECT(r == !fail, "remove", "removal succeeds iff the write does"); rfail = false; if (!fail || f->effect) ref.erase(k); }
        if (upd && !rfail && (!fail || f->effect)) ref[k] = nv;
        f->read = f->write = 0;
        for (auto& q : keys) {
            uint32_t v = 12345;
            bool g = w->get(q, v);
            EXPECT(g == (ref.count(q) > 0), "history", "keys present are those counted or set");
            if (g) EXPECT(v == ref[q], "history", "every counter holds the last value set or counted");
        }
        if (reopen && rnd(40) == 0) { w.reset(); w = std::make_unique<RocksDBCounter>(path); f = wrap(*w); hist << "reopen "; }
    }
    w.reset();
    rocksdb::DestroyDB(path, rocksdb::Options());
}
struct Big { uint64_t a; uint32_t b; uint32_t c; bool operator==(const Big& o) const { return a == o.a && b == o.b && c == o.c; } };
namespace sse { namespace utility { inline std::string hex_string(const Big&) { return ""; } } }
void kv(int steps)
{
    std::string path = "kv" + str(rnd(1u << 30));
    using K = std::array<uint8_t, 16>;
    using A = std::array<uint8_t, 32>;
    std::map<std::string, std::string> ref;
    auto w = std::make_unique<RockDBWrapper>(path);
    Faulty* f = wrap(*w);
    std::vector<K> keys(5);
    for (auto& k : keys) for (auto& b : k) b = rnd(256);
    keys[1] = keys[0]; keys[1][15] ^= 1; keys[2] = keys[0]; keys[2][0] ^= 0x80;
    auto s = [](const K& k) { return std::string((const char*)k.data(), 16); };
    for (int i = 0; i < steps && !nfail(); i++) {
        cases()++;
        size_t j = rnd(5);
        const K k = keys[j];
        f->read = rnd(8) ? 0 : 1 + rnd(4); f->write = rnd(8) ? 0 : 1 + rnd(4); f->effect = rnd(2);
        int op = rnd(5);
        at("step " + str(i) + " op " + str(op) + " key " + str(j) + " read " + str(f->read) + " write " + str(f->write));
        bool fail = f->write, rfail = f->read, had = ref.count(s(k));
        if (op == 0) {
            std::string v;
            bool r;
            if (j % 2) { A a; for (auto& b : a) b = rnd(256); v.assign((char*)a.data(), 32); r = w->put(k, a); }
            else { uint64_t x = rng()(); v.assign((char*)&x, 8); r = w->put(k, x); }
            EXPECT(r == !fail, "put", "a put succeeds iff the write does");
            if (!fail || f->effect) ref[s(k)] = v;
        } else if (op == 1) {
            bool r = rnd(2) ? w->remove(k) : w->remove(k.data(), 16);
            EXPECT(r == !fail, "remove", "a removal succeeds iff the write does");
            if (!fail || f->effect) ref.erase(s(k));
        } else if (op == 2) {
            // a shorter key is another key
            uint8_t n = rnd(16);
            w->remove(k.data(), n);
            uint64_t v = 5;
            f->read = 0;
            EXPECT(!w->get(k.data(), n, v) && v == 5, "length", "a key that is a prefix of a stored key is absent");
        } else {
            bool r;
            if (j % 2) { A a; a.fill(9); r = rnd(2) ? w->get(k, a) : w->get(k.data(), (uint8_t)16, a); A z; z.fill(9);
                if (r) EXPECT(had && !memcmp(a.data(), ref[s(k)].data(), 32), "get-value", "a get returns the stored bytes"); else EXPECT(a == z, "get-alone", "a failed get leaves the output alone"); }
            else { uint64_t x = 9; r = rnd(2) ? w->get(k, x) : w->get(k.data(), (uint8_t)16, x);
                if (r) EXPECT(had && !memcmp(&x, ref[s(k)].data(), 8), "get-value", "a get returns the stored bytes"); else EXPECT(x == 9, "get-alone", "a failed get leaves the output alone"); }
            EXPECT(r == (had && !rfail), "get-found", "a key is found iff it is present");
            std::string sk = s(k), out = "old";
            f->read = 0;
            r = w->get(sk, out);
            EXPECT(r == had && out == (had ? ref[sk] : std::string("old")), "get-string", "the string overload returns the stored bytes");
        }
    }
    w.reset();
    rocksdb::DestroyDB(path, rocksdb::Options());
}
namespace sse { namespace sophos {
template<> struct serialization<uint32_t> {
    std::string serialize(const uint32_t& x) { std::string s(1, char(1 + x % 7)); s += std::to_string(x); s[0] = char(s.size()); return s; }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, uint32_t& out)
    { if (b == e) return false; int n = (unsigned char)*b; if (e - b < n) return false; out = std::stoul(std::string(b + 1, b + n)); b += n; return true; }
};
}}
void lists(int steps)
{
    std::string path = "ls" + str(rnd(1u << 30));
    using K = std::array<uint8_t, 16>;
    std::map<int, std::list<uint32_t>> ref;
    auto w = std::make_unique<RockDBListStore<uint32_t>>(path);
    Faulty* f = wrap(*w);
    serialization<uint32_t> ser;
    std::vector<K> keys(4);
    for (auto& k : keys) for (auto& b : k) b = rnd(256);
    for (int i = 0; i < steps && !nfail(); i++) {
        cases()++;
        int j = rnd(4);
        at("step " + str(i));
        f->read = rnd(8) ? 0 : 1 + rnd(4); f->write = rnd(8) ? 0 : 1 + rnd(4); f->effect = rnd(2);
        bool fail = f->write, rfail = f->read;
        if (rnd(3) == 0) {
            std::list<uint32_t> l(rnd(3) ? rnd(6) : rnd(200));
            for (auto& x : l) x = rnd(2) ? rnd(100) : rnd(1u << 31);
            bool r = rnd(2) ? w->put(keys[j], l, ser) : w->put(keys[j], l);
            EXPECT(r == !fail, "put", "a put succeeds iff the write does");
            if (!fail || f->effect) ref[j] = l;
        } else {
            std::list<uint32_t> l = {1, 2, 3};
            bool r, had = ref.count(j);
            switch (rnd(4)) {
            case 0: r = w->get(keys[j], l); break;
            case 1: r = w->get(keys[j], l, ser); break;
            case 2: r = w->get(keys[j].data(), 16, l, ser); break;
            default: r = w->get(std::string((char*)keys[j].data(), 16), l, ser);
            }
            EXPECT(r == (had && !rfail), "found", "a list is found iff it is present");
            EXPECT(l == (r ? ref[j] : std::list<uint32_t>()), "list", "the list read is the last list written, in order");
        }
    }
    w.reset();
    rocksdb::DestroyDB(path, rocksdb::Options());
}
int main(int, char** argv)
{
    std::string pid = argv[1];
    rng().seed(strtoull(argv[2], 0, 10));
    bool th = !strcmp(argv[3], "thorough");
    sse::logger::set_logger(std::make_shared<spdlog::logger>("none"));
    for (int i = 0; i < (th ? 30 : 3) && !nfail(); i++) {
        if (pid == "P15") counters(400, 1);
        else { kv(300); lists(200); }
    }
    return done();
}
