// Random histories of the append-only vector (P14) against a reference list,
// with the libaio, thread-pool and a fault-injecting scheduler.
#include "common.hpp"
#include <sse/schemes/abstractio/awonvm_vector.hpp>
#include <array>
#include <atomic>
#include <iostream>
#include <memory>
#include <thread>
#include <mutex>
#include <fcntl.h>
using namespace h;
using namespace sse::abstractio;

struct alignas(4096) Elt {
    std::array<uint64_t, 512> w;
    static Elt make(uint64_t x) { Elt e; for (size_t i = 0; i < 512; i++) e.w[i] = x * 0x9E3779B97F4A7C15ull + i; return e; }
    bool operator==(const Elt& o) const { return w == o.w; }
};
static uint64_t mk(uint64_t, uint64_t x) { return x * 0x9E3779B97F4A7C15ull + 1; }
static Elt mk(const Elt&, uint64_t x) { return Elt::make(x); }

// completes requests on the calling thread at the end (in reverse order), and
// rejects the request number `reject`
struct Lazy : Scheduler {
    struct Q { bool wr; int fd; void* buf; size_t len; off_t off; void* data; scheduler_callback_type cb; };
    std::vector<Q> q;
    int reject, n = 0;
    explicit Lazy(int r) : reject(r) {}
    ~Lazy() { wait_completions(); }
    void wait_completions() override
    {
        auto w = std::move(q);
        q.clear();
        for (size_t i = w.size(); i-- > 0;) {
            auto& x = w[i];
            ssize_t r = x.wr ? pwrite(x.fd, x.buf, x.len, x.off) : pread(x.fd, x.buf, x.len, x.off);
            x.cb(x.data, r);
        }
    }
    int add(bool wr, int fd, void* b, size_t l, off_t o, void* d, scheduler_callback_type c)
    {
        if (n++ == reject) return -EAGAIN;
        q.push_back({wr, fd, b, l, o, d, std::move(c)});
        return 1;
    }
    int submit_pread(int fd, void* b, size_t l, off_t o, void* d, scheduler_callback_type c) override { return add(false, fd, b, l, o, d, std::move(c)); }
    int submit_pwrite(int fd, void* b, size_t l, off_t o, void* d, scheduler_callback_type c) override { return add(true, fd, b, l, o, d, std::move(c)); }
    Scheduler* duplicate() const override { return new Lazy(-1); }
};

template<class T, size_t A> void history(int kind, int n, std::ostringstream& hist)
{
    using V = awonvm_vector<T, A>;
    std::string path = "vec" + str(rnd(1ull << 40));
    bool direct = A >= 512 && rnd(2);
    if (direct) { int fd = open("probe", O_CREAT | O_RDWR | O_DIRECT, 0644); if (fd < 0) direct = false; else ::close(fd); }
    std::vector<uint64_t> ref;
    T proto{};
    uint64_t next = rnd(1000);
    int reject = kind == 3 && rnd(2) ? (int)rnd(n + 2) : -1;
    auto open_v = [&]() -> V* {
        if (kind == 0) return new V(path, direct);
        std::unique_ptr<Scheduler> s;
        if (kind == 1) s.reset(make_thread_pool_aio_scheduler());
        if (kind == 3) s.reset(new Lazy(reject));
        return new V(path, std::move(s), direct);
    };
    hist << "kind" << kind << (direct ? "d" : "b") << A << " n=" << n << " reject=" << reject << ": ";
    bool failed = false;
    {
        std::unique_ptr<V> v(open_v());
        EXPECT(v->size() == 0 && !v->is_committed(), "open-empty", "a new file opens empty and uncommitted");
        if (rnd(3) == 0) { size_t r = rnd(2) ? n : rnd(2 * n + 2); v->reserve(r); hist << "reserve" << r << " "; }
        for (int i = 0; i < n; i++) {
            uint64_t x = next++;
            alignas(A) T e = mk(proto, x);
            bool async = kind != 2 && (A >= 512 || kind != 0) && rnd(2);
            hist << (async ? "a" : "s");
            at(hist.str());
            size_t pos;
            try { pos = async ? v->async_push_back(e) : v->push_back(e); }
            catch (const std::exception&) { EXPECT(reject >= 0, "append", "appends succeed"); failed = true; break; }
            e = mk(proto, 77777);
            EXPECT(pos == ref.size(), "append-position", "positions are consecutive");
            ref.push_back(x);
            if (rnd(8) == 0) { EXPECT(v->size() == ref.size(), "append-size", "the size counts appends"); EXPECT(throws([&] { v->get(0); }), "read-uncommitted", "an uncommitted vector is not read"); }
            if (rnd(10) == 0) { V w(std::move(*v)); hist << "m"; at(hist.str()); EXPECT(w.size() == ref.size() && v->size() == 0, "move-size", "moving transfers the contents"); EXPECT(throws([&] { v->push_back(e); }), "move-source", "the source does not take elements"); v.reset(new V(std::move(w))); }
            if (rnd(12) == 0) { bool f = rnd(2) && direct; hist << "D" << f; at(hist.str()); v->set_use_direct_access(f); }
            cases()++;
        }
        if (failed) return;
        if (rnd(2)) { hist << "c"; at(hist.str()); v->commit(); EXPECT(v->is_committed(), "commit", "commit commits"); alignas(A) T e = mk(proto, 5); EXPECT(throws([&] { v->push_back(e); }), "append-committed", "no append after commit"); EXPECT(throws([&] { v->async_push_back(e); }), "append-committed", "no append after commit"); EXPECT(v->size() == ref.size(), "commit-size", "rejected appends leave the size alone"); }
        if (rnd(2)) { hist << "R"; at(hist.str()); v.reset(); v.reset(open_v()); EXPECT(v->is_committed() == !ref.empty(), "reopen", "a file with elements opens committed"); if (ref.empty()) v->commit(); }
        if (!v->is_committed()) v->commit();
        EXPECT(v->size() == ref.size(), "size", "the size is the number of elements");
        for (int i = 0; i < 2 * n + 2 && !nfail(); i++) {
            size_t ix = rnd(8) ? rnd(ref.size()) : ref.size() + rnd(3) * rnd(1ull << 61);
            bool in = ix < ref.size();
            int mode = kind >= 2 || (kind == 0 && A < 512) ? 0 : rnd(3);
            hist << " g" << mode << ":" << ix;
            at(hist.str().size() > 700 ? hist.str().substr(hist.str().size() - 700) : hist.str());
            cases()++;
            if (mode == 0) {
                bool got = false; T e{};
                try { e = v->get(ix); got = true; } catch (const std::exception&) {}
                EXPECT(got == in, "bounds", "exactly the positions below the size are read");
                if (got) EXPECT(e == mk(proto, ref[ix]), "read", "the element read is the one appended");
            } else if (mode == 1) {
                std::atomic<int> calls{0}; bool good = false;
                bool thr = throws([&] { v->async_get(ix, [&](std::unique_ptr<T> p) { good = p && *p == mk(proto, ref[ix]); if (p) free(p.release()); calls++; }); });
                if (in && !thr) for (int k = 0; k < 5000 && !calls; k++) usleep(1000);
                EXPECT(thr == !in, "bounds", "exactly the positions below the size are read"); EXPECT(calls == (in ? 1 : 0), "async-once", "an accepted read calls back once"); if (in) EXPECT(good, "async-read", "the element delivered is the one appended");
            } else {
                size_t m = rnd(6);
                std::vector<std::atomic<int>> calls(m); std::vector<int> good(m, 0); std::vector<size_t> ixs(m);
                std::vector<typename V::GetRequest> reqs;
                bool allin = true;
                for (size_t j = 0; j < m; j++) {
                    ixs[j] = rnd(20) ? rnd(ref.size()) : ref.size() + rnd(2); allin = allin && ixs[j] < ref.size();
                    reqs.emplace_back(ixs[j], [&, j](std::unique_ptr<T> p) { good[j] = p && ixs[j] < ref.size() && *p == mk(proto, ref[ixs[j]]); if (p) free(p.release()); calls[j]++; });
                }
                bool thr = throws([&] { v->async_gets(reqs); });
                for (int k = 0; k < 5000; k++) { bool all = true; for (auto& c : calls) all = all && c; if (all || thr) break; usleep(1000); }
                EXPECT(thr == !allin, "bounds", "a batch is read iff all positions are below the size");
                if (!thr) for (size_t j = 0; j < m; j++) { EXPECT(calls[j] == 1, "async-once", "an accepted read calls back once"); EXPECT(good[j], "async-read", "the element delivered is the one appended"); }
            }
        }
        if (kind == 3 && !ref.empty() && !nfail()) {
            // a batch of which some request is rejected
            size_t m = 1 + rnd(6), rj = rnd(m + 1);
            std::vector<int> calls(m, 0), good(m, 0);
            std::vector<size_t> ixs(m);
            auto* lz = new Lazy(rj < m ? (int)rj : -1);
            v.reset(new V(path, std::unique_ptr<Scheduler>(lz), false));
            std::vector<typename V::GetRequest> reqs;
            for (size_t j = 0; j < m; j++) { ixs[j] = rnd(ref.size()); reqs.emplace_back(ixs[j], [&, j](std::unique_ptr<T> p) { calls[j]++; good[j] = p && *p == mk(proto, ref[ixs[j]]); if (p) free(p.release()); }); }
            hist << " batch" << m << " rejected" << rj; at(hist.str());
            bool thr = throws([&] { v->async_gets(reqs); });
            lz->wait_completions();
            EXPECT(thr == (rj < m), "batch-reject", "a rejected request is reported");
            for (size_t j = 0; j < m; j++) { EXPECT(calls[j] == (j < rj ? 1 : 0), "batch-once", "exactly the accepted requests call back"); if (calls[j]) EXPECT(good[j], "batch-read", "the element delivered is the one appended"); }
        }
        if (rnd(3) == 0) v.reset();
    }
    unlink(path.c_str());
}

int main(int argc, char** argv)
{
    rng().seed(std::stoull(argv[2]) * 7919 + 13);
    bool thorough = std::string(argv[3]) == "thorough";
    int rounds = thorough ? 400 : 80;
    bool aio = true;
    try { std::unique_ptr<Scheduler> s(make_default_aio_scheduler(4096)); } catch (const std::exception&) { aio = false; }
    auto* eb = std::cerr.rdbuf(nullptr);
    for (int i = 0; i < rounds && !nfail(); i++) {
        std::ostringstream hs;
        int kind = i % 4, n = rnd(4) ? rnd(12) : rnd(60);
        if (kind == 0 && (i % 8 || !aio)) kind = 1 + rnd(3);
        if (rnd(2)) history<uint64_t, 8>(kind, n, hs); else history<Elt, 4096>(kind, n, hs);
        sample(hs.str().substr(0, 200));
    }
    std::cerr.rdbuf(eb);
    int r = done();
    fflush(stdout);
    _exit(r);
}
