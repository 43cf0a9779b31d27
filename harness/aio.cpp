// concrete histories of the I/O schedulers (P23) against a fake kernel with
// partial submissions, errors and arbitrary completion orders: bounded, never
// counted as proved
#include "common.hpp"
#include "abstractio/linux_aio_scheduler.hpp"
#include "abstractio/thread_pool_aio_scheduler.hpp"
#include <atomic>
#include <chrono>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <mutex>
#include <unistd.h>
using namespace h;
using namespace sse::abstractio;

static std::atomic<bool> g_over{false};
static std::atomic<int>  g_step{0};

// ------------------------------------------------------------ fake kernel
struct Op { void* data; int opc; int fd; void* buf; size_t len; long long off; long res; };
static std::mutex g_k;
static std::mt19937_64 g_kr;
static std::vector<Op> g_ops;                 // accepted, not reaped
static int g_pe, g_pa, g_pp, g_pg;            // chances (%) of error, EAGAIN, partial, getevents error
static size_t g_acc = 0;
static std::map<void*, long> g_res;           // buffer -> result given
static unsigned kr(unsigned n) { return unsigned(g_kr() % n); }

extern "C" {
int io_setup(int, io_context_t* c) { *c = reinterpret_cast<io_context_t>(0x1000); return 0; }
int io_destroy(io_context_t)
{
    std::lock_guard<std::mutex> l(g_k);
    EXPECT(g_ops.empty(), "destroy", "the kernel queue is destroyed after all requests have completed");
    return 0;
}
int io_submit(io_context_t, long nr, struct iocb** p)
{
    std::lock_guard<std::mutex> l(g_k);
    if (int(kr(100)) < g_pe) return -EINVAL;
    if (int(kr(100)) < g_pa) return -EAGAIN;
    long n = nr;
    if (nr > 1 && int(kr(100)) < g_pp) n = 1 + kr(unsigned(nr));
    for (long i = 0; i < n; ++i) {
        struct iocb* b = p[i];
        long res = kr(10) == 0 ? -5 : kr(10) == 0 ? long(kr(unsigned(b->u.c.nbytes) + 1)) : long(b->u.c.nbytes);
        g_ops.push_back({b->data, b->aio_lio_opcode, int(b->aio_fildes), b->u.c.buf, size_t(b->u.c.nbytes), b->u.c.offset, res});
        g_res[b->u.c.buf] = res;
        g_acc++;
    }
    return int(n);
}
int io_getevents(io_context_t, long, long nr, struct io_event* ev, struct timespec*)
{
    for (int t = 0; t < 20; ++t) {
        {
            std::lock_guard<std::mutex> l(g_k);
            if (int(kr(100)) < g_pg) return kr(2) ? -EINTR : -EINVAL;
            if (!g_ops.empty()) {
                long n = 1 + kr(unsigned(std::min<size_t>(size_t(nr), g_ops.size())));
                for (long i = 0; i < n; ++i) {
                    size_t k = kr(unsigned(g_ops.size()));
                    Op o = g_ops[k];
                    g_ops.erase(g_ops.begin() + long(k));
                    std::memset(&ev[i], 0, sizeof ev[i]);
                    ev[i].data = o.data;
                    ev[i].res = (unsigned long)o.res;
                }
                return int(n);
            }
        }
        std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    return 0;
}
}

struct Rec { std::atomic<int> calls{0}; std::atomic<long> res{0}; std::atomic<void*> data{nullptr}; bool accepted{false}; void* buf{nullptr}; void* want{nullptr}; size_t len{0}; long long off{0}; int op{0}; };

static void linux_history(int mode)
{
    g_pe = mode & 1 ? 8 : 0; g_pa = mode & 2 ? 25 : 0; g_pp = mode & 4 ? 60 : 0; g_pg = mode & 8 ? 15 : 0;
    at("linux error%=" + str(g_pe) + " again%=" + str(g_pa) + " partial%=" + str(g_pp) + " getevents-error%=" + str(g_pg));
    cases()++;
    { std::lock_guard<std::mutex> l(g_k); g_ops.clear(); g_res.clear(); g_acc = 0; g_kr.seed(rnd(1u << 30)); }
    unsigned n = 20 + unsigned(rnd(60));
    std::vector<std::unique_ptr<Rec>> rs;
    char* area = static_cast<char*>(aligned_alloc(4096, size_t(n + 1) * 4096));
    size_t nacc = 0, ncalls_at_wait = 0;
    {
        LinuxAIOScheduler s(4096, 64);
        auto make = [&](bool bad) {
            rs.emplace_back(new Rec);
            Rec* r = rs.back().get();
            r->buf = area + 4096 * (rs.size() - 1) + (bad && rnd(2) ? 8 : 0);
            r->len = 512 * (1 + rnd(4)) + (bad && r->buf == area + 4096 * (rs.size() - 1) ? 1 : 0);
            r->off = (long long)(512 * rnd(50));
            r->want = reinterpret_cast<void*>(uintptr_t(0x5000 + rs.size()));
            return r;
        };
        auto cb = [](Rec* r) { return [r](void* d, int64_t v) { r->calls++; r->res = v; r->data = d; }; };
        while (rs.size() < n) {
            size_t before; { std::lock_guard<std::mutex> l(g_k); before = g_acc; }
            if (rnd(3)) {
                Rec* r = make(rnd(6) == 0);
                r->op = int(rnd(2));
                int v = r->op ? s.submit_pwrite(3, r->buf, r->len, r->off, r->want, cb(r)) : s.submit_pread(3, r->buf, r->len, r->off, r->want, cb(r));
                size_t after; { std::lock_guard<std::mutex> l(g_k); after = g_acc; }
                r->accepted = v == 1;
                EXPECT((v == 1) == (after == before + 1), "report", "the result 1 means that the request was accepted: " + str(v));
            } else {
                std::vector<Scheduler::PReadSumission> b;
                std::vector<Rec*> br;
                unsigned k = 1 + unsigned(rnd(std::min<size_t>(8, n - rs.size())));
                for (unsigned i = 0; i < k; ++i) {
                    Rec* r = make(rnd(12) == 0);
                    br.push_back(r);
                    b.emplace_back(3, r->buf, r->len, size_t(r->off), r->want, cb(r));
                }
                int v = s.submit_preads(b);
                size_t after; { std::lock_guard<std::mutex> l(g_k); after = g_acc; }
                EXPECT(size_t(v < 0 ? 0 : v) == after - before, "report", "the result of a batch is the number of accepted requests: " + str(v) + " of " + str(k) + ", accepted " + str(after - before));
                for (unsigned i = 0; i < k; ++i) br[i]->accepted = int(i) < v;
            }
            if (rnd(8) == 0) std::this_thread::yield();
        }
        s.wait_completions();
        for (auto& r : rs) { nacc += r->accepted; ncalls_at_wait += size_t(r->calls); }
        EXPECT(ncalls_at_wait == nacc, "wait", "waiting returns when all accepted requests have called back");
        Rec late;
        int v = s.submit_pread(3, area, 512, 0, nullptr, [&](void*, int64_t) { late.calls++; });
        EXPECT(v != 1, "stopped", "a stopped scheduler refuses requests");
        EXPECT(late.calls == 0, "stopped", "a refused request never calls back");
    }
    for (size_t i = 0; i < rs.size(); ++i) {
        Rec* r = rs[i].get();
        EXPECT(r->calls == int(r->accepted), "once", "an accepted request calls back exactly once, another never: request " + str(i) + " accepted=" + str(r->accepted) + " calls=" + str(r->calls.load()));
        if (r->calls == 1) {
            EXPECT(r->data == r->want, "data", "the callback gets its own data");
            EXPECT(r->res == g_res[r->buf], "result", "the callback gets the result of its own operation");
        }
    }
    sample(cur() + " requests=" + str(n) + " accepted=" + str(nacc));
    free(area);
    g_step++;
}

static void pool_history()
{
    at("thread pool scheduler");
    cases()++;
    const char* fn = "aio_file";
    int fd = open(fn, O_RDWR | O_CREAT | O_TRUNC, 0600);
    const size_t len = 64;
    unsigned n = 10 + unsigned(rnd(80));
    std::vector<char> img(n * len);
    for (auto& c : img) c = char(rnd(256));
    std::unique_ptr<std::atomic<int>[]> calls(new std::atomic<int>[2 * n]);
    for (unsigned i = 0; i < 2 * n; ++i) calls[i] = 0;
    std::atomic<int> badres{0}, baddata{0};
    {
        std::unique_ptr<Scheduler> s(make_thread_pool_aio_scheduler());
        for (unsigned i = 0; i < n; ++i) {
            int v = s->submit_pwrite(fd, img.data() + i * len, len, off_t(i * len), &calls[i], [&, i](void* d, int64_t r) {
                if (d != &calls[i]) baddata++;
                if (r != int64_t(len)) badres++;
                if (i % 7 == 0) std::this_thread::sleep_for(std::chrono::microseconds(200));
                static_cast<std::atomic<int>*>(d)->fetch_add(1);
            });
            EXPECT(v == 1, "report", "an accepted write returns 1");
        }
        s->wait_completions();
        for (unsigned i = 0; i < n; ++i) EXPECT(calls[i] == 1, "wait", "waiting returns when all writes have called back");
        std::vector<char> back(n * len + 1000, 0);
        std::vector<Scheduler::PReadSumission> b;
        for (unsigned i = 0; i < n; ++i) {
            unsigned j = n + i;
            size_t l = i + 1 == n ? len + 500 : len;      // past the end: a short read
            b.emplace_back(fd, back.data() + i * len, l, i * len, &calls[j], [&, j](void* d, int64_t r) {
                if (d != &calls[j]) baddata++;
                if (r != int64_t(len)) badres++;
                static_cast<std::atomic<int>*>(d)->fetch_add(1);
            });
        }
        int v = s->submit_preads(b);
        EXPECT(v == int(n), "report", "all reads are accepted");
        std::atomic<int> failcalls{0}, failres{0};
        int w = s->submit_pread(-1, back.data(), 8, 0, nullptr, [&](void*, int64_t r) { failcalls++; failres = int(r); });
        std::unique_ptr<Scheduler> s2(s->duplicate());
        std::atomic<int> own{0};
        s2->submit_pread(fd, img.data(), 0, 0, nullptr, [&](void*, int64_t) { own++; });
        s2.reset();
        EXPECT(own == 1, "wait", "destruction waits for the requests");
        s.reset();
        EXPECT(w != 1 || (failcalls == 1 && failres == -1), "result", "a failed read reports its error");
        EXPECT(std::memcmp(back.data(), img.data(), n * len) == 0, "args", "reads and writes have the arguments asked for");
    }
    for (unsigned i = 0; i < 2 * n; ++i) EXPECT(calls[i] == 1, "once", "every request calls back exactly once");
    EXPECT(badres == 0, "result", "the callback gets the result of its own operation");
    EXPECT(baddata == 0, "data", "the callback gets its own data");
    close(fd);
    unlink(fn);
    g_step++;
}

int main(int, char** v)
{
    rng().seed(std::strtoull(v[2], nullptr, 10));
    bool deep = std::string(v[3]) == "thorough";
    std::ostringstream sink;
    auto* old = std::cerr.rdbuf(sink.rdbuf());
    std::thread dog([&] {
        int last = -1, same = 0;
        while (!g_over) {
            std::this_thread::sleep_for(std::chrono::milliseconds(100));
            int s = g_step;
            same = s == last ? same + 1 : 0;
            last = s;
            if (same > 300) { std::printf("FAIL hang no progress for 30 s [case: %s]\n", cur().c_str()); std::fflush(stdout); std::_Exit(1); }
        }
    });
    for (unsigned r = 0; r < (deep ? 30u : 4u); ++r)
        for (int m = 0; m < 16; ++m) linux_history(m);
    for (unsigned r = 0; r < (deep ? 150u : 20u); ++r) pool_history();
    g_over = true;
    dog.join();
    std::cerr.rdbuf(old);
    return done();
}
