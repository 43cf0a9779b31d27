// concrete histories of the thread pool (P22): bounded, never counted as proved
#include "common.hpp"
#include <sse/schemes/utils/thread_pool.hpp>
#include <atomic>
#include <chrono>
#include <iostream>
#include <memory>
using namespace h;

static std::atomic<bool> g_over{false};
static std::atomic<int>  g_step{0};

struct Err : std::runtime_error { int id; explicit Err(int i) : std::runtime_error("task"), id(i) {} };
struct Counted {
    std::atomic<int>* runs; int id; unsigned spin;
    int operator()(int x) const
    {
        for (volatile unsigned i = 0; i < spin; ++i) {}
        runs->fetch_add(1);
        if (id % 5 == 3) throw Err(id);
        return id * 3 + x;
    }
};

// n tasks from s submitters, w workers; join while tasks are still queued
static void history(unsigned w, unsigned s, unsigned n, unsigned spin, int how)
{
    at("workers=" + str(w) + " submitters=" + str(s) + " tasks=" + str(n) + " spin=" + str(spin) + " how=" + str(how));
    cases()++;
    std::unique_ptr<std::atomic<int>[]> runs(new std::atomic<int>[s * n + 1]);
    for (unsigned i = 0; i <= s * n; ++i) runs[i] = 0;
    std::vector<std::future<int>> fut(s * n);
    std::vector<char> accepted(s * n, 0);
    {
        std::unique_ptr<ThreadPool> pool(new ThreadPool(w));
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> sub;
        for (unsigned t = 0; t < s; ++t)
            sub.emplace_back([&, t] {
                ready++;
                while (ready < s) {}
                for (unsigned i = 0; i < n; ++i) {
                    unsigned id = t * n + i;
                    try {
                        fut[id] = pool->enqueue(Counted{&runs[id], int(id), spin}, int(i));
                        accepted[id] = 1;
                    } catch (const std::runtime_error&) {
                    }
                }
            });
        if (how == 2) {   // stop under the submitters' feet
            std::this_thread::sleep_for(std::chrono::microseconds(rnd(200)));
            pool->join();
        }
        for (auto& t : sub) t.join();
        if (how == 1) pool->join();
        if (how >= 1) {
            for (unsigned i = 0; i < s * n; ++i)
                if (accepted[i]) EXPECT(runs[i] == 1, "join", "join waits for all accepted tasks: task " + str(i) + " ran " + str(runs[i].load()) + " times");
            std::atomic<int>* extra = &runs[s * n];
            EXPECT(throws([&] { pool->enqueue(Counted{extra, 1, 0}, 1); }), "refuse", "a stopped pool refuses tasks");
            if (how == 2) pool->join();   // joining twice is harmless
        }
        if (how == 0 && spin == 0)
            for (unsigned i = 0; i < s * n; ++i) fut[i].wait();
    }
    EXPECT(runs[s * n] == 0, "refuse", "a refused task never runs");
    unsigned acc = 0;
    for (unsigned i = 0; i < s * n; ++i) {
        EXPECT(runs[i] == int(accepted[i]), "once", "an accepted task runs exactly once, a refused one never: task " + str(i) + " ran " + str(runs[i].load()));
        if (!accepted[i]) { EXPECT(how == 2, "accept", "a running pool accepts tasks"); continue; }
        acc++;
        if (fut[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) { fail("future", "the result of task " + str(i) + " never arrives"); continue; }
        try {
            int v = fut[i].get();
            EXPECT(i % 5 != 3 && v == int(i * 3 + i % n), "result", "the future delivers the task's result");
        } catch (const Err& e) {
            EXPECT(i % 5 == 3 && e.id == int(i), "exception", "the future delivers the task's exception");
        } catch (...) {
            fail("exception", "another exception arrives");
        }
    }
    sample(cur() + " accepted=" + str(acc));
}

int main(int c, char** v)
{
    (void)c;
    rng().seed(std::strtoull(v[2], nullptr, 10));
    bool deep = std::string(v[3]) == "thorough";
    std::ostringstream sink;
    auto* old = std::cout.rdbuf(sink.rdbuf());
    std::thread dog([&] {
        int last = -1, same = 0;
        while (!g_over) {
            std::this_thread::sleep_for(std::chrono::milliseconds(100));
            int s = g_step;
            same = s == last ? same + 1 : 0;
            last = s;
            if (same > 300) { std::printf("FAIL hang no progress for 30 s [case: %s]\n", cur().c_str()); std::fflush(stdout); std::_Exit(1); }
        }
    });
    unsigned reps = deep ? 400 : 60;
    for (unsigned r = 0; r < reps; ++r) {
        history(1 + unsigned(rnd(8)), 1 + unsigned(rnd(4)), 1 + unsigned(rnd(r % 7 == 0 ? 400 : 30)), rnd(2) ? 0 : unsigned(rnd(3000)), int(rnd(3)));
        g_step++;
    }
    // two tasks that need each other run on two workers
    for (unsigned r = 0; r < (deep ? 200u : 30u); ++r) {
        at("rendezvous of " + str(2 + r % 3) + " tasks");
        cases()++;
        unsigned k = 2 + r % 3;
        ThreadPool p(k);
        std::atomic<unsigned> in{0};
        std::vector<std::future<void>> f;
        for (unsigned i = 0; i < k; ++i)
            f.push_back(p.enqueue([&] { in++; while (in < k) std::this_thread::yield(); }));
        for (auto& x : f) x.get();
        g_step++;
    }
    // tasks submitted by tasks, arguments moved into the pool
    for (unsigned r = 0; r < 20; ++r) {
        at("nested");
        cases()++;
        std::atomic<int> n{0};
        {
            ThreadPool p(2);
            std::vector<std::future<std::future<std::string>>> f;
            for (int i = 0; i < 10; ++i)
                f.push_back(p.enqueue([&p, &n](int j) { n++; return p.enqueue([&n](const std::string& s) { n++; return s + "!"; }, std::string(size_t(j), 'a')); }, i));
            for (int i = 0; i < 10; ++i) EXPECT(f[size_t(i)].get().get() == std::string(size_t(i), 'a') + "!", "result", "nested results arrive");
        }
        EXPECT(n == 20, "once", "nested tasks run once");
        g_step++;
    }
    g_over = true;
    dog.join();
    std::cout.rdbuf(old);
    return done();
}
