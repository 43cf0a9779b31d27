// Concrete runs of TethysGraph / TethysAllocator against the contracts as oracle.
#include "common.hpp"
#include <sse/schemes/tethys/details/tethys_allocator.hpp>
#include <sse/schemes/tethys/details/tethys_graph.hpp>
#include <iostream>
#include <queue>
#include <unistd.h>
#include <fcntl.h>
using namespace sse::tethys::details;
using namespace h;

struct E { size_t v, cap, s, t; };   // s/t: index, or S/T
static const size_t S = ~0UL - 2, T = ~0UL - 1;
struct G { size_t n; std::vector<E> es; };

static std::string show(const G& g)
{
    std::ostringstream o;
    o << "n=" << g.n << " edges:";
    auto nm = [](size_t x) { return x == S ? std::string("S") : x == T ? std::string("T") : std::to_string(x); };
    size_t k = 0;
    for (auto& e : g.es) { if (k++ > 60) { o << " ..."; break; } o << " " << nm(e.s) << "->" << nm(e.t) << ":" << e.cap; }
    return o.str();
}
static std::vector<EdgePtr> build(TethysGraph& g, const G& d)
{
    std::vector<EdgePtr> r;
    for (auto& e : d.es)
        r.push_back(e.s == S ? g.add_edge_from_source(e.v, e.cap, e.t) : e.t == T ? g.add_edge_to_sink(e.v, e.cap, e.s) : g.add_edge(e.v, e.cap, e.s, e.t));
    return r;
}
static G gen(size_t maxn, size_t maxe, size_t maxcap)
{
    G g;
    g.n = 1 + rnd(maxn);
    size_t m = rnd(maxe + 1);
    int mode = rnd(4);
    auto cap = [&]() -> size_t { return rnd(8) == 0 ? 0 : 1 + rnd(maxcap); };
    for (size_t i = 0; i < m; i++) {
        size_t k = rnd(10);
        size_t a = rnd(g.n), b = rnd(g.n);
        if (mode == 1) b = (a + 1) % g.n;
        if (mode == 2) { a = rnd((g.n + 1) / 2); b = rnd((g.n + 1) / 2); }   // isolated vertices remain
        if (k < 2) g.es.push_back({i, cap(), S, a});
        else if (k < 4) g.es.push_back({i, cap(), b, T});
        else if (k == 4) g.es.push_back({i, cap(), a, a});
        else g.es.push_back({i, cap(), a, b});
    }
    return g;
}
// reference: Edmonds-Karp on an adjacency list
static unsigned __int128 refmax(const G& g)
{
    size_t N = g.n + 2;
    auto id = [&](size_t x) { return x == S ? g.n : x == T ? g.n + 1 : x; };
    struct A { size_t to; size_t c; size_t r; };
    std::vector<std::vector<A>> ad(N);
    for (auto& e : g.es) {
        size_t a = id(e.s), b = id(e.t);
        if (a == b) continue;
        ad[a].push_back({b, e.cap, ad[b].size()});
        ad[b].push_back({a, 0, ad[a].size() - 1});
    }
    unsigned __int128 f = 0;
    while (true) {
        std::vector<std::pair<size_t, size_t>> par(N, {~0UL, 0});
        std::queue<size_t> q;
        q.push(g.n);
        par[g.n] = {g.n, 0};
        while (!q.empty() && par[g.n + 1].first == ~0UL) {
            size_t u = q.front(); q.pop();
            for (size_t i = 0; i < ad[u].size(); i++) if (ad[u][i].c && par[ad[u][i].to].first == ~0UL) { par[ad[u][i].to] = {u, i}; q.push(ad[u][i].to); }
        }
        if (par[g.n + 1].first == ~0UL) return f;
        size_t d = SIZE_MAX;
        for (size_t v = g.n + 1; v != g.n; v = par[v].first) d = std::min(d, ad[par[v].first][par[v].second].c);
        for (size_t v = g.n + 1; v != g.n; v = par[v].first) { A& a = ad[par[v].first][par[v].second]; a.c -= d; ad[a.to][a.r].c += d; }
        f += d;
    }
}
static void p123(const std::string& pid, const G& d, int mode)
{
    at((mode ? "parallel " : "sequential ") + show(d));
    cases()++;
    TethysGraph g(d.n);
    auto ep = build(g, d);
    ThreadPool* tp = nullptr;
    if (mode) {
        static ThreadPool pool(3);
        g.parallel_compute_residual_maxflow(pool);
    } else g.compute_residual_maxflow();
    for (size_t i = 0; i < d.es.size(); i++) {
        const Edge& e = g.get_edge(ep[i]);
        if (pid == "P01") {
            EXPECT((unsigned __int128)e.flow + e.rec_flow == e.capacity, "capacity", "residual + pushed = capacity");
            EXPECT(e.capacity == d.es[i].cap && g.get_edge_capacity(ep[i]) == d.es[i].cap, "capacity-changed", "capacity is the inserted one");
            EXPECT(e.value_index == d.es[i].v && e.start.index == d.es[i].s && e.end.index == d.es[i].t, "edge-changed", "edge keeps its ends");
        }
    }
    // closure of the cut (residual form)
    if (pid == "P03") {
        std::vector<char> seen(d.n, 0);
        std::vector<size_t> st;
        bool sink = false;
        auto visit = [&](size_t x) { if (x == T) sink = true; else if (x != S && !seen[x]) { seen[x] = 1; st.push_back(x); } };
        st.push_back(S);
        std::vector<std::vector<size_t>> inc(d.n);
        std::vector<size_t> sinc;
        for (size_t i = 0; i < d.es.size(); i++) {
            for (size_t x : {d.es[i].s, d.es[i].t}) if (x == S) sinc.push_back(i); else if (x != T) inc[x].push_back(i);
        }
        while (!st.empty()) {
            size_t u = st.back(); st.pop_back();
            for (size_t i : u == S ? sinc : inc[u]) {
                const Edge& e = g.get_edge(ep[i]);
                if (d.es[i].s == u && e.flow > 0) visit(d.es[i].t);
                if (d.es[i].t == u && e.rec_flow > 0) visit(d.es[i].s);
            }
        }
        EXPECT(!sink, "not-maximal", "no augmenting path remains");
    }
    std::vector<size_t> fl(d.es.size()), rf(d.es.size());
    for (size_t i = 0; i < d.es.size(); i++) { fl[i] = g.get_edge(ep[i]).flow; rf[i] = g.get_edge(ep[i]).rec_flow; }
    g.transform_residual_to_flow();
    for (size_t i = 0; i < d.es.size(); i++) {
        const Edge& e = g.get_edge(ep[i]);
        if (pid == "P01" || pid == "P02") {
            EXPECT(e.flow == rf[i], "transform", "flow is the pushed amount");
            EXPECT(e.flow <= e.capacity && g.get_edge_flow(ep[i]) == e.flow, "over-capacity", "0 <= flow <= capacity");
        }
    }
    if (pid == "P02" || pid == "P03") {
        std::vector<unsigned __int128> in(d.n), out(d.n), ci(d.n), co(d.n);
        unsigned __int128 so = 0, ti = 0;
        for (size_t i = 0; i < d.es.size(); i++) {
            size_t f = g.get_edge(ep[i]).flow;
            if (d.es[i].s == S) so += f; else { out[d.es[i].s] += f; co[d.es[i].s] += d.es[i].cap; }
            if (d.es[i].t == T) ti += f; else { in[d.es[i].t] += f; ci[d.es[i].t] += d.es[i].cap; }
        }
        for (size_t v = 0; v < d.n && pid == "P02"; v++) {
            EXPECT(in[v] == out[v], "conservation", "flow in = flow out at " + std::to_string(v));
            EXPECT(g.get_vertex_in_flow(VertexPtr(v)) == in[v] && g.get_vertex_out_flow(VertexPtr(v)) == out[v], "vertex-flow", "vertex flow getters");
            EXPECT(g.get_vertex_in_capacity(VertexPtr(v)) == ci[v] && g.get_vertex_out_capacity(VertexPtr(v)) == co[v], "vertex-capacity", "vertex capacity getters");
        }
        EXPECT(so == ti && g.get_flow() == so, pid == "P02" ? "value" : "flow-value", "flow value = source out = sink in");
        if (pid == "P03") {
            auto r = refmax(d);
            EXPECT(r == so, "not-maximum", "flow value " + std::to_string((size_t)so) + " vs maximum " + std::to_string((size_t)r));
        }
    }
}
// path search contract, on arbitrary residual states reached by augmentation
static bool reach(const TethysGraph& g, const G& d, const std::vector<EdgePtr>& ep, size_t comp, const std::vector<size_t>& label)
{
    std::vector<char> seen(d.n, 0);
    std::vector<size_t> st{S};
    while (!st.empty()) {
        size_t u = st.back(); st.pop_back();
        for (size_t i = 0; i < d.es.size(); i++) {
            const Edge& e = g.get_edge(ep[i]);
            auto go = [&](size_t w) { if (w == T) return true; if (w != S && !seen[w] && label[w] == comp) { seen[w] = 1; st.push_back(w); } return false; };
            if (d.es[i].s == u && e.flow > 0 && go(d.es[i].t)) return true;
            if (d.es[i].t == u && e.rec_flow > 0 && go(d.es[i].s)) return true;
        }
    }
    return false;
}
static void p4(const G& d, bool comps)
{
    at((comps ? "components " : "whole ") + show(d));
    cases()++;
    TethysGraph g(d.n);
    auto ep = build(g, d);
    std::vector<size_t> label(d.n, 0);
    size_t nc = 0;
    if (comps) {
        g.compute_connected_components();
        for (size_t v = 0; v < d.n; v++) { label[v] = g.get_vertex(VertexPtr(v)).component; nc = std::max(nc, label[v]); }
        for (auto& e : d.es) if (e.s != S && e.t != T) EXPECT(label[e.s] == label[e.t], "component", "adjacent vertices share a component");
    }
    std::map<size_t, size_t> pos;
    for (size_t i = 0; i < ep.size(); i++) { EXPECT(ep[i].index == i && !ep[i].is_reciprocal, "edge-ptr", "edges are numbered in order"); pos[ep[i].index] = i; }
    for (size_t c = 0; c <= nc; c++)
        for (int step = 0; step < 400; step++) {
            size_t f = 0xdead;
            std::vector<size_t> bf, br;
            for (auto p : ep) { bf.push_back(g.get_edge(p).flow); br.push_back(g.get_edge(p).rec_flow); }
            bool can = reach(g, d, ep, c, label);
            auto path = rnd(4) ? g.find_source_sink_path(c, &f) : (g.find_source_sink_path(c, nullptr), g.find_source_sink_path(c, &f));
            for (size_t i = 0; i < ep.size(); i++) EXPECT(g.get_edge(ep[i]).flow == bf[i] && g.get_edge(ep[i]).rec_flow == br[i], "search-writes", "the search changes no flow");
            EXPECT(path.empty() == !can, "completeness", "a path is returned exactly when one exists");
            if (path.empty()) { EXPECT(f == 0, "empty-flow", "no path means flow 0"); break; }
            size_t mn = SIZE_MAX, at_ = S;
            std::set<size_t> vs;
            bool bad = false;
            for (auto p : path) {
                if (pos.find(p.index) == pos.end()) { fail("path-edge", "path edge out of range"); bad = true; break; }
                size_t i = pos[p.index];
                size_t a = p.is_reciprocal ? d.es[i].t : d.es[i].s, b = p.is_reciprocal ? d.es[i].s : d.es[i].t;
                size_t r = p.is_reciprocal ? br[i] : bf[i];
                EXPECT(r > 0, "path-residual", "path edges have positive residual");
                EXPECT(a == at_, "path-connected", "path edges are consecutive from the source");
                if (a != S) EXPECT(label[a] == c, "path-component", "path stays in its component");
                EXPECT(vs.insert(a).second, "path-simple", "path is simple");
                at_ = b;
                mn = std::min(mn, r);
            }
            if (bad) break;
            EXPECT(at_ == T, "path-end", "path ends at the sink");
            EXPECT(mn == f, "path-flow", "reported flow is the bottleneck");
            size_t push = rnd(3) ? mn : 1 + rnd(mn);
            for (auto p : path) {
                Edge& e = g.get_edge(p);
                if (p.is_reciprocal) { e.flow += push; e.rec_flow -= push; } else { e.flow -= push; e.rec_flow += push; }
            }
            if (nfail() > 20) return;
        }
}
static void p5(const G& d)
{
    at("lifecycle " + show(d));
    cases()++;
    EXPECT(throws([] { TethysGraph z(0); }), "empty-graph", "a graph of size 0 is refused");
    TethysGraph g(d.n), same(d.n);
    auto ep = build(g, d);
    build(same, d);
    EXPECT(g == same, "equal", "equal constructions are equal");
    size_t bad[] = {d.n, d.n + 1, S, T, ~0UL};
    for (size_t b : bad) {
        EXPECT(throws([&] { g.add_edge(0, 1, b, 0); }) && throws([&] { g.add_edge(0, 1, 0, b); }) && throws([&] { g.add_edge_from_source(0, 1, b); })
                   && throws([&] { g.add_edge_to_sink(0, 1, b); }), "range", "out of range vertices are refused");
        EXPECT(g == same, "refusal-changes", "a refused insertion changes nothing");
    }
    auto early = [&] {
        EXPECT(throws([&] { g.get_flow(); }) && throws([&] { g.get_vertex_in_flow(VertexPtr(0)); }) && throws([&] { g.get_vertex_out_flow(VertexPtr(0)); }), "early-flow", "flow refused before the max flow");
        if (!ep.empty()) EXPECT(throws([&] { g.get_edge_flow(ep[0]); }), "early-flow", "edge flow refused before the max flow");
    };
    auto late = [&] {
        EXPECT(throws([&] { g.add_edge(0, 1, 0, 0); }) && throws([&] { g.add_edge_from_source(0, 1, 0); }) && throws([&] { g.add_edge_to_sink(0, 1, 0); }), "late-insert", "insertion refused after computation");
        EXPECT(throws([&] { g.compute_residual_maxflow(); }) && throws([&] { g.parallel_compute_residual_maxflow(); }), "late-compute", "second computation refused");
    };
    early();
    EXPECT(throws([&] { g.transform_residual_to_flow(); }), "early-transform", "transform refused while building");
    EXPECT(g == same, "refusal-changes", "refused calls change nothing");
    if (rnd(2)) g.compute_residual_maxflow(); else g.parallel_compute_residual_maxflow();
    auto snap = [&] { std::vector<std::pair<size_t, size_t>> s; for (auto p : ep) s.push_back({g.get_edge(p).flow, g.get_edge(p).rec_flow}); return s; };
    auto s1 = snap();
    early();
    late();
    EXPECT(snap() == s1, "refusal-changes", "refused calls change nothing");
    g.transform_residual_to_flow();
    auto s2 = snap();
    late();
    EXPECT(throws([&] { g.transform_residual_to_flow(); }), "late-transform", "second transform refused");
    EXPECT(snap() == s2, "refusal-changes", "refused calls change nothing");
    g.get_flow();
    for (auto p : ep) g.get_edge_flow(p);
}
static void alloc(const std::string& pid, size_t n, size_t page, size_t m, int mode)
{
    std::ostringstream o;
    o << "table=" << n << " page=" << page << " lists:";
    struct L { size_t a, b, len, idx; };
    std::vector<L> ls;
    for (size_t i = 0; i < m; i++) {
        L l{rnd(n), rnd(n), rnd(5) == 0 ? page : rnd(page + 1), i * 7 + 1};
        if (mode == 1) l.a = l.b = rnd(2) % n;
        if (mode == 2) { l.a = 0; l.len = page; }
        if (mode == 3) l.b = n - 1;
        ls.push_back(l);
        if (i < 40) o << " (" << l.a << "," << l.b << "):" << l.len;
    }
    at(o.str());
    cases()++;
    TethysAllocator A(n, page);
    if (pid == "P05") {
        EXPECT(throws([&] { A.get_stashed_edges(); }) && throws([&] { A.get_allocation_graph(); }) && !A.has_allocated(), "early-alloc", "results refused before allocation");
        EXPECT(throws([&] { A.insert(TethysAllocatorKey(0, 0, ForcedLeft), page + 1, 3); }), "long-list", "list longer than a page refused");
        EXPECT(throws([&] { A.insert(TethysAllocatorKey(0, 0, ForcedLeft), 1, ~0UL); }), "bad-index", "reserved index refused");
        EXPECT(throws([&] { A.insert(TethysAllocatorKey(n, 0, ForcedLeft), 1, 1); }) && throws([&] { A.insert(TethysAllocatorKey(0, n, ForcedLeft), 1, 1); }), "bad-bucket", "bucket out of range refused");
    }
    for (auto& l : ls) A.insert(TethysAllocatorKey(l.a, l.b, ForcedLeft), l.len, l.idx);
    A.allocate();
    const TethysGraph& g = A.get_allocation_graph();
    auto& stash = A.get_stashed_edges();
    if (pid == "P05") {
        EXPECT(A.has_allocated() && throws([&] { A.allocate(); }) && throws([&] { A.insert(TethysAllocatorKey(0, 0, ForcedLeft), 1, 1); }), "late-alloc", "second allocation / late insertion refused");
        return;
    }
    std::vector<size_t> load(n, 0);
    size_t over = 0;
    for (size_t i = 0; i < ls.size(); i++) {
        const Edge& e = g.get_edge(EdgePtr(i));
        EXPECT(e.value_index == ls[i].idx && e.capacity == ls[i].len && e.start.index == ls[i].a && e.end.index == ls[i].b, "list-edge", "every list is one edge between its two buckets");
        EXPECT((unsigned __int128)e.flow + e.rec_flow <= e.capacity, "share", "shares never exceed the list length");
        load[ls[i].a] += e.flow;
        load[ls[i].b] += e.rec_flow;
        bool st = stash.count(EdgePtr(i)) || stash.count(EdgePtr(true, i));
        size_t left = e.capacity - e.flow - e.rec_flow;
        over += left;
        EXPECT(left == 0 || st, "lost", "elements outside the buckets are in the stash");
        EXPECT(!st || left > 0, "needless-stash", "only lists that lost elements are stashed");
        if (pid == "P06") EXPECT(!stash.count(EdgePtr(true, i)), "stash-form", "stashed edges are list edges");
    }
    for (size_t v = 0; v < n; v++) EXPECT(load[v] <= page, "overload", "bucket " + std::to_string(v) + " holds at most a page");
    for (auto p : stash) EXPECT(p.index < ls.size(), "stash-aux", "auxiliary edges are never stashed");
    // the overflow is the least possible: total demand on each side of the cut
    G d{n, {}};
    std::vector<size_t> out(n, 0);
    for (auto& l : ls) { d.es.push_back({0, l.len, l.a, l.b}); out[l.a] += l.len; }
    size_t ex = 0;
    for (size_t v = 0; v < n; v++) if (out[v] > page) { d.es.push_back({0, out[v] - page, S, v}); ex += out[v] - page; } else if (out[v] < page) d.es.push_back({0, page - out[v], v, T});
    EXPECT(over == ex - (size_t)refmax(d), "overflow", "the stash is as small as a maximum flow allows");
}
int main(int argc, char** argv)
{
    std::string pid = argv[1];
    rng().seed(strtoull(argv[2], 0, 10));
    bool th = !strcmp(argv[3], "thorough");
    int keep = dup(1);
    std::cout.setstate(std::ios::failbit);      // the library prints progress
    std::cerr.setstate(std::ios::failbit);
    size_t K = th ? 20 : 1;
    std::vector<G> fixed;
    fixed.push_back({1, {}});
    fixed.push_back({1, {{0, 5, S, 0}, {1, 3, 0, T}}});
    fixed.push_back({2, {{0, 1, S, 0}, {1, 1, 0, 1}, {2, 1, 1, T}, {3, 0, 1, 0}}});
    // needs the reciprocal edge to be maximal
    fixed.push_back({4, {{0, 1, S, 0}, {1, 1, S, 1}, {2, 1, 0, 2}, {3, 1, 0, 3}, {4, 1, 1, 2}, {5, 1, 2, T}, {6, 1, 3, T}}});
    { G c{3000, {}}; c.es.push_back({0, 7, S, 0}); for (size_t i = 0; i + 1 < 3000; i++) c.es.push_back({i, 3 + i % 5, i, i + 1}); c.es.push_back({1, 9, 2999, T}); fixed.push_back(c); }
    { G c{2500, {}}; for (size_t i = 0; i < 2500; i++) { c.es.push_back({i, 1 + i % 3, S, i}); c.es.push_back({i, 2, i, T}); } fixed.push_back(c); }   // > 1000 augmentations, only singletons
    { G c{3, {{0, 1UL << 40, S, 0}, {1, 1UL << 41, 0, 1}, {2, 1UL << 39, 1, T}, {3, 1UL << 38, 0, T}}}; fixed.push_back(c); }
    { G c{600, {}}; for (size_t i = 0; i < 600; i++) { c.es.push_back({i, 2, S, i}); c.es.push_back({i, 1, i, (i + 1) % 600}); if (i % 2) c.es.push_back({i, 3, i, T}); } fixed.push_back(c); }
    if (pid == "P01" || pid == "P02" || pid == "P03") {
        for (auto& g : fixed) for (int m = 0; m < 2; m++) p123(pid, g, m);
        for (size_t i = 0; i < 2500 * K && !nfail(); i++) { G g = gen(3 + i % 12, 4 + i % 40, 1 + i % 9); if (i < 3) sample(show(g)); p123(pid, g, i % 3 == 0); }
        for (size_t i = 0; i < 12 * K && !nfail(); i++) p123(pid, gen(200, 900, 1 + rnd(1000)), i & 1);
        for (size_t i = 0; i < 100 * K && !nfail(); i++) p123(pid, gen(8, 24, 1UL << 50), i & 1);
    } else if (pid == "P04") {
        for (auto& g : fixed) if (g.es.size() < 2000) { p4(g, false); p4(g, true); }
        for (size_t i = 0; i < 2500 * K && !nfail(); i++) { G g = gen(3 + i % 10, 4 + i % 30, 1 + i % 6); if (i < 3) sample(show(g)); p4(g, i & 1); }
        for (size_t i = 0; i < 10 * K && !nfail(); i++) p4(gen(60, 200, 1 + rnd(1000)), i & 1);
    } else if (pid == "P05") {
        for (size_t i = 0; i < 500 * K && !nfail(); i++) { G g = gen(3 + i % 10, 4 + i % 30, 1 + i % 6); if (i < 3) sample(show(g)); p5(g); }
        for (size_t i = 0; i < 500 * K && !nfail(); i++) alloc(pid, 1 + rnd(8), 1 + rnd(8), rnd(20), i % 4);
    } else if (pid == "P06") {
        for (size_t i = 0; i < 4000 * K && !nfail(); i++) { alloc(pid, 1 + rnd(2 + i % 10), 1 + rnd(12), rnd(3 + i % 30), i % 7); if (i < 3) sample(cur()); }
        for (size_t i = 0; i < 10 * K && !nfail(); i++) alloc(pid, 1 + rnd(300), 1 + rnd(400), rnd(900), i % 6);
    }
    return done();
}
