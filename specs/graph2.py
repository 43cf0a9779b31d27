"""constructor, getters, conversion, components, parallel flow, allocator"""
from graph import *

U64v = 2 ** 64
EMPTY = 2 ** 64 - 1
A = 'sse::tethys::details::'


class GraphCtor(GraphFn):
    name = G + 'TethysGraph::TethysGraph'

    def setup(self, eng, st, this, args):
        add_graph_ghosts(eng, st)

    def requires(self, c):
        return [('size within the modelled range', c.arg(0) <= BIG)]

    def throws_when(self, c):
        return c.arg(0) == 0

    def ensures_throw(self, c, exc):
        return [('only the empty graph is refused', c.arg(0) == 0)]

    def ensures(self, c):
        g = Gr(c.cur(), c.st)
        u = V('u')
        return [('size', z3.And(c.arg(0) != 0, g.n == c.arg(0), g.gs == c.arg(0))), ('building', g.state == BUILDING),
                ('no edges', z3.And(g.E.n == 0, g.sout.n == 0, g.tin.n == 0)),
                ('no component', FA(u, z3.Implies(inner(g, u), g.vcomp[u] == 0), g.vcomp[u])),
                ('no parents', z3.And(is_null(g.spar), is_null(g.tpar)))] + structure(g) + [caps_ok(g), fresh_edges(g)]


class Transform(GraphFn):
    name = G + 'TethysGraph::transform_residual_to_flow'
    mod = ['state', 'edges.edges.flow', 'edges.edges.rec_flow']
    ghosts = ()

    def requires(self, c):
        return self.gi(c)

    def throws_when(self, c):
        return Gr(c.old()).state != RESIDUAL

    def ensures_throw(self, c, exc):
        return [('refused only in the wrong state', Gr(c.old()).state != RESIDUAL), ('refused call changes nothing', same_graph(c.old(), c.cur()))]

    def ensures(self, c):
        a, b = Gr(c.old(), c.pre), Gr(c.cur(), c.st)
        j = V('j')
        return [('only run on a residual graph', a.state == RESIDUAL), ('state advanced', b.state == FLOW),
                ('every edge reports the pushed amount', FA(j, z3.Implies(z3.And(j >= 0, j < b.E.n), z3.And(b.E.flow[j] == a.E.rec[j], b.E.rec[j] == 0)), b.E.flow[j], b.E.rec[j])),
                ('flow within capacity', FA(j, z3.Implies(z3.And(j >= 0, j < b.E.n), z3.And(b.E.flow[j] >= 0, b.E.flow[j] <= b.E.cap[j])), b.E.flow[j]))]

    def loops(self, info):
        eng, th = info.eng, self.cur_this
        E0 = Gr(eng.read(self.pre_state, th)).E
        out = []
        for pn, _, pf in mod_iters(info):
            def f(st, pf=pf):
                E, j = Gr(eng.read(st, th)).E, V('j')
                return z3.And(E.n == E0.n, FA(j, z3.Implies(z3.And(j >= 0, j < E.n), z3.If(j < pf(st), z3.And(E.flow[j] == E0.rec[j], E.rec[j] == 0), z3.And(E.flow[j] == E0.flow[j], E.rec[j] == E0.rec[j]))), E.flow[j], E.rec[j]))
            out.append(('edges converted up to %s' % pn, f))
        return out


class SumGetter(GraphFn):
    """flow / capacity totals of a vertex or of the source"""
    mod = []
    ghosts = ()

    def __init__(self, nm, vertex, direction, field, checked):
        self.name = G + 'TethysGraph::' + nm
        self.vertex, self.dir, self.field, self.checked = vertex, direction, field, checked

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.assume(*sum_axioms())

    def vnum(self, c):
        return c.arg(0)['index'] if self.vertex else I(SRC)

    def fld(self, E):
        return getattr(E, self.field)

    def total(self, c, g):
        v, f = self.vnum(c), self.fld(g.E)
        vi, s, t = (g.vin, g.sin, g.tin) if self.dir == 'in' else (g.vout, g.sout, g.tout)
        if not self.vertex:
            return PS(s.idx, f, s.n)
        return z3.If(v == SRC, PS(s.idx, f, s.n), z3.If(v == SNK, PS(t.idx, f, t.n), PS(vi.idx[v], f, vi.n[v])))

    def small(self, c, g):
        """no prefix of the sum exceeds 64 bits"""
        v, f, k = self.vnum(c), self.fld(g.E), V('k')
        vi, s, t = (g.vin, g.sin, g.tin) if self.dir == 'in' else (g.vout, g.sout, g.tout)
        ok = lambda l, n: FA(k, z3.Implies(z3.And(k >= 0, k <= n), PS(l, f, k) < U64v), PS(l, f, k))
        if not self.vertex:
            return ok(s.idx, s.n)
        return z3.If(v == SRC, ok(s.idx, s.n), z3.If(v == SNK, ok(t.idx, t.n), ok(vi.idx[v], vi.n[v])))

    def requires(self, c):
        g = Gr(c.old(), c.pre)
        r = self.gi(c)
        if self.vertex:
            v = self.vnum(c)
            r.append(('vertex exists', z3.Or(inner(g, v), v == SRC, v == SNK)))
        return r

    def variants(self, eng, st, this, args, f):
        if not self.vertex:
            return [st]
        v = (eng.read(st, args[0]) if isinstance(args[0], Loc) else args[0])['index']
        out = []
        for cnd in (z3.And(v < SRC), v == SRC, v == SNK):
            s = st.copy()
            s.assume(cnd)
            out.append(s)
        return out

    def throws_when(self, c):
        return Gr(c.old()).state != FLOW if self.checked else FALSE

    def ensures_throw(self, c, exc):
        if not self.checked:
            return None
        return [('refused only before the flow is computed', Gr(c.old()).state != FLOW), ('refused call changes nothing', same_graph(c.old(), c.cur()))]

    def ensures(self, c):
        g = Gr(c.old(), c.pre)
        r = [('the total of the listed edges', z3.Implies(self.small(c, g), c.res == self.total(c, g)))]
        if self.checked:
            r.append(('answered only once the flow is computed', g.state == FLOW))
        return r

    def loops(self, info):
        eng, th = info.eng, self.cur_this
        out = []
        f = self.fld(Gr(eng.read(self.pre_state, th)).E)
        k = V('k')
        for pn, pl, pf in mod_iters(info):
            for xn, xf in mod_ints(info):
                def tot(st, pl=pl, pf=pf, xf=xf):
                    l = Lst(eng.read(st, pl))
                    return z3.Or(xf(st) == PS(l.idx, f, pf(st)), z3.Not(FA(k, z3.Implies(z3.And(k >= 0, k <= l.n), PS(l.idx, f, k) < U64v), PS(l.idx, f, k))))
                out.append(('%s is the total up to %s' % (xn, pn), tot))
        return out


GETTERS = [SumGetter('get_flow', False, 'out', 'flow', True),
           SumGetter('get_vertex_in_capacity', True, 'in', 'cap', False),
           SumGetter('get_vertex_out_capacity', True, 'out', 'cap', False),
           SumGetter('get_vertex_in_flow', True, 'in', 'flow', True),
           SumGetter('get_vertex_out_flow', True, 'out', 'flow', True)]


class EdgeGetter(GraphFn):
    mod = []
    ghosts = ()

    def __init__(self, nm, field, checked):
        self.name, self.field, self.checked = G + 'TethysGraph::' + nm, field, checked

    def requires(self, c):
        g = Gr(c.old(), c.pre)
        p = c.arg(0)
        return self.gi(c) + [('edge exists', z3.And(p['index'] >= 0, p['index'] < g.E.n))]

    throws_when = SumGetter.throws_when
    ensures_throw = SumGetter.ensures_throw

    def ensures(self, c):
        g = Gr(c.old(), c.pre)
        return [('the field of the edge', c.res == getattr(g.E, self.field)[c.arg(0)['index']])] + ([('answered only once the flow is computed', g.state == FLOW)] if self.checked else [])


EGETTERS = [EdgeGetter('get_edge_flow', 'flow', True), EdgeGetter('get_edge_capacity', 'cap', False)]


# ------------------------------------------------------------- allocator
# PW(l, f, v, k): sum of f over the first k entries of l that are lists
# (v[entry] is not the reserved index)
PW = z3.Function('PW', AII, AII, AII, IntS, IntS)
PW0 = z3.Function('PW0', AII, AII, AII, IntS, IntS)


def wsum_axioms():
    l, f, v, k = z3.Const('l', AII), z3.Const('f', AII), z3.Const('v', AII), z3.Int('k')
    return [z3.ForAll([l, f, v, k], z3.And(PW(l, f, v, k) == z3.If(k <= 0, I(0), PW0(l, f, v, k - 1) + z3.If(v[l[k - 1]] == EMPTY, I(0), f[l[k - 1]])),
                                           PW(l, f, v, k) == PW0(l, f, v, k)), patterns=[PW(l, f, v, k)])]


def lemma_wpoint():
    """changing f at a list edge e changes the weighted sum over a list in
    which e occurs exactly at position p (or not at all) by the difference"""
    l, f, val, n, k = z3.Const('l', AII), z3.Const('f', AII), z3.Const('val', AII), z3.Int('n'), z3.Int('k')
    e, p, x, j = z3.Ints('e p x j')
    f2 = z3.Store(f, e, x)
    hyp = wsum_axioms() + [FA(j, z3.Implies(z3.And(j >= 0, j < n), (l[j] == e) == (j == p)), l[j]), val[e] != EMPTY]
    ih = lambda k: PW(l, f2, val, k) == PW(l, f, val, k) + z3.If(z3.And(p >= 0, p < k), x - f[e], I(0))
    return [('base', hyp + [n >= 0], ih(I(0))), ('step', hyp + [k >= 0, k < n, ih(k)], ih(k + 1))]


class Al:
    def __init__(self, eng, v, st):
        self.v, self.eng = v, eng
        self.g = Gr(v['allocation_graph'], st)
        self.ts, self.page, self.done = v['tethys_graph_size'], v['page_size'], v['allocated']
        self.has = v['stashed_edges']['has']
        self.key = self.has.sort().domain()

    def mk(self, r, i):
        return self.key.constructor(0)(r, i)

    def stashed(self, i):
        return self.has[self.mk(FALSE, i)]

    def empty_stash(self):
        k = z3.Const('kk', self.key)
        return z3.ForAll([k], z3.Not(self.has[k]), patterns=[self.has[k]])


class AllocFn(GraphFn):
    def old(self, c):
        return Al(c.eng, c.old(), c.pre)

    def now(self, c):
        return Al(c.eng, c.cur(), c.st)

    def inv(self, a):
        return alloc_inv(a) + structure(a.g) + [caps_ok(a.g), fresh_edges(a.g)]


def alloc_inv(a):
    """before the allocation"""
    g, E, e = a.g, a.g.E, V('e')
    return [('table size', z3.And(a.ts == g.n)),
            ('still building', z3.Implies(z3.Not(a.done), g.state == BUILDING)),
            ('only list edges', z3.Implies(z3.Not(a.done), z3.And(g.sout.n == 0, g.tin.n == 0, FA(e, z3.Implies(z3.And(e >= 0, e < E.n),
                z3.And(E.val[e] != EMPTY, E.cap[e] <= a.page)), E.val[e], E.cap[e])))),
            ('no component', z3.Implies(z3.Not(a.done), FA(V('u'), z3.Implies(inner(g, V('u')), g.vcomp[V('u')] == 0), g.vcomp[V('u')]))),
            ('no parents', is_null(g.spar)),
            ('empty stash', z3.Implies(z3.Not(a.done), a.empty_stash()))]


class AllocCtor(AllocFn):
    name = A + 'TethysAllocator::TethysAllocator'

    def requires(self, c):
        return [('size within the modelled range', c.arg(0) <= BIG)]

    throws_when = GraphCtor.throws_when
    ensures_throw = GraphCtor.ensures_throw

    def ensures(self, c):
        a = self.now(c)
        return [('size', z3.And(c.arg(0) != 0, a.g.n == c.arg(0), a.page == c.arg(1), z3.Not(a.done), a.g.E.n == 0))] + self.inv(a)


class AllocInsert(AllocFn):
    name = A + 'TethysAllocator::insert'

    def requires(self, c):
        a = self.old(c)
        g, u = a.g, V('u')
        return self.inv(a) + [('room for one more list', z3.And(g.E.n < BIG, FA(u, z3.Implies(inner(g, u), z3.And(g.vin.n[u] < BIG, g.vout.n[u] < BIG)), g.vin.n[u], g.vout.n[u])))]

    def bad(self, c):
        a = self.old(c)
        h = c.arg(0)['h']
        h = [sel(h, I(0)), sel(h, I(1))]
        return z3.Or(a.done, c.arg(2) == EMPTY, c.arg(1) > a.page, h[0] >= a.g.n, h[1] >= a.g.n)

    def throws_when(self, c):
        return self.bad(c)

    def ensures_throw(self, c, exc):
        return [('refused only for a bad list or after the allocation', self.bad(c)), ('refused call changes nothing', same_graph(c.old(), c.cur()))]

    def post(self, c, throw=False):
        pass

    def ensures(self, c):
        a, b = self.old(c), self.now(c)
        h, n = c.arg(0)['h'], a.g.E.n
        E = b.g.E
        return [('accepted lists are valid', z3.Not(self.bad(c))),
                ('the list is the next edge, between its two buckets', z3.And(E.n == n + 1, E.val[n] == c.arg(2), E.cap[n] == c.arg(1), E.start[n] == sel(h, I(0)), E.end[n] == sel(h, I(1)), E.flow[n] == c.arg(1), E.rec[n] == 0)),
                ('configuration kept', z3.And(b.page == a.page, b.ts == a.ts, b.done == a.done))] + self.inv(b)


def sel(h, i):
    return Sel(h['el'] if isinstance(h, Node) else h, i)


class AllocGet(AllocFn):
    mod = []
    ghosts = ()

    def __init__(self, nm, what):
        self.name, self.what = A + 'TethysAllocator::' + nm, what

    def throws_when(self, c):
        return z3.Not(c.old()['allocated'])

    def ensures_throw(self, c, exc):
        return [('refused only before the allocation', z3.Not(c.old()['allocated'])), ('refused call changes nothing', same_graph(c.old(), c.cur()))]

    def ensures(self, c):
        r = c.res
        if isinstance(r, Loc):
            same = TRUE if r.root == 'this' and [p[1] for p in r.path] == [self.what] else FALSE
        else:
            same = FALSE
        return [('answered only after the allocation', c.old()['allocated']), ('the allocation result itself is returned', same)]


class Allocate(AllocFn):
    name = A + 'TethysAllocator::allocate'
    ghosts = ('op', 'ip', 'mk', 'so', 'si')

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.assume(*wsum_axioms())
        for g in ('so', 'si', 'dep'):
            st.ghost[g] = z3.K(IntS, I(0))
        st.ghost['mk'] = z3.K(IntS, FALSE)

        def point(which):
            def on(eng, st, loc, new):
                if loc.root != 'this' or loc.path[0] != ('f', 'allocation_graph') or loc.path[1] != ('f', 'edges'):
                    return
                i = loc.path[3][1]
                g = Gr(eng.read(st, this)['allocation_graph'], st)
                E = g.E
                F, L, own, pos = (E.rec, g.vin, E.end, g.ip) if which == 'rec' else (E.flow, g.vout, E.start, g.op)
                for nm, x in structure(g):
                    if ('incoming' if which == 'rec' else 'outgoing') in nm or ('listed at their %s' % ('end' if which == 'rec' else 'start')) in nm:
                        eng.oblige(st, x, 'the lists are sets of the vertex\'s edges (%s)' % nm)
                u, k = V('u'), V('k')
                w = PW(L.idx[u], z3.Store(F, i, new), E.val, k)
                st.assume(z3.Implies(z3.And(E.val[i] != EMPTY, i >= 0, i < E.n), FA([u, k], z3.Implies(z3.And(inner(g, u), k >= 0, k <= L.n[u]),
                          w == PW(L.idx[u], F, E.val, k) + z3.If(z3.And(u == own[i], pos[i] < k), new - F[i], I(0))), w)))
            return on
        eng.hooks['rec_flow'] = [point('rec')]
        eng.hooks['flow'] = [point('flow')]
        eng.assumptions.add('lemma "weighted point update" (proved separately) applied at every store to flow / rec_flow of a list edge')

    def requires(self, c):
        a = self.old(c)
        g, u = a.g, V('u')
        return self.inv(a) + [('sizes', z3.And(g.n <= 2 ** 58, g.E.n <= 2 ** 58, a.page < 2 ** 62,
                               FA(u, z3.Implies(inner(g, u), z3.And(g.vin.n[u] <= 2 ** 58, g.vout.n[u] <= 2 ** 58)), g.vin.n[u], g.vout.n[u])))]

    def throws_when(self, c):
        return c.old()['allocated']

    def ensures_throw(self, c, exc):
        return [('refused only after the allocation', c.old()['allocated']), ('refused call changes nothing', same_graph(c.old(), c.cur()))]

    def kept(self, a, b):
        """list edges keep identity; later edges are auxiliary"""
        e = V('e')
        E, F = a.g.E, b.g.E
        return FA(e, z3.And(z3.Implies(z3.And(e >= 0, e < E.n), z3.And(F.val[e] == E.val[e], F.cap[e] == E.cap[e], F.start[e] == E.start[e], F.end[e] == E.end[e], F.val[e] != EMPTY, F.cap[e] <= a.page)),
                            z3.Implies(z3.And(e >= E.n, e < F.n), F.val[e] == EMPTY)), F.val[e], F.cap[e], F.start[e], F.end[e])

    def load(self, b, u):
        return PW(b.g.vin.idx[u], b.g.E.rec, b.g.E.val, b.g.vin.n[u]) + PW(b.g.vout.idx[u], b.g.E.flow, b.g.E.val, b.g.vout.n[u])

    def loads_ok(self, b, upto):
        u = V('u')
        return FA(u, z3.Implies(z3.And(u >= 0, u < upto), self.load(b, u) <= b.page), b.g.vin.n[u], b.g.vout.n[u])

    def shares(self, b):
        e, E = V('e'), b.g.E
        return FA(e, z3.Implies(z3.And(e >= 0, e < E.n), z3.And(E.flow[e] >= 0, E.rec[e] >= 0, E.flow[e] + E.rec[e] <= E.cap[e])), E.flow[e], E.rec[e])

    def stash_iff(self, b):
        e, E = V('e'), b.g.E
        return FA(e, z3.Implies(z3.And(e >= 0, e < E.n), b.stashed(e) == (E.flow[e] + E.rec[e] < E.cap[e])), b.stashed(e), E.flow[e], E.rec[e])

    def stash_form(self, b):
        k = z3.Const('kk', b.key)
        E = b.g.E
        ps = [b.key.accessor(0, j)(k) for j in range(b.key.constructor(0).arity())]
        r, i = (ps[0], ps[1])
        return z3.ForAll([k], z3.Implies(b.has[k], z3.And(z3.Not(r), i >= 0, i < E.n, E.val[i] != EMPTY)), patterns=[b.has[k]])

    def ensures(self, c):
        a, b = self.old(c), self.now(c)
        return [('only run once', z3.Not(a.done)), ('marked as allocated', b.done), ('configuration kept', z3.And(b.page == a.page, b.ts == a.ts, b.g.n == a.g.n)),
                ('every list is still the edge between its buckets', self.kept(a, b)),
                ('no bucket exceeds a page', self.loads_ok(b, b.g.n)),
                ('shares never exceed the list', self.shares(b)),
                ('a list is stashed exactly when elements are left over', self.stash_iff(b)),
                ('only list edges are stashed', self.stash_form(b))]

    def loops(self, info):
        eng, th = info.eng, self.cur_this
        a0 = Al(eng, eng.read(self.pre_state, th), self.pre_state)
        B = lambda st: Al(eng, eng.read(st, th), st)
        out = []
        for i, (nm, _) in enumerate(self.inv(a0)):
            if nm in ('only list edges', 'empty stash'):
                continue
            out.append((nm, lambda st, i=i: self.inv(B(st))[i][1]))
        out.append(('list edges kept', lambda st: self.kept(a0, B(st))))
        out.append(('shares', lambda st: self.shares(B(st))))
        out.append(('stash iff', lambda st: self.stash_iff(B(st))))
        out.append(('stash form', lambda st: self.stash_form(B(st))))
        out.append(('empty stash', lambda st: B(st).empty_stash()))
        for n, f in counters(info):
            def room(st, f=f):
                g, i, u, h = B(st).g, f(st), V('u'), a0.g
                return z3.And(g.n == h.n, g.E.n <= h.E.n + i, g.E.n >= h.E.n, g.sout.n <= i, g.tin.n <= i,
                              FA(u, z3.Implies(inner(g, u), z3.And(g.vin.n[u] <= h.vin.n[u] + i, g.vout.n[u] <= h.vout.n[u] + i)), g.vin.n[u], g.vout.n[u]))
            out.append(('auxiliary edges bounded by %s' % n, room))
        for pn, pl, pf in mod_iters(info):
            p = pl.path
            fs = [x[1] for x in p if x[0] == 'f']
            if fs[-1:] == ['vertices']:
                out.append(('loads up to %s' % pn, lambda st, pf=pf: self.loads_ok(B(st), pf(st))))
            if fs[-1:] in (['in_edges'], ['out_edges']) and len(p) >= 2 and p[-2][0] != 'f':
                row = p[-2][1]
                out.append(('loads before the current bucket (%s)' % pn, lambda st, row=row: self.loads_ok(B(st), row)))
                for xn, xf in mod_ints(info):
                    for dn in ('in', 'out', 'out+in', 'in+out'):
                        def ld(st, xf=xf, pf=pf, dn=dn, row=row):
                            b = B(st)
                            g, E = b.g, b.g.E
                            pi = lambda k: PW(g.vin.idx[row], E.rec, E.val, k)
                            po = lambda k: PW(g.vout.idx[row], E.flow, E.val, k)
                            x = {'in': lambda: pi(pf(st)), 'out': lambda: po(pf(st)), 'in+out': lambda: pi(g.vin.n[row]) + po(pf(st)), 'out+in': lambda: po(g.vout.n[row]) + pi(pf(st))}[dn]()
                            return z3.And(xf(st) == x, xf(st) <= b.page)
                        out.append(('%s is the load (%s) up to %s' % (xn, dn, pn), ld))
        return out


# ------------------------------------------------------ connected components
class Components(GraphFn):
    name = G + 'TethysGraph::compute_connected_components'
    mod = ['vertices.vertices.component', 'n_components']
    ghosts = ()

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.ghost['qp'] = z3.Const(eng.fname('qp'), AII)

        def onpush(eng, st, op, o, x):
            v = eng.read(st, o)
            if isinstance(x, Node) and 'index' in x.ch and 'lo' in v.ch:
                st.ghost['qp'] = z3.Store(st.ghost['qp'], x['index'], v['lo'] - 1 if op == 'push_front' else v['lo'] + v['n'])
        eng.seqhooks = [onpush]
        st.ghost['cnt'] = I(0)
        eng.assumptions.add('pigeonhole: at most as many vertices are labelled as there are vertices')

        def onlabel(eng, st, loc, new):
            if loc.root != 'this' or len(loc.path) != 4 or loc.path[0] != ('f', 'vertices'):
                return
            # cnt: number of vertices with a label other than 0 (none on entry)
            i = loc.path[2][1]
            g = Gr(eng.read(st, this))
            cnt = z3.Int(eng.fname('cnt'))
            one = lambda x: z3.If(x == 0, I(0), I(1))
            st.assume(cnt == st.ghost['cnt'] + one(new) - one(g.vcomp[i]), z3.Implies(inner(g, i), z3.And(cnt >= 0, cnt <= g.n)))
            st.ghost['cnt'] = cnt
        eng.hooks['component'] = [onlabel]

    def requires(self, c):
        g = Gr(c.old(), c.pre)
        u = V('u')
        return structure(g) + [('no components yet', FA(u, z3.Implies(inner(g, u), g.vcomp[u] == 0), g.vcomp[u]))]

    def same_comp(self, g):
        E, e = g.E, V('e')
        s, t = E.start[e], E.end[e]
        return FA(e, z3.Implies(z3.And(TRG(e), e >= 0, e < E.n, s != SRC, t != SNK), g.vcomp[s] == g.vcomp[t]), s, t)

    def ensures(self, c):
        g = Gr(c.cur(), c.st)
        u = V('u')
        return [('edges join vertices of one component', self.same_comp(g)),
                ('component numbers are in range', z3.And(g.ncomp >= 0, g.ncomp <= g.n, FA(u, z3.Implies(inner(g, u), z3.And(g.vcomp[u] >= 0, g.vcomp[u] <= g.ncomp)), g.vcomp[u])))]

    def loops(self, info):
        eng, st0, th = info.eng, info.st0, self.cur_this
        g_ = lambda st: Gr(eng.read(st, th), st)
        R = lambda st, l: eng.read(st, l)
        vv = scope(info, st0, lambda v: rec_named(eng, v, 'VertexPtr'))
        qq = scope(info, st0, lambda v: isinstance(v, Node) and v.kind == 'seq' and 'lo' in v.ch)
        ints = [(n, l) for n, l in scope(info, st0, lambda v: isz(v) and v.sort() == IntS)]
        ptrs = scope(info, st0, lambda v: isinstance(v, Ptr) and self.row(v) is not None)
        refs = [(nm, l) for vid, (nm, ty, l) in info.vars.items() if self.rowl(l) is not None]
        poss = [(n, f) for n, _, f in mod_iters(info)] + counters(info)
        u, k, e = V('u'), V('k'), V('e')
        out = []
        out.append(('number labelled', lambda st: z3.And(st.ghost['cnt'] >= 0, st.ghost['cnt'] <= g_(st).n)))
        out.append(('edges join one component', lambda st: self.same_comp(g_(st))))
        for cn, cl in ints:
            C = lambda st, cl=cl: R(st, cl)

            def rng(st, C=C):
                g = g_(st)
                return z3.And(C(st) >= 1, FA(u, z3.Implies(inner(g, u), z3.And(g.vcomp[u] >= 0, g.vcomp[u] <= C(st))), g.vcomp[u]))

            def rng1(st, C=C):
                g = g_(st)
                return z3.And(C(st) >= 1, FA(u, z3.Implies(inner(g, u), z3.And(g.vcomp[u] >= 0, g.vcomp[u] < C(st))), g.vcomp[u]))
            out.append(('labels at most %s' % cn, rng))
            out.append(('labels below %s' % cn, rng1))
            for pn, pf in counters(info):
                if pn != cn:
                    out.append(('%s at most %s+1' % (cn, pn), lambda st, C=C, pf=pf: C(st) <= pf(st) + 1))

            if cl.root in {x[0] for x in info.mods}:
                continue

            def half(st, C=C):
                g = g_(st)
                E = g.E
                s, t = E.start[e], E.end[e]
                a, b = g.vcomp[s], g.vcomp[t]
                return FA(e, z3.Implies(z3.And(TRG(e), e >= 0, e < E.n, s != SRC, t != SNK), z3.Or(a == b, z3.And(a == 0, b == C(st)), z3.And(b == 0, a == C(st)))), s, t)
            out.append(('edges join one component or leave %s unfinished' % cn, half))
            for qn, ql in qq:
                inq = lambda st, x, ql=ql: (lambda q: z3.And(st.ghost['qp'][x] >= q['lo'], st.ghost['qp'][x] < q['lo'] + q['n'], q['el']['index'][st.ghost['qp'][x]] == x))(R(st, ql))

                def qel(st, ql=ql, C=C):
                    q, p, g = R(st, ql), V('p'), g_(st)
                    x = q['el']['index'][p]
                    return FA(p, z3.Implies(z3.And(p >= q['lo'], p < q['lo'] + q['n']), z3.And(inner(g, x), g.vcomp[x] == C(st))), x)
                out.append(('%s holds vertices of %s' % (qn, cn), qel))

                def fam(st, sel_, uc, kc, allow, C=C, inq=inq):
                    g = g_(st)
                    E = g.E
                    fs = []
                    for s_ in sel_:
                        L, D, no = (g.vout, E.end, SNK) if s_ == 'o' else (g.vin, E.start, SRC)
                        x = L.idx[u][k]
                        d = D[x]
                        ok = [d == no, g.vcomp[d] == C(st)] + ([inq(st, u)] if allow else [])
                        fs.append(FA([u, k], z3.Implies(z3.And(inner(g, u), g.vcomp[u] == C(st), uc(u), k >= 0, k < L.n[u], kc(k)), z3.Or(*ok)), x))
                    return z3.And(*fs)
                T_ = lambda x: TRUE
                for s_ in 'oi':
                    out.append(('%s-edges of %s closed or in %s' % (s_, cn, qn), lambda st, s_=s_, fam=fam: fam(st, s_, T_, T_, True)))
                    for rn, rl in refs:
                        row = self.rowl(rl)
                        out.append(('%s-edges of %s closed or in %s except %s' % (s_, cn, qn, rn), lambda st, s_=s_, fam=fam, row=row: fam(st, s_, lambda x: x != row, T_, True)))
                        out.append(('%s-edges of %s closed (%s)' % (s_, rn, cn), lambda st, s_=s_, fam=fam, row=row: fam(st, s_, lambda x: x == row, T_, False)))
                        for pn, pf in poss:
                            out.append(('%s-edges of %s closed up to %s (%s)' % (s_, rn, pn, cn), lambda st, s_=s_, fam=fam, row=row, pf=pf: fam(st, s_, lambda x: x == row, lambda y: y < pf(st), False)))
                for zn, zl in ints:
                    if zn == cn:
                        continue
                    out.append(('%s + |%s| at most the number labelled' % (zn, qn), lambda st, zl=zl, ql=ql: z3.And(R(st, zl) >= 0, R(st, zl) + R(st, ql)['n'] <= st.ghost['cnt'])))
                    for wn, wl in vv:
                        def cnt(st, zl=zl, wl=wl, ql=ql, C=C):
                            g, q, z, w = g_(st), R(st, ql), R(st, zl), R(st, wl)['index']
                            return z3.And(z + q['n'] >= 1, g.vcomp[w] == C(st), inner(g, w), z >= 0,
                                          FA(u, z3.Implies(z3.And(inner(g, u), g.vcomp[u] == C(st), u != w), z + q['n'] >= 2), g.vcomp[u]))
                        out.append(('%s + |%s| counts %s from %s' % (zn, qn, cn, wn), cnt))
        for rn, rl in refs:
            row = self.rowl(rl)
            for cn, cl in ints:
                out.append(('%s belongs to %s' % (rn, cn), lambda st, row=row, cl=cl: z3.And(inner(g_(st), row), g_(st).vcomp[row] == R(st, cl))))
        return out

    def row(self, p):
        return self.rowl(p.loc) if isinstance(p, Ptr) and p.loc is not None else None

    def rowl(self, l):
        if isinstance(l, Loc) and l.root == 'this' and len(l.path) == 3 and l.path[0][1] == 'vertices' and l.path[2][0] != 'f':
            return l.path[2][1]
        return None


# -------------------------------------------------------- parallel max flow
class FindPathT(FindPath):
    """at call sites also accumulates the reached sets of all components"""

    def havoc_extra(self, eng, c):
        super().havoc_extra(eng, c)
        g = Gr(c.old(), c.pre)
        u = V('u')
        old, new = c.st.ghost['mkt'], z3.Const(eng.fname('mkt'), AIB)
        c.st.assume(FA(u, new[u] == z3.If(g.vcomp[u] == c.arg(0), c.st.ghost['mk'][u], old[u]), new[u]))
        c.st.ghost['mkt'] = new


class ParallelMaxFlow(MaxFlow):
    name = G + 'TethysGraph::parallel_compute_residual_maxflow'
    mod = MaxFlow.mod + ['vertices.vertices.component', 'n_components']
    ghosts = ('mkt', 'so', 'si')

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        import models
        eng.overrides.update(models.POOL)
        st.ghost['mkt'] = z3.K(IntS, FALSE)
        eng.assumptions.add('jobs given to the thread pool run one after the other (any order of whole jobs is covered only up to the components being disjoint); interleavings are argued, not proved: distinct components share no inner vertex, and a job changes only edges of its component')

    def closed(self, g, mkt, L):
        E, e = g.E, V('e')
        inE = z3.And(TRG(e), e >= 0, e < E.n)
        S = lambda v: z3.Or(v == SRC, z3.And(inner(g, v), mkt[v], g.vcomp[v] < L))
        ok = lambda s, d: z3.Or(d == SRC, z3.And(inner(g, d), z3.Or(mkt[d], g.vcomp[d] >= L)), z3.And(L == 0, d == SNK))
        return z3.And(FA(e, z3.Implies(z3.And(inE, S(E.start[e]), E.flow[e] > 0), ok(E.start[e], E.end[e])), E.start[e], E.end[e]),
                      FA(e, z3.Implies(z3.And(inE, S(E.end[e]), E.rec[e] > 0), ok(E.end[e], E.start[e])), E.start[e], E.end[e]))

    def ensures(self, c):
        a, b = Gr(c.old(), c.pre), Gr(c.cur(), c.st)
        return [('only run while building', a.state == BUILDING), ('state advanced', b.state == RESIDUAL)] + [caps_ok(b)] \
            + conserved_sums(b, b.E.rec) + self.maximal(b, c.st.ghost['mkt'])

    def loops(self, info):
        eng, st0, th = info.eng, info.st0, self.cur_this
        g_ = lambda st: Gr(eng.read(st, th), st)
        out = flow_loops(self, info)
        for n, l in scope(info, st0, lambda v: isz(v) and v.sort() == IntS):
            out.append(('components before %s are saturated' % n, lambda st, l=l: z3.And(eng.read(st, l) >= 0, self.closed(g_(st), st.ghost['mkt'], eng.read(st, l)))))
        return out
