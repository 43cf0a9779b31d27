from unit import *

G = 'sse::tethys::details::'
SRC, SNK, NUL = 2 ** 64 - 3, 2 ** 64 - 2, 2 ** 64 - 1
I = z3.IntVal
U64 = 2 ** 64


def V(name='i'):
    return z3.Int(name)


def FA(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if pats:
        fl = []
        for p in pats:
            fl += list(p) if isinstance(p, (list, tuple)) else [p]
        if any(has_ite(p) for p in fl):
            return z3.ForAll(vs, body)
        return z3.ForAll(vs, body, patterns=[p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats])
    return z3.ForAll(vs, body)


def EX(vs, body, pat):
    if has_ite(pat):
        return z3.Exists(vs, body)
    return z3.Exists(vs, body, patterns=[pat])


_ite = {}


def has_ite(e):
    k = e.get_id()
    if k not in _ite:
        _ite[k] = (e, z3.is_app(e) and (e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE)
                   or any(has_ite(c) for c in e.children())))
    return _ite[k][1]


# ------------------------------------------------------------- edge storage
class Ed:
    """view on a vector<Edge> value"""

    def __init__(self, seq):
        self.n = seq['n']
        e = seq['el']
        self.cap, self.flow, self.rec = e['capacity'], e['flow'], e['rec_flow']
        self.start, self.end = e['start']['index'], e['end']['index']
        self.val = e['value_index']


def res_of(E, r, i):
    return z3.If(r, E.rec[i], E.flow[i])


def edge_ok(E, i):
    return z3.And(E.flow[i] >= 0, E.rec[i] >= 0, E.flow[i] + E.rec[i] == E.cap[i], E.cap[i] < U64, E.cap[i] >= 0)


def conserved(E):
    i = V()
    return FA(i, z3.Implies(z3.And(0 <= i, i < E.n), edge_ok(E, i)), E.flow[i], E.rec[i], E.cap[i])


class UpdateFlow(FnContract):
    name = G + 'EdgeVec::update_flow'
    mod = ['edges.flow', 'edges.rec_flow']

    def requires(self, c):
        E = Ed(c.old()['edges'])
        p, k = c.arg(0), c.arg(1)
        i = p['index']
        return [('valid handle', z3.And(i >= 0, i < E.n)),
                ('capacities conserved', conserved(E)),
                ('residual at least the pushed amount', z3.And(k >= 0, k <= res_of(E, p['is_reciprocal'], i)))]

    def ensures(self, c):
        E, F = Ed(c.old()['edges']), Ed(c.cur()['edges'])
        p, k = c.arg(0), c.arg(1)
        i, r = p['index'], p['is_reciprocal']
        j = V('j')
        return [('capacities conserved', conserved(F)),
                ('residual reduced by amount', z3.If(r, F.rec[i] == E.rec[i] - k, F.rec[i] == E.rec[i] + k)),
                ('reciprocal residual', z3.If(r, F.flow[i] == E.flow[i] + k, F.flow[i] == E.flow[i] - k)),
                ('other edges untouched', FA(j, z3.Implies(j != i, z3.And(F.flow[j] == E.flow[j], F.rec[j] == E.rec[j])), F.flow[j], F.rec[j]))]


class EdgeFlow(FnContract):
    name = G + 'EdgeVec::edge_flow'
    mod = []

    def requires(self, c):
        E = Ed(c.old()['edges'])
        i = c.arg(0)['index']
        return [('valid handle', z3.And(i >= 0, i < E.n))]

    def ensures(self, c):
        E = Ed(c.old()['edges'])
        p = c.arg(0)
        return [('residual in the direction of the handle', c.res == res_of(E, p['is_reciprocal'], p['index']))]


# -------------------------------------------------------------- whole graph
class Lst:
    """vector<EdgePtr> value (possibly lifted by a vertex index)"""

    def __init__(self, seq):
        self.n, self.rec, self.idx = seq['n'], seq['el']['is_reciprocal'], seq['el']['index']


class Gr:
    def __init__(self, v, st=None):
        self.v = v
        self.state, self.gs = v['state'], v['graph_size']
        self.E = Ed(v['edges']['edges'])
        vs = v['vertices']['vertices']
        self.n = vs['n']
        self.vin, self.vout = Lst(vs['el']['in_edges']), Lst(vs['el']['out_edges'])
        self.vpar, self.vcomp = vs['el']['parent_edge'], vs['el']['component']
        s, t = v['source'], v['sink']
        self.sin, self.sout = Lst(s['in_edges']), Lst(s['out_edges'])
        self.tin, self.tout = Lst(t['in_edges']), Lst(t['out_edges'])
        self.spar, self.tpar = s['parent_edge'], t['parent_edge']
        self.scomp, self.tcomp = s['component'], t['component']
        self.ncomp = v['n_components']
        if st is not None:
            self.op, self.ip = st.ghost['op'], st.ghost['ip']


# TRG(e) is true of every e; it only steers quantifier instantiation
TRG = z3.Function('TRG', IntS, BoolS)


def is_null(p):
    return z3.And(z3.Not(p['is_reciprocal']), p['index'] == 2 ** 63 - 1)


BIG = 2 ** 60


def inner(g, x):
    return z3.And(x >= 0, x < g.n)


def structure(g, complete=True):
    """well-formedness of the graph: list of (name, formula)"""
    E = g.E
    e, u, k = V('e'), V('u'), V('k')
    inE = lambda x: z3.And(x >= 0, x < E.n)
    out = [('vertex count', z3.And(g.n == g.gs, g.n >= 1, g.n <= BIG, E.n >= 0, E.n <= BIG)),
           ('list lengths', z3.And(g.sin.n == 0, g.tout.n == 0, g.sout.n >= 0, g.tin.n >= 0, g.sout.n <= BIG, g.tin.n <= BIG)),
           ('vertex list lengths', FA(u, z3.Implies(inner(g, u), z3.And(g.vin.n[u] >= 0, g.vin.n[u] <= BIG, g.vout.n[u] >= 0, g.vout.n[u] <= BIG)), g.vin.n[u], g.vout.n[u])),
           ('edge end points', FA(e, z3.Implies(inE(e), z3.And(z3.Or(inner(g, E.start[e]), E.start[e] == SRC),
                                                            z3.Or(inner(g, E.end[e]), E.end[e] == SNK))), E.start[e], E.end[e]))]

    def listed(nm, cnt, l_rec, l_idx, who, endp, pos, bound):
        """every listed edge belongs to the owner, without repetition"""
        x = l_idx
        vs = [u, k] if bound else [k]
        return ('%s' % nm, FA(vs, z3.Implies(z3.And(*( [inner(g, u)] if bound else []), k >= 0, k < cnt),
                              z3.And(x >= 0, x < E.n, z3.Not(l_rec), endp[x] == who, *([pos[x] == k] if complete else []))), x))
    op, ip = (g.op, g.ip) if complete else (None, None)
    out += [listed('outgoing lists', g.vout.n[u], g.vout.rec[u][k], g.vout.idx[u][k], u, E.start, op, True),
            listed('incoming lists', g.vin.n[u], g.vin.rec[u][k], g.vin.idx[u][k], u, E.end, ip, True),
            listed('source list', g.sout.n, g.sout.rec[k], g.sout.idx[k], I(SRC), E.start, op, False),
            listed('sink list', g.tin.n, g.tin.rec[k], g.tin.idx[k], I(SNK), E.end, ip, False)]
    if complete:
        s, d = E.start[e], E.end[e]
        out += [('edges listed at their start', FA(e, z3.Implies(z3.And(TRG(e), inE(e)), z3.And(
                    op[e] >= 0, z3.If(s == SRC, z3.And(op[e] < g.sout.n, g.sout.idx[op[e]] == e),
                                      z3.And(op[e] < g.vout.n[s], g.vout.idx[s][op[e]] == e)))), TRG(e))),
                ('edges listed at their end', FA(e, z3.Implies(z3.And(TRG(e), inE(e)), z3.And(
                    ip[e] >= 0, z3.If(d == SNK, z3.And(ip[e] < g.tin.n, g.tin.idx[ip[e]] == e),
                                      z3.And(ip[e] < g.vin.n[d], g.vin.idx[d][ip[e]] == e)))), TRG(e)))]
    return out


def add_graph_ghosts(eng, st):
    st.assume(z3.ForAll([z3.Int('e')], TRG(z3.Int('e')), patterns=[TRG(z3.Int('e'))]))
    A = z3.ArraySort(IntS, IntS)
    st.ghost['op'] = z3.Const(eng.fname('op'), A)
    st.ghost['ip'] = z3.Const(eng.fname('ip'), A)


BUILDING, RESIDUAL, FLOW = 0, 1, 2


def fresh_edges(g):
    """while building: every edge has its full residual"""
    e = V('e')
    E = g.E
    return ('edges fresh while building', z3.Implies(g.state == BUILDING, FA(e, z3.Implies(z3.And(e >= 0, e < E.n), z3.And(E.flow[e] == E.cap[e], E.rec[e] == 0)), E.flow[e], E.rec[e])))


def caps_ok(g):
    return ('edge capacities', conserved(g.E))


def same_graph(a, b):
    """every leaf equal"""
    out = []
    for (p, x), (q, y) in zip(leaves(a), leaves(b)):
        if isz(x):
            out.append(x == y)
    return z3.And(*out)


class GraphFn(FnContract):
    complete = True
    ghosts = ('op', 'ip')

    def setup(self, eng, st, this, args):
        add_graph_ghosts(eng, st)

    def gi(self, c, pre=True):
        g = Gr(c.old() if pre else c.cur(), c.pre if pre else c.st)
        return structure(g) + [caps_ok(g)]


class AddEdge(GraphFn):
    """kind: 'edge' (value,cap,start,end), 'src' (value,cap,end), 'sink' (value,cap,start)"""

    def __init__(self, kind):
        self.kind = kind
        self.name = G + 'TethysGraph::' + {'edge': 'add_edge', 'src': 'add_edge_from_source', 'sink': 'add_edge_to_sink'}[kind]

    def se(self, c):
        if self.kind == 'edge':
            return c.arg(2), c.arg(3)
        if self.kind == 'src':
            return I(SRC), c.arg(2)
        return c.arg(2), I(SNK)

    def requires(self, c):
        g = Gr(c.old(), c.pre)
        u = V('u')
        return self.gi(c) + [fresh_edges(g), ('room for one more edge', z3.And(g.E.n < BIG, g.sout.n < BIG, g.tin.n < BIG,
                             FA(u, z3.Implies(inner(g, u), z3.And(g.vin.n[u] < BIG, g.vout.n[u] < BIG)), g.vin.n[u], g.vout.n[u])))]

    def bad(self, c):
        g = Gr(c.old())
        s, e = self.se(c)
        r = [g.state != BUILDING]
        if self.kind != 'src':
            r.append(s >= g.n)
        if self.kind != 'sink':
            r.append(e >= g.n)
        return z3.Or(*r)

    def throws_when(self, c):
        return self.bad(c)

    def post(self, c, throw=False):
        if throw:
            return
        g = Gr(c.old())
        s, e = self.se(c)
        gh = c.st.ghost
        en = g.E.n
        gh['op'] = z3.Store(gh['op'], en, g.sout.n if self.kind == 'src' else g.vout.n[s])
        gh['ip'] = z3.Store(gh['ip'], en, g.tin.n if self.kind == 'sink' else g.vin.n[e])

    def ensures(self, c):
        a, b = Gr(c.old(), c.pre), Gr(c.cur(), c.st)
        s, t = self.se(c)
        n = a.E.n
        j, u, k = V('j'), V('u'), V('k')
        r = [('only accepted while building, with existing vertices', z3.Not(self.bad(c))),
             ('fresh handle', z3.And(c.res['index'] == n, z3.Not(c.res['is_reciprocal']), b.E.n == n + 1)),
             ('edge stored with full residual', z3.And(b.E.cap[n] == c.arg(1), b.E.flow[n] == c.arg(1), b.E.rec[n] == 0,
                                                       b.E.val[n] == c.arg(0), b.E.start[n] == s, b.E.end[n] == t)),
             ('earlier edges kept', FA(j, z3.Implies(z3.And(j >= 0, j < n), z3.And(
                 b.E.cap[j] == a.E.cap[j], b.E.flow[j] == a.E.flow[j], b.E.rec[j] == a.E.rec[j], b.E.val[j] == a.E.val[j],
                 b.E.start[j] == a.E.start[j], b.E.end[j] == a.E.end[j])), b.E.cap[j], b.E.flow[j], b.E.rec[j], b.E.val[j], b.E.start[j], b.E.end[j])),
             ('state kept', z3.And(b.state == a.state, b.gs == a.gs, b.n == a.n, b.ncomp == a.ncomp))]
        # list lengths
        d = lambda cnd: z3.If(cnd, I(1), I(0))
        r.append(('listed once at each end', z3.And(
            FA(u, z3.Implies(inner(a, u), z3.And(b.vout.n[u] == a.vout.n[u] + d(u == s), b.vin.n[u] == a.vin.n[u] + d(u == t))), b.vout.n[u], b.vin.n[u]),
            b.sout.n == a.sout.n + d(s == SRC), b.tin.n == a.tin.n + d(t == SNK), b.sin.n == 0, b.tout.n == 0)))
        r.append(('earlier list entries kept', z3.And(
            FA([u, k], z3.Implies(z3.And(inner(a, u), k >= 0, k < a.vout.n[u]), b.vout.idx[u][k] == a.vout.idx[u][k]), b.vout.idx[u][k]),
            FA([u, k], z3.Implies(z3.And(inner(a, u), k >= 0, k < a.vin.n[u]), b.vin.idx[u][k] == a.vin.idx[u][k]), b.vin.idx[u][k]))))
        r.append(('vertices otherwise kept', FA(u, z3.Implies(inner(a, u), z3.And(b.vcomp[u] == a.vcomp[u],
                  b.vpar['index'][u] == a.vpar['index'][u], b.vpar['is_reciprocal'][u] == a.vpar['is_reciprocal'][u])), b.vcomp[u], b.vpar['index'][u])))
        r.append(('source and sink otherwise kept', z3.And(b.scomp == a.scomp, b.tcomp == a.tcomp, b.spar['index'] == a.spar['index'],
                  b.spar['is_reciprocal'] == a.spar['is_reciprocal'])))
        r += structure(b) + [caps_ok(b), fresh_edges(b)]
        return r

    def ensures_throw(self, c, exc):
        return [('rejected only for a bad state or vertex', self.bad(c)),
                ('rejected call changes nothing', same_graph(c.old(), c.cur()))]


# ------------------------------------------------------------ generic helpers
AII = z3.ArraySort(IntS, IntS)
AIB = z3.ArraySort(IntS, BoolS)


def scope(info, st, pred):
    """variables in scope (name, loc) whose current value satisfies pred"""
    out = []
    for vid, (nm, ty, l) in info.vars.items():
        if l.root not in st.roots:
            continue
        try:
            v = info.eng.read(st, l)
        except Unsupported:
            continue
        if pred(v):
            out.append((nm, l))
    return out


def rec_named(eng, v, q):
    return isinstance(v, Node) and v.kind == 'rec' and normq(eng.ir.T(v.ty).get('q', '')).endswith(q)


def mod_ints(info):
    """integer variables changed by the loop: (name, fn(st)->term)"""
    out = []
    for k in info.mods:
        if k[0] == 'ghost' or k[1]:
            continue
        v = info.st0.roots[k[0]]
        if isz(v) and v.sort() == IntS:
            out.append((k[0].split('!')[0], lambda st, r=k[0]: st.roots[r]))
    return out


def counters(info):
    """integer variables every iteration moves by one"""
    out = []
    for k in info.mods:
        if k[0] == 'ghost' or k[1]:
            continue
        v = info.st0.roots[k[0]]
        if isz(v) and v.sort() == IntS and info.steps.get(k[0], {None}) <= {0, 1, -1}:
            out.append((k[0].split('!')[0], lambda st, r=k[0]: st.roots[r]))
    return out


def mod_iters(info):
    out = []
    for k in info.mods:
        if k[0] == 'ghost' or k[1]:
            continue
        v = info.st0.roots[k[0]]
        if isinstance(v, Iter) and v.kind == 'seq':
            out.append((k[0].split('!')[0], v.loc, lambda st, r=k[0]: st.roots[r].idx))
    return out


# --------------------------------------------------------- chain of parents
# CH(pi, pr, es, ee, x, k): vertex reached from x after k steps to the tail of
# the parent edge (definition by recursion on k, one unfolding per term)
CHargs = [AII, AIB, AII, AII, IntS, IntS]
CH = z3.Function('CH', *CHargs, IntS)
CH0 = z3.Function('CH0', *CHargs, IntS)


TV = z3.Function('tailv', AII, AII, BoolS, IntS, IntS)


def tailv(es, ee, r, i):
    if z3.is_false(r):
        return es[i]
    if z3.is_true(r):
        return ee[i]
    return TV(es, ee, r, i)


def headv(es, ee, r, i):
    return z3.If(r, es[i], ee[i])


def chain_axioms():
    pi, pr = z3.Const('pi', AII), z3.Const('pr', AIB)
    es, ee, x, k = z3.Const('es', AII), z3.Const('ee', AII), z3.Int('x'), z3.Int('k')
    a = (pi, pr, es, ee, x)
    r = z3.Bool('r')
    tv = z3.ForAll([es, ee, r, k], TV(es, ee, r, k) == z3.If(r, ee[k], es[k]), patterns=[TV(es, ee, r, k)])
    w = CH0(*a, k - 1)
    return [tv, z3.ForAll([pi, pr, es, ee, x, k], z3.And(CH(*a, k) == z3.If(k <= 0, x, tailv(es, ee, pr[w], pi[w])), CH(*a, k) == CH0(*a, k)), patterns=[CH(*a, k)])]


class FindPath(GraphFn):
    name = G + 'TethysGraph::find_source_sink_path'
    mod = ['vertices.vertices.parent_edge']
    ghosts = ('mk', 'dep')

    def __init__(self, null_flow=False):
        self.null_flow = null_flow

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        self.comp0 = args[0] if isz(args[0]) else eng.read(st, args[0])
        st.ghost['mk'] = z3.K(IntS, FALSE)
        st.ghost['dep'] = z3.K(IntS, I(0))
        st.ghost['cnt'] = I(0)
        eng.assumptions.add('pigeonhole: a set of inner vertices has at most as many members as there are vertices')
        st.ghost['qp'] = z3.Store(z3.Const(eng.fname('qp'), AII), SRC, I(-1))
        st.assume(*chain_axioms())

        def onparent(eng, st, loc, new):
            if loc.root != 'this' or len(loc.path) != 4 or loc.path[0] != ('f', 'vertices'):
                return
            i = loc.path[2][1]
            E = Gr(eng.read(st, this)).E
            t = tailv(E.start, E.end, new['is_reciprocal'], new['index'])
            t = eng.named(st, t, 'tail')
            n = Gr(eng.read(st, this)).n
            # cnt is the number of marked vertices, all of which are inner
            # vertices, so it never exceeds their number
            cnt = z3.Int(eng.fname('cnt'))
            st.assume(cnt == st.ghost['cnt'] + z3.If(st.ghost['mk'][i], I(0), I(1)), z3.Implies(z3.And(i >= 0, i < n), cnt <= n))
            st.ghost['cnt'] = cnt
            st.ghost['mk'] = z3.Store(st.ghost['mk'], i, TRUE)
            st.ghost['dep'] = z3.Store(st.ghost['dep'], i, z3.If(t == SRC, I(0), st.ghost['dep'][t]) + 1)

        def onpush(eng, st, op, o, x):
            v = eng.read(st, o)
            if isinstance(x, Node) and 'index' in x.ch and 'lo' in v.ch:
                if op == 'push_front':
                    st.ghost['qp'] = z3.Store(st.ghost['qp'], x['index'], v['lo'] - 1)
                elif op == 'push_back':
                    st.ghost['qp'] = z3.Store(st.ghost['qp'], x['index'], v['lo'] + v['n'])
        eng.hooks['parent_edge'] = [onparent]
        eng.seqhooks = [onpush]

    def make_param(self, eng, st, p, f):
        t = eng.ir.T(p['t'])
        if t['k'] == 'ptr':
            if self.null_flow:
                return Ptr(None)
            l = Loc('flowcell')
            st.roots[l.root] = z3.Int('flowcell0')
            return Ptr(l)
        return super().make_param(eng, st, p, f)

    def requires(self, c):
        g = Gr(c.old(), c.pre)
        return structure(g) + [caps_ok(g), ('source has no parent', is_null(g.spar))]

    # ---- pieces
    def okdest(self, g, mk, comp, d):
        return z3.Or(d == SRC, z3.And(inner(g, d), z3.Or(mk[d], g.vcomp[d] != comp)))

    def S(self, mk, v):
        return z3.Or(v == SRC, mk[v])

    def depv(self, dep, v):
        return z3.If(v == SRC, I(0), dep[v])

    def pathspec(self, g, comp, mk, dep, P, flow):
        """P: Lst of the result (non empty)"""
        E = g.E
        j = V('j')
        T = lambda x: tailv(E.start, E.end, P.rec[x], P.idx[x])
        H = lambda x: headv(E.start, E.end, P.rec[x], P.idx[x])
        rng = z3.And(j >= 0, j < P.n)
        out = [('path length', z3.And(P.n >= 1, P.n <= BIG)),
               ('path edges exist with positive residual', FA(j, z3.Implies(rng, z3.And(
                   P.idx[j] >= 0, P.idx[j] < E.n, res_of(E, P.rec[j], P.idx[j]) > 0)), P.idx[j])),
               ('path starts at the source', z3.And(T(I(0)) == SRC)),
               ('path ends at the sink', H(P.n - 1) == SNK),
               ('path edges are consecutive', FA(j, z3.Implies(z3.And(j >= 0, j < P.n - 1), H(j) == T(j + 1)), P.idx[j])),
               ('path vertices belong to the component', FA(j, z3.Implies(z3.And(j >= 0, j < P.n - 1), z3.And(inner(g, H(j)), g.vcomp[H(j)] == comp)), P.idx[j])),
               ('path visits every vertex once', FA(j, z3.Implies(rng, self.depv(dep, T(j)) == j), P.idx[j]))]
        if flow is not None:
            out += [('reported flow is a lower bound of the residuals', FA(j, z3.Implies(rng, res_of(E, P.rec[j], P.idx[j]) >= flow), P.idx[j])),
                    ('reported flow is reached and positive', z3.And(flow > 0, z3.Exists([j], z3.And(rng, res_of(E, P.rec[j], P.idx[j]) == flow))))]
        return out

    def closure(self, g, comp, mk):
        E = g.E
        e, u = V('e'), V('u')
        inE = z3.And(TRG(e), e >= 0, e < E.n)
        return [('unreached set stays in the component', FA(u, z3.Implies(mk[u], z3.And(inner(g, u), g.vcomp[u] == comp)), mk[u])),
                ('no residual leaves the reached set', FA(e, z3.Implies(z3.And(inE, self.S(mk, E.start[e]), E.flow[e] > 0), self.okdest(g, mk, comp, E.end[e])), E.start[e], E.end[e])),
                ('no reciprocal residual leaves the reached set', FA(e, z3.Implies(z3.And(inE, self.S(mk, E.end[e]), E.rec[e] > 0), self.okdest(g, mk, comp, E.start[e])), E.start[e], E.end[e]))]

    def flowcell(self, c):
        p = c.args[1]
        if isinstance(p, Ptr) and p.loc is not None:
            return c.eng.read(c.st, p.loc)
        return None

    def ensures(self, c):
        g = Gr(c.old(), c.pre)
        comp = c.arg(0)
        mk, dep = c.st.ghost['mk'], c.st.ghost['dep']
        P = Lst(c.res)
        flow = self.flowcell(c)
        emp = P.n == 0
        out = [('empty means zero', z3.Implies(emp, flow == 0))] if flow is not None else []
        for nm, f in self.closure(g, comp, mk):
            out.append((nm, z3.Implies(emp, f)))
        for nm, f in self.pathspec(g, comp, mk, dep, P, flow):
            out.append((nm, z3.Implies(z3.Not(emp), f)))
        return out

    def havoc_extra(self, eng, c):
        p = c.args[1]
        if isinstance(p, Ptr) and p.loc is not None:
            v = z3.Int(eng.fname('path_flow'))
            c.st.assume(v >= 0, v < U64)
            eng.write(c.st, p.loc, v, hook=False)

    # ---- loop invariants
    def loops(self, info):
        eng = info.eng
        th = self.cur_this
        comp = self.comp0
        cands = []
        g_ = lambda st: Gr(eng.read(st, th), st)
        st0 = info.st0
        vv = scope(info, st0, lambda v: rec_named(eng, v, 'VertexPtr'))
        ee = scope(info, st0, lambda v: rec_named(eng, v, 'EdgePtr_Templ'))
        bb = scope(info, st0, lambda v: isz(v) and v.sort() == BoolS)
        vis = scope(info, st0, lambda v: isinstance(v, Node) and v.kind == 'seq' and isz(v['el']) and v['el'].sort() == AIB)
        qq = scope(info, st0, lambda v: isinstance(v, Node) and v.kind == 'seq' and 'lo' in v.ch)
        R = lambda st, l: eng.read(st, l)
        pes = lambda g: (g.vpar['index'], g.vpar['is_reciprocal'])

        def par_ok(st):
            g = g_(st)
            E, mk, dep = g.E, st.ghost['mk'], st.ghost['dep']
            v = V('v')
            pi, pr = g.vpar['index'][v], g.vpar['is_reciprocal'][v]
            t = tailv(E.start, E.end, pr, pi)
            return FA(v, z3.Implies(mk[v], z3.And(pi >= 0, pi < E.n, res_of(E, pr, pi) > 0,
                      headv(E.start, E.end, pr, pi) == v, self.S(mk, t), dep[v] == self.depv(dep, t) + 1, dep[v] >= 1)), pi)
        cands.append(('reached vertices have a valid parent', par_ok))

        def reached_ok(st):
            g = g_(st)
            mk, dep = st.ghost['mk'], st.ghost['dep']
            v = V('v')
            return FA(v, z3.Implies(mk[v], z3.And(inner(g, v), g.vcomp[v] == comp, dep[v] >= 1, dep[v] <= st.ghost['cnt'])), mk[v])
        cands.append(('reached vertices are inner vertices of the component', reached_ok))
        cands.append(('number of reached vertices', lambda st: z3.And(st.ghost['cnt'] >= 0, st.ghost['cnt'] <= g_(st).n)))
        for nm, l in vis:
            cands.append(('%s marks reached' % nm, lambda st, l=l: FA(V('v'), z3.Implies(inner(g_(st), V('v')), R(st, l)['el'][V('v')] == st.ghost['mk'][V('v')]), st.ghost['mk'][V('v')], R(st, l)['el'][V('v')])))
        for nm, l in qq:
            def qel(st, l=l):
                q = R(st, l)
                p = V('p')
                x = q['el']['index'][p]
                return FA(p, z3.Implies(z3.And(p >= q['lo'], p < q['lo'] + q['n']), z3.Or(x == SRC, z3.And(inner(g_(st), x), st.ghost['mk'][x]))), x)
            cands.append(('%s holds reached vertices' % nm, qel))
        for nm, l in vv:
            cands.append(('%s reached' % nm, lambda st, l=l: self.S(st.ghost['mk'], R(st, l)['index'])))
        for nm, l in ee:
            def sp(st, l=l):
                g = g_(st)
                E, x = g.E, R(st, l)
                i, r = x['index'], x['is_reciprocal']
                return z3.Or(is_null(x), z3.And(i >= 0, i < E.n, res_of(E, r, i) > 0, headv(E.start, E.end, r, i) == SNK,
                                                self.S(st.ghost['mk'], tailv(E.start, E.end, r, i))))
            cands.append(('%s enters the sink' % nm, sp))
            for bn, bl in bb:
                cands.append(('%s means %s set' % (bn, nm), lambda st, l=l, bl=bl: z3.Implies(R(st, bl), z3.Not(is_null(R(st, l))))))
            for qn, ql in qq:
                cands += self.closcands(info, g_, R, nm, l, ql, vv, comp)
        cands += self.walk(info, g_, R, ee, pes)
        return cands

    def closcands(self, info, g_, R, nm, l, ql, vv, comp):
        out = []
        its = mod_iters(info)
        ints = counters(info)
        pos = [(n, f) for n, _, f in its] + ints
        mkq = lambda st, u: (lambda q: z3.And(st.ghost['qp'][u] >= q['lo'], st.ghost['qp'][u] < q['lo'] + q['n'], q['el']['index'][st.ghost['qp'][u]] == u))(R(st, ql))

        def fam(sel, st, uc, kc, allow_q):
            """conjunction over reached u with uc(u), list positions kc(k)"""
            g = g_(st)
            E, mk = g.E, st.ghost['mk']
            guard = z3.Not(is_null(R(st, l)))
            u, k = V('u'), V('k')
            fs = []

            def body(u, e, cnt, out_):
                w = E.flow[e] if out_ else E.rec[e]
                d = E.end[e] if out_ else E.start[e]
                return z3.Implies(z3.And(k >= 0, k < cnt, uc(u), kc(k), w > 0), z3.Or(self.okdest(g, mk, comp, d), *([mkq(st, u)] if allow_q else [])))
            if 'o' in sel:
                fs.append(FA([u, k], z3.Implies(mk[u], body(u, g.vout.idx[u][k], g.vout.n[u], True)), g.vout.idx[u][k]))
                fs.append(FA(k, body(I(SRC), g.sout.idx[k], g.sout.n, True), g.sout.idx[k]))
            if 'i' in sel:
                fs.append(FA([u, k], z3.Implies(mk[u], body(u, g.vin.idx[u][k], g.vin.n[u], False)), g.vin.idx[u][k]))
            return z3.Or(guard, z3.And(*fs))
        T = lambda x: TRUE
        for s in 'oi':
            out.append(('%s-edges closed or queued (%s)' % (s, nm), lambda st, s=s: fam(s, st, T, T, True)))
            for xn, xl in vv:
                out.append(('%s-edges closed or queued except %s (%s)' % (s, xn, nm), lambda st, s=s, xl=xl: fam(s, st, lambda u: u != R(st, xl)['index'], T, True)))
                out.append(('%s-edges of %s closed (%s)' % (s, xn, nm), lambda st, s=s, xl=xl: fam(s, st, lambda u: u == R(st, xl)['index'], T, False)))
                for pn, pf in pos:
                    out.append(('%s-edges of %s closed up to %s (%s)' % (s, xn, pn, nm), lambda st, s=s, xl=xl, pf=pf: fam(s, st, lambda u: u == R(st, xl)['index'], lambda k: k < pf(st), False)))
        return out

    def vnum(self, p):
        """vertex number of a Vertex pointer"""
        if not isinstance(p, Ptr) or p.loc is None or p.loc.root != 'this' or not p.loc.path:
            return None
        f = p.loc.path[0][1]
        if f == 'source':
            return I(SRC)
        if f == 'sink':
            return I(SNK)
        if f == 'vertices' and len(p.loc.path) == 3:
            return p.loc.path[2][1]
        return None

    def walk(self, info, g_, R, ee, pes):
        """invariants of the walks along parent edges"""
        eng, st0 = info.eng, info.st0
        out = []
        ptrs = scope(info, st0, lambda v: isinstance(v, Ptr) and self.vnum(v) is not None)
        ints = mod_ints(info)
        cnts = counters(info)
        seqs = scope(info, st0, lambda v: isinstance(v, Node) and v.kind == 'seq' and isinstance(v['el'], Node) and 'is_reciprocal' in v['el'].ch)
        for en, el in ee:
            def x0(st, el=el):
                E, x = g_(st).E, R(st, el)
                return tailv(E.start, E.end, x['is_reciprocal'], x['index'])

            def ch(st, k, el=el, x0=x0):
                g = g_(st)
                pi, pr = pes(g)
                return CH(pi, pr, g.E.start, g.E.end, x0(st), k)
            for pn, pl in ptrs:
                vn = lambda st, pl=pl: self.vnum(R(st, pl))

                def reach(st, vn=vn):
                    v = vn(st)
                    return FALSE if v is None else TRUE if v.eq(I(SRC)) else st.ghost['mk'][v]
                out.append(('%s reached' % pn, reach))
                for (i_n, i_f) in cnts:
                    for off in (1, 0):
                        def at(st, vn=vn, i_f=i_f, off=off, ch=ch):
                            v = vn(st)
                            return FALSE if v is None else z3.And(i_f(st) >= off, v == ch(st, i_f(st) - off))
                        out.append(('%s is %s-%d steps from %s' % (pn, i_n, off, en), at))

                        def depth(st, vn=vn, i_f=i_f, off=off, x0=x0):
                            dep, v = st.ghost['dep'], vn(st)
                            return FALSE if v is None else z3.And(self.depv(dep, v) == self.depv(dep, x0(st)) - (i_f(st) - off))
                        out.append(('%s depth vs %s-%d from %s' % (pn, i_n, off, en), depth))
            for (i_n, i_f) in cnts:
                for off in (1, 0):
                    def chdep(st, i_f=i_f, off=off, ch=ch, x0=x0):
                        g, m, dep = g_(st), V('m'), st.ghost['dep']
                        w = ch(st, m)
                        return FA(m, z3.Implies(z3.And(m >= 0, m <= i_f(st) - off), z3.And(self.S(st.ghost['mk'], w), z3.Implies(m < i_f(st) - off, w != SRC), self.depv(dep, w) == self.depv(dep, x0(st)) - m)), w)
                    out.append(('chain depths to %s-%d from %s' % (i_n, off, en), chdep))
                    for f_n, f_f in ints:
                        if f_n == i_n:
                            continue

                        def rm(st, m, ch=ch):
                            g = g_(st)
                            w = ch(st, m)
                            return res_of(g.E, g.vpar['is_reciprocal'][w], g.vpar['index'][w])

                        def low(st, f_f=f_f, i_f=i_f, off=off, rm=rm, el=el, ch=ch):
                            g, m, x = g_(st), V('m'), R(st, el)
                            return z3.And(f_f(st) > 0, f_f(st) <= res_of(g.E, x['is_reciprocal'], x['index']),
                                          FA(m, z3.Implies(z3.And(m >= 0, m < i_f(st) - off), f_f(st) <= rm(st, m)), ch(st, m)))
                        out.append(('%s below residuals to %s-%d from %s' % (f_n, i_n, off, en), low))

                        def hit(st, f_f=f_f, i_f=i_f, off=off, rm=rm, el=el, ch=ch):
                            g, m, x = g_(st), V('m'), R(st, el)
                            return z3.Or(f_f(st) == res_of(g.E, x['is_reciprocal'], x['index']),
                                         EX([m], z3.And(m >= 0, m < i_f(st) - off, f_f(st) == rm(st, m)), ch(st, m)))
                        out.append(('%s reached among residuals to %s-%d from %s' % (f_n, i_n, off, en), hit))
                    for sn, sl in seqs:
                        def filled(st, sl=sl, i_f=i_f, off=off, ch=ch, el=el):
                            g, q, x = g_(st), Lst(R(st, sl)), R(st, el)
                            w = lambda j: ch(st, q.n - 2 - j)
                            return z3.And(z3.Implies(i_f(st) >= off, z3.And(q.n >= 1, q.idx[q.n - 1] == x['index'], q.rec[q.n - 1] == x['is_reciprocal'])),
                                          FA(V('j'), z3.Implies(z3.And(V('j') <= q.n - 2, q.n - 2 - V('j') < i_f(st) - off),
                                                                z3.And(q.idx[V('j')] == g.vpar['index'][w(V('j'))], q.rec[V('j')] == g.vpar['is_reciprocal'][w(V('j'))])), q.idx[V('j')], q.rec[V('j')]))
                        out.append(('%s filled to %s-%d' % (sn, i_n, off), filled))

                        def filled2(st, sl=sl, i_f=i_f, off=off, ch=ch, el=el):
                            g, q, x, m = g_(st), Lst(R(st, sl)), R(st, el), V('m')
                            w = ch(st, m)
                            return FA(m, z3.Implies(z3.And(m >= 0, m < i_f(st) - off),
                                                    z3.And(q.idx[q.n - 2 - m] == g.vpar['index'][w], q.rec[q.n - 2 - m] == g.vpar['is_reciprocal'][w])), w)
                        out.append(('%s filled from the end to %s-%d' % (sn, i_n, off), filled2))
        return out


# ---------------------------------------------------------------- list sums
# PS(l, f, k) = f[l[0]] + ... + f[l[k-1]]
PS = z3.Function('PS', AII, AII, IntS, IntS)
PS0 = z3.Function('PS0', AII, AII, IntS, IntS)


def sum_axioms():
    l, f, k = z3.Const('l', AII), z3.Const('f', AII), z3.Int('k')
    return [z3.ForAll([l, f, k], z3.And(PS(l, f, k) == z3.If(k <= 0, I(0), PS0(l, f, k - 1) + f[l[k - 1]]), PS(l, f, k) == PS0(l, f, k)), patterns=[PS(l, f, k)])]


class Lemma:
    """proof obligations over the specification functions alone"""

    def __init__(self, label, fn):
        self.label, self.fn = label, fn

    def run1(self, jobs=8, verbose=False, hardfactor=3, short=2, hints=None):
        t0 = time.time()
        dis = Discharger(jobs)
        qs = self.fn()
        rs = dis.batch([(pc, g) for _, pc, g in qs], timeout=30)
        vac = dis.batch([(pc, FALSE) for _, pc, g in qs], timeout=2)
        return {'unit': 'lemma ' + self.label, 'function': None, 'error': None, 'vacuous': any(v[0] == 'valid' for v in vac),
                'obls': [('%s: %s' % (self.label, nm), 0, r[0], r[1], r[2], r[3]) for (nm, _, _), r in zip(qs, rs)],
                'used': [], 'inlined': [], 'assumptions': [], 'exits': {}, 'solver_time': dis.solver_time, 'wall': time.time() - t0, 'file': None}


def lemma_zero():
    """a sum of zeros is zero (induction on the length)"""
    l, f, n, k = z3.Const('l', AII), z3.Const('f', AII), z3.Int('n'), z3.Int('k')
    j = z3.Int('j')
    hyp = sum_axioms() + [FA(j, z3.Implies(z3.And(j >= 0, j < n), f[l[j]] == 0), l[j])]
    return [('base', hyp, PS(l, f, I(0)) == 0),
            ('step', hyp + [k >= 0, k < n, PS(l, f, k) == 0], PS(l, f, k + 1) == 0)]


def lemma_point():
    """changing f at e changes the sum over a list in which e occurs exactly
    at position p (or not at all, p out of range) by the difference"""
    l, f, n, k = z3.Const('l', AII), z3.Const('f', AII), z3.Int('n'), z3.Int('k')
    e, p, v, j = z3.Ints('e p v j')
    f2 = z3.Store(f, e, v)
    hyp = sum_axioms() + [FA(j, z3.Implies(z3.And(j >= 0, j < n), (l[j] == e) == (j == p)), l[j])]
    ih = lambda k: PS(l, f2, k) == PS(l, f, k) + z3.If(z3.And(p >= 0, p < k), v - f[e], I(0))
    return [('base', hyp + [n >= 0], ih(I(0))),
            ('step', hyp + [k >= 0, k < n, ih(k)], ih(k + 1))]


def net(st, v):
    return st.ghost['so'][v] - st.ghost['si'][v]


def conservation(st, g):
    u = V('u')
    return [('flow is conserved at inner vertices', FA(u, z3.Implies(inner(g, u), net(st, u) == 0), st.ghost['so'][u], st.ghost['si'][u])),
            ('flow out of the source enters the sink', net(st, I(SRC)) + net(st, I(SNK)) == 0),
            ('nothing enters the source or leaves the sink', z3.And(st.ghost['si'][SRC] == 0, st.ghost['so'][SNK] == 0))]


def conserved_sums(g, w):
    """the same, about the lists: w is the field that holds the pushed flow"""
    u = V('u')
    return [('flow in equals flow out at inner vertices', FA(u, z3.Implies(inner(g, u), PS(g.vout.idx[u], w, g.vout.n[u]) == PS(g.vin.idx[u], w, g.vin.n[u])),
                                                             PS(g.vout.idx[u], w, g.vout.n[u]), PS(g.vin.idx[u], w, g.vin.n[u]))),
            ('source and sink totals agree', PS(g.sout.idx, w, g.sout.n) == PS(g.tin.idx, w, g.tin.n))]


def sum_link(g, st, w):
    """so/si are the list sums of the pushed flow (lemmas zero and point)"""
    u = V('u')
    so, si = st.ghost['so'], st.ghost['si']
    return [FA(u, z3.Implies(inner(g, u), z3.And(so[u] == PS(g.vout.idx[u], w, g.vout.n[u]), si[u] == PS(g.vin.idx[u], w, g.vin.n[u]))),
               PS(g.vout.idx[u], w, g.vout.n[u]), PS(g.vin.idx[u], w, g.vin.n[u])),
            so[SRC] == PS(g.sout.idx, w, g.sout.n), si[SNK] == PS(g.tin.idx, w, g.tin.n)]


def install_sum_ghosts(eng, st, this):
    st.ghost['so'] = z3.K(IntS, I(0))
    st.ghost['si'] = z3.K(IntS, I(0))

    def onrec(eng, st, loc, new):
        if loc.root != 'this' or len(loc.path) != 4 or loc.path[0] != ('f', 'edges'):
            return
        i = loc.path[2][1]
        E = Gr(eng.read(st, this)).E
        d = new - E.rec[i]
        s, t = E.start[i], E.end[i]
        so, si = st.ghost['so'], st.ghost['si']
        st.ghost['so'] = z3.Store(so, s, so[s] + d)
        st.ghost['si'] = z3.Store(si, t, si[t] + d)
    eng.hooks['rec_flow'] = [onrec]
    eng.assumptions.add('ghost sums so/si equal the list sums: by the lemmas "sum of zeros" and "point update" applied at every store to rec_flow')


class MaxFlow(GraphFn):
    name = G + 'TethysGraph::compute_residual_maxflow'
    mod = ['state', 'vertices.vertices.parent_edge', 'edges.edges.flow', 'edges.edges.rec_flow']
    ghosts = ('mk', 'so', 'si')

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.assume(*sum_axioms())
        st.assume(*chain_axioms())
        install_sum_ghosts(eng, st, this)
        st.ghost['mk'] = z3.K(IntS, FALSE)
        st.ghost['dep'] = z3.K(IntS, I(0))

    def requires(self, c):
        g = Gr(c.old(), c.pre)
        u = V('u')
        return structure(g) + [caps_ok(g), fresh_edges(g), ('source has no parent', is_null(g.spar)),
                               ('no components yet', FA(u, z3.Implies(inner(g, u), g.vcomp[u] == 0), g.vcomp[u]))]

    def throws_when(self, c):
        return Gr(c.old()).state != BUILDING

    def ensures_throw(self, c, exc):
        return [('refused only after computation', Gr(c.old()).state != BUILDING), ('refused call changes nothing', same_graph(c.old(), c.cur()))]

    def maximal(self, g, mk):
        E = g.E
        e = V('e')
        inE = z3.And(TRG(e), e >= 0, e < E.n)
        S = lambda v: z3.Or(v == SRC, z3.And(inner(g, v), mk[v]))
        return [('the cut leaves no residual out', FA(e, z3.Implies(z3.And(inE, S(E.start[e]), E.flow[e] > 0), S(E.end[e])), E.start[e], E.end[e])),
                ('the cut leaves no reciprocal residual out', FA(e, z3.Implies(z3.And(inE, S(E.end[e]), E.rec[e] > 0), S(E.start[e])), E.start[e], E.end[e]))]

    def post(self, c, throw=False):
        if not throw:
            g = Gr(c.cur(), c.st)
            c.st.assume(*sum_link(g, c.st, g.E.rec))

    def ensures(self, c):
        a, b = Gr(c.old(), c.pre), Gr(c.cur(), c.st)
        return [('only run while building', a.state == BUILDING), ('state advanced', b.state == RESIDUAL)] + [caps_ok(b)] \
            + conserved_sums(b, b.E.rec) + self.maximal(b, c.st.ghost['mk'])

    def loops(self, info):
        return flow_loops(self, info)


def flow_loops(con, info):
    eng, st0, th = info.eng, info.st0, con.cur_this
    g_ = lambda st: Gr(eng.read(st, th), st)
    R = lambda st, l: eng.read(st, l)
    cands = [('capacities conserved', lambda st: conserved(g_(st).E))]
    for i, (nm, _) in enumerate(conservation(st0, g_(st0))):
        cands.append((nm, lambda st, i=i: conservation(st, g_(st))[i][1]))
    seqs = scope(info, st0, lambda v: isinstance(v, Node) and v.kind == 'seq' and isinstance(v['el'], Node) and 'is_reciprocal' in v['el'].ch)
    ints = scope(info, st0, lambda v: isz(v) and v.sort() == IntS)
    poss = [(n, f) for n, _, f in mod_iters(info)] + counters(info)
    modr = {k[0] for k in info.mods if k[0] != 'ghost'}
    for sn, sl in seqs:
        for cn, cl in ints:
            if cl.root in modr:
                continue
            for pn, pf in poss:
                H = lambda st, k, sl=sl: (lambda E, P: headv(E.start, E.end, P.rec[k], P.idx[k]))(g_(st).E, Lst(R(st, sl)))

                def resid(st, sl=sl, cl=cl, pf=pf):
                    E, P, j = g_(st).E, Lst(R(st, sl)), V('j')
                    return z3.And(R(st, cl) > 0, FA(j, z3.Implies(z3.And(j >= pf(st), j < P.n), res_of(E, P.rec[j], P.idx[j]) >= R(st, cl)), P.idx[j]))
                cands.append(('rest of %s carries %s (%s)' % (sn, cn, pn), resid))

                def bal(st, cl=cl, pf=pf, H=H):
                    u, k = V('u'), pf(st)
                    return FA(u, z3.Implies(inner(g_(st), u), net(st, u) == z3.If(z3.And(k > 0, u == H(st, k - 1)), -R(st, cl), I(0))), st.ghost['so'][u], st.ghost['si'][u])
                cands.append(('only the head of the pushed prefix of %s is unbalanced by %s (%s)' % (sn, cn, pn), bal))

                def ends(st, cl=cl, pf=pf, H=H):
                    k = pf(st)
                    return net(st, I(SRC)) + net(st, I(SNK)) == z3.If(z3.And(k > 0, H(st, k - 1) != SNK), R(st, cl), I(0))
                cands.append(('source and sink balance up to the pushed prefix of %s by %s (%s)' % (sn, cn, pn), ends))
    return cands
