"""contracts: cuckoo allocator (P11), oceanus table (P12)"""
import z3
from cppvc import *
from unit import Unit
from models import M, val, strval, ignore, simp
import bytesm
from bytesm import enc, dec
from awonvm import up_get, up_release, up_bool, up_ctor
I = z3.IntVal
THIS = Loc('this')
AI = z3.ArraySort(IntS, IntS)
E = 2 ** 64 - 1
K0, K1 = z3.Function('keyhash0', IntS, IntS), z3.Function('keyhash1', IntS, IntS)
KH = (K0, K1)
A_ = 'sse::oceanus::details::CuckooAllocator::'


def vi(v, t, i):
    return Sel(v['table_%d' % t]['el']['value_index'], i)


def hh(v, t, k, i):
    return Sel(Sel(v['table_%d' % t]['el']['key']['h']['el'], i), I(k))


def kfun(st, w, t):
    """part t of the hash of the key the value with index w came with"""
    return KH[t](w)


def winv(st, v, kf=kfun):
    """every stored value sits in the one cell the ghost place says, which is
    the cell its key designates in that table, under the key it came with"""
    n = v['cuckoo_table_size']
    pt, pi = st.ghost['placet'], st.ghost['placei']
    i, x = z3.Int('i!w'), z3.Int('x!w')
    out = [('table sizes', z3.And(v['table_0']['n'] == n, v['table_1']['n'] == n, n > 0))]
    for t in (0, 1):
        w = vi(v, t, i)
        out.append(('a filled cell of table %d is the place of its value' % t, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, w != E), z3.And(w >= 0, w < E, Sel(pt, w) == t, Sel(pi, w) == i)))))
        out.append(('a filled cell of table %d holds the key its value came with' % t, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, w != E), z3.And(hh(v, t, 0, i) == kf(st, w, 0), hh(v, t, 1, i) == kf(st, w, 1))))))
        out.append(('a filled cell of table %d is the one its key designates' % t, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, w != E), i == Engine.modU(hh(v, t, t, i), n)))))
    p = Sel(pi, x)
    out.append(('every placed value is in its cell', z3.ForAll([x], z3.And(Sel(pt, x) >= -1, Sel(pt, x) <= 1, z3.Implies(Sel(pt, x) >= 0, z3.And(
        x != E, 0 <= p, p < n, z3.If(Sel(pt, x) == 0, vi(v, 0, p), vi(v, 1, p)) == x))), patterns=[Sel(pt, x)])))
    return out


def veq(a, b):
    return z3.And(*[x == getleaf(b, p) for p, x in leaves(a) if isz(x)])


class Insert(FnContract):
    may_throw = True
    name = A_ + 'insert'
    mod = None
    ghosts = ('placet', 'placei')
    kf = staticmethod(kfun)

    def setup(self, eng, st, this, args):
        st.ghost['placet'] = z3.Const('placet', AI)
        st.ghost['placei'] = z3.Const('placei', AI)
        eng.ins_args = args
        eng.ins_pre = st.copy()

    def key(self, c, t):
        return Sel(c.arg(0)['h']['el'], I(t))

    def requires(self, c):
        v = c.old(c.thisloc)
        idx = c.arg(1)
        return winv(c.pre, v, self.kf) + [('fresh index', z3.Implies(idx != E, z3.And(self.key(c, 0) == self.kf(c.pre, idx, 0), self.key(c, 1) == self.kf(c.pre, idx, 1), Sel(c.pre.ghost['placet'], idx) == -1)))]

    def inv(self, c, st, v, held):
        pt0 = c.pre.ghost['placet']
        pt = st.ghost['placet']
        x = z3.Int('x!p')
        idx = c.arg(1)
        return winv(st, v, self.kf) + [('stored before plus the new value are exactly those stored now plus the one out of the tables', z3.ForAll([x], z3.Implies(x != E, z3.Or(
            Sel(pt0, x) >= 0, x == idx) == z3.Or(Sel(pt, x) >= 0, x == held)), patterns=[Sel(pt, x)])),
            ('the value out of the tables is in no cell', z3.Implies(held != E, Sel(pt, held) == -1))]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.ins_args)
        c.pre = eng.ins_pre
        out = []
        held = [r for r, x in info.st0.roots.items() if isinstance(x, Node) and x.kind == 'rec' and 'value_index' in x.ch and r.split('!')[0] not in ('obj', 'this')]
        for r in held:
            hv = lambda st, r=r: st.roots[r]['value_index']
            hk = lambda st, k, r=r: Sel(st.roots[r]['key']['h']['el'], I(k))
            nn = len(self.inv(c, info.st0, eng.read(info.st0, THIS), hv(info.st0)))
            for j in range(nn):
                nm = self.inv(c, info.st0, eng.read(info.st0, THIS), hv(info.st0))[j][0]
                out.append((nm + ' (held in %s)' % r, lambda st, j=j, hv=hv: self.inv(c, st, eng.read(st, THIS), hv(st))[j][1]))
            out.append(('the held value comes with its key %s' % r, lambda st, hv=hv, hk=hk: z3.Implies(hv(st) != E, z3.And(hk(st, 0) == self.kf(st, hv(st), 0), hk(st, 1) == self.kf(st, hv(st), 1)))))
            out.append(('the held value is an index %s' % r, lambda st, hv=hv: z3.And(hv(st) >= 0, hv(st) <= E)))
        for key in info.mods:
            if key[0] in ('ghost', 'this') or key[1]:
                continue
            v0 = info.st0.roots[key[0]]
            if isz(v0) and v0.sort() == IntS:
                out.append(('table number %s' % key[0], lambda st, r=key[0]: z3.And(st.roots[r] >= 0, st.roots[r] <= 1)))
        return out

    def ensures(self, c):
        v, v0 = c.cur(c.thisloc), c.old(c.thisloc)
        return [('a valid index', c.arg(1) != E), ('parameters kept', z3.And(v['cuckoo_table_size'] == v0['cuckoo_table_size'], v['max_search_depth'] == v0['max_search_depth']))] + self.inv(c, c.st, v, c.res)

    def ensures_throw(self, c, exc):
        return [('only the reserved index is rejected', c.arg(1) == E), ('the tables are as before', veq(c.cur(c.thisloc), c.old(c.thisloc)))]


def conf(eng):
    w0 = eng.write

    def write(st, loc, new, hook=True):
        if hook and loc.root == 'this' and loc.path and loc.path[0][1] in ('table_0', 'table_1'):
            t = int(loc.path[0][1][-1])
            p = loc.path[1:]
            nv = None
            if len(p) == 1 and p[0][0] == 'e':
                nv = new['value_index']
            elif len(p) == 2 and p[1] == ('f', 'value_index'):
                nv = new
            elif not p or p[1] != ('f', 'key'):
                raise Unsupported('table rewritten')
            if nv is not None:
                i = p[0][1]
                ov = vi(eng.read(st, THIS), t, i)
                pt, pi = st.ghost['placet'], st.ghost['placei']
                pt1 = z3.If(z3.And(ov != E, Sel(pt, ov) == t, Sel(pi, ov) == i), z3.Store(pt, ov, I(-1)), pt)
                a, b = z3.Const(eng.fname('placet'), AI), z3.Const(eng.fname('placei'), AI)
                st.assume(a == z3.If(nv != E, z3.Store(pt1, nv, I(t)), pt1), b == z3.If(nv != E, z3.Store(pi, nv, i), pi))
                st.ghost['placet'], st.ghost['placei'] = a, b
        return w0(st, loc, new, hook)
    eng.write = write


class AllocCtor(FnContract):
    name = A_ + 'CuckooAllocator'
    mod = None

    def setup(self, eng, st, this, args):
        w = z3.Int('w!s')
        st.ghost['placet'] = z3.Const('placet', AI)
        st.ghost['placei'] = z3.Const('placei', AI)
        st.assume(z3.ForAll([w], Sel(st.ghost['placet'], w) == -1, patterns=[Sel(st.ghost['placet'], w)]))

    def requires(self, c):
        return [('a table of at least one cell', z3.And(c.arg(0) > 0, c.arg(0) < 2 ** 50))]

    def ensures(self, c):
        return winv(c.st, c.cur()) + [('the table size asked for', c.cur()['cuckoo_table_size'] == c.arg(0)), ('the search depth asked for', c.cur()['max_search_depth'] == c.arg(1))]

    def ensures_throw(self, c, exc):
        return None


def p11_units():
    return [Unit('oceanus', AllocCtor.name, AllocCtor(), find=dict(nparams=2), label='CuckooAllocator open'), Unit('oceanus', Insert.name, Insert(), conf=conf, label='CuckooAllocator::insert')]


# ------------------------------------------------------------ P12: the table
# The append-only vectors are used through the contracts proved for P14 (same
# instantiation): n elements, el their contents, ok the positions whose append
# succeeded.  Files: f_n, f_el by path.
PS, KS = 512, 16
AS_ = z3.ArraySort(IntS, StrS)
AB = z3.ArraySort(IntS, BoolS)
PGF, PGN = z3.ArraySort(StrS, AS_), z3.ArraySort(StrS, IntS)
B_ = 'sse::oceanus::CuckooBuilder::'
T_ = 'sse::oceanus::CuckooHashTable::'
hash64 = z3.Function('dec0[unsigned long[2]]', StrS, AI)      # the two hash words of a key


def keyof(p):
    return ssub(p, I(0), I(KS))


def valof(p):
    return ssub(p, I(KS), I(PS - KS))


def avec_fresh(eng, ty, name, dims):
    mk = lambda k, s: z3.Const(eng.fname(name + '.' + k), eng.arrsort(dims, s))
    return Node('avec', ty, {'n': mk('n', IntS), 'el': mk('el', AS_), 'ok': mk('ok', AB), 'com': mk('com', BoolS), 'path': mk('path', StrS)})


def files(eng, st):
    st.ghost['f_n'] = z3.Const('f_n', PGN)
    st.ghost['f_el'] = z3.Const('f_el', PGF)
    st.ghost['ioerr'] = FALSE
    p = z3.Const('p!f', StrS)
    st.assume(z3.ForAll([p], z3.And(Sel(st.ghost['f_n'], p) >= 0, Sel(st.ghost['f_n'], p) < 2 ** 49), patterns=[Sel(st.ghost['f_n'], p)]))


def fails(eng, st, e, q='append-only vector'):
    """a copy of the state in which the operation fails with an exception"""
    b = st.copy()
    b.ghost['ioerr'] = TRUE
    eng.sinks[-1].append((b, Opaque('exc', q)))
    return b


def av_ctor(eng, st, e, ty, a):
    if len(a) == 1 and isinstance(a[0], Loc) and isinstance(eng.read(st, a[0]), Node):
        v = eng.read(st, a[0])
        eng.write(st, a[0], v.with_(n=I(0), ok=z3.K(IntS, FALSE), com=TRUE))
        return [(st, v)]
    path = strval(eng, st, a[0])
    if path is None:
        raise Unsupported('path')
    fails(eng, st, e)
    v = eng.fresh(ty, 'vec')
    n = Sel(st.ghost['f_n'], path)
    k = z3.Int('k!av')
    st.assume(v['path'] == path, v['n'] == n, v['com'] == (n > 0), v['el'] == Sel(st.ghost['f_el'], path), z3.ForAll([k], Sel(v['ok'], k) == z3.And(k >= 0, k < n)))
    return [(st, v)]


def av_push(eng, st, e, o, a):
    v = eng.read(st, o)
    x = eng.load(st, a[0]) if isinstance(a[0], Loc) else a[0]
    b = st.copy()
    b.assume(v['com'])
    eng.sinks[-1].append((b, Opaque('exc', 'committed')))
    st.assume(z3.Not(v['com']), v['n'] < 2 ** 49)
    f = st.copy()
    f.ghost['ioerr'] = TRUE
    n1 = z3.Const(eng.fname('n1'), IntS)
    f.assume(n1 >= v['n'], n1 <= v['n'] + 1)
    eng.write(f, o, v.with_(n=n1))
    eng.sinks[-1].append((f, Opaque('exc', 'io')))
    eng.write(st, o, v.with_(n=v['n'] + 1, el=z3.Store(v['el'], v['n'], x), ok=z3.Store(v['ok'], v['n'], TRUE)))
    return [(st, v['n'])]


def av_get(eng, st, e, o, a):
    v = eng.read(st, o)
    i = val(eng, st, a[0])
    b = st.copy()
    b.assume(z3.Or(i >= v['n'], z3.Not(v['com'])))
    eng.sinks[-1].append((b, Opaque('exc', 'position')))
    fails(eng, st, e)
    st.assume(i < v['n'], v['com'])
    x = Sel(v['el'], i)
    eng.oblige(st, Sel(v['ok'], i), 'only positions appended successfully are read', e['line'])
    st.assume(slen(x) == getattr(eng, "page", PS))
    return [(st, x)]


def av_commit(eng, st, e, o, a):
    v = eng.read(st, o)
    fails(eng, st, e)
    f = st.ghost
    f['f_n'] = z3.Store(f['f_n'], v['path'], v['n'])
    f['f_el'] = z3.Store(f['f_el'], v['path'], v['el'])
    eng.write(st, o, v.with_(com=TRUE))
    return [(st, None)]


def av_reserve(eng, st, e, o, a):
    fails(eng, st, e)
    return [(st, None)]


def av_size(eng, st, e, o, a):
    return [(st, eng.read(st, o)['n'])]


def av_com(eng, st, e, o, a):
    return [(st, eng.read(st, o)['com'])]


def remove_file(eng, st, e, o, a):
    p = strval(eng, st, a[0])
    st.ghost['f_n'] = z3.Store(st.ghost['f_n'], p, I(0))
    return [(st, z3.Const(eng.fname('removed'), BoolS))]


def fill(eng, st, e, o, a):
    p, q = val(eng, st, a[0]), val(eng, st, a[1])
    x = val(eng, st, a[2])
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc is not None and same(p.loc, q.loc)):
        return NotImplemented
    v = eng.read(st, p.loc)
    if not (isz(v) and v.sort() == StrS):
        return NotImplemented
    eng.oblige(st, z3.And(p.off >= 0, p.off <= q.off, q.off <= slen(v)), 'the range filled is inside the object', e['line'])
    t = z3.Const(eng.fname('filled'), StrS)
    k = z3.Int('k!f')
    st.assume(slen(t) == slen(v), z3.ForAll([k], z3.Implies(z3.And(k >= p.off, k < q.off), sat(t, k) == x), patterns=[sat(t, k)]))
    eng.write(st, p.loc, t)
    return [(st, None)]


def abegin(eng, st, e, o, a):
    v = eng.read(st, o)
    if isz(v) and v.sort() == StrS:
        return [(st, Ptr(o, I(0)))]
    return NotImplemented


def aend(eng, st, e, o, a):
    v = eng.read(st, o)
    if isz(v) and v.sort() == StrS:
        return [(st, Ptr(o, slen(v)))]
    return NotImplemented


def table_size(eng, st, e, o, a):
    eng.assumptions.add('cuckoo_table_size (floating point) is at least the number of elements, for epsilon >= 0 and fewer than 2^49 elements')
    n = val(eng, st, a[0])
    r = z3.Const(eng.fname('table_size'), IntS)
    st.assume(r >= n, r < 2 ** 50)
    return [(st, r)]


def up_reset(eng, st, e, o, a):
    eng.write(st, o, val(eng, st, a[0]) if a else Ptr(None))
    return [(st, None)]


def up_assign(eng, st, e, o, a):
    v = val(eng, st, a[0])
    if isinstance(a[0], Loc):
        eng.write(st, a[0], Ptr(None))
    eng.write(st, o, v if isinstance(v, Ptr) else Ptr(None))
    return [(st, o)]


# asynchronous reads: async_gets (P14) calls every request's callback once, with
# the element or, if reading failed, with null; two callbacks may overlap
def fn_ctor(eng, st, e, ty, a):
    v = val(eng, st, a[0])
    if isinstance(v, Closure):
        eng.no_local_refs(st, v, e['line'])
        eng.fns.append(v)
        return [(st, I(-1 - len(eng.fns)))]
    if isz(v) and v.sort() == IntS:
        return [(st, v)]
    raise Unsupported('function object')


def fn_call(eng, st, e, o, a):
    f = simp(eng.read(st, o))
    if z3.is_int_value(f) and f.as_long() < 0:
        return eng.call_value(st, eng.fns[-2 - f.as_long()], a, e)
    x = val(eng, st, a[0])
    if not (isinstance(x, Node) and x.kind == 'opt'):
        raise Unsupported('callback argument')
    st.ghost['called'] = simp(st.ghost['called'] + 1)
    st.ghost['lastcb'] = f
    st.ghost['cb_has'] = x['has']
    st.ghost['cb_val'] = x['v']
    return [(st, None)]


def async_gets(eng, st, e, o, a):
    v = eng.read(st, o)
    r = eng.read(st, a[0]) if isinstance(a[0], Loc) else a[0]
    n = simp(r['n'])
    if not z3.is_int_value(n) or n.as_long() > 2:
        raise Unsupported('number of requests')
    n = n.as_long()
    reqs = [(simp(Sel(r['el']['index'], I(k))), simp(Sel(r['el']['callback'], I(k)))) for k in range(n)]
    eng.oblige(st, v['com'], 'the table read is committed', e['line'])
    for i, _ in reqs:
        eng.oblige(st, i < v['n'], 'only positions below the size are read', e['line'])
    fails(eng, st, e)
    outs = []

    def run(s, k, null):
        f = reqs[k][1]
        if null[k]:
            p = Ptr(None)
            s.ghost['ioerr'] = TRUE
        else:
            x = Sel(v['el'], reqs[k][0])
            s.assume(slen(x) == PS)
            p = Ptr(eng.new_root(s, x, 'read'))
        return [t for t, _ in eng.call_value(s, eng.fns[-2 - f.as_long()], [p], e)]

    for order in ([[0, 1], [1, 0]] if n == 2 else [list(range(n))]):
        for null in (([(0, 0)] if getattr(eng, 'reads_ok', False) else [(x, y) for x in (0, 1) for y in (0, 1)]) if n == 2 else [(0,), (1,)][:1 + n]):
            s = st.copy()
            s.ghost['other_run'] = I(0)
            if n == 2:
                eng.other = lambda q, k=order[1], null=null: run(q, k, null)
            after = run(s, order[0], null)
            eng.other = None
            for t in after:
                if n == 2 and t.ghost['other_run'].as_long() == 0:
                    outs += run(t, order[1], null)
                else:
                    outs.append(t)
    return [(t, None) for t in outs]


def fetch_add(eng, st, e, o, a):
    base = eng.models[eng.normq(e['q'])]
    outs = []
    if eng.other is not None and st.ghost['other_run'].as_long() == 0:
        b = st.copy()
        b.ghost['other_run'] = I(1)
        other = eng.other
        for s in other(b):
            outs += base(eng, s, e, o, a)
    return outs + base(eng, st, e, o, a)


def opt_fresh(eng, ty, name, dims):
    raise Unsupported('optional')


def opt_ctor(eng, st, e, ty, a):
    v = val(eng, st, a[0]) if a else None
    if isinstance(v, Node) and v.kind == 'opt':
        return [(st, v)]
    if isinstance(v, Node) and 'nullopt' not in eng.ir.T(v.ty)['s']:
        return [(st, Node('opt', ty, {'has': TRUE, 'v': enc(eng, st, v.ty, v)}))]
    return [(st, Node('opt', ty, {'has': FALSE, 'v': z3.Const(eng.fname('none'), StrS)}))]


AVN = 'sse::abstractio::awonvm_vector'
OV = {'sse::oceanus::details::cuckoo_table_size': table_size, AVN + '::push_back': av_push, AVN + '::get': av_get, AVN + '::commit': av_commit, AVN + '::reserve': av_reserve, AVN + '::size': av_size, AVN + '::set_use_direct_access': av_reserve, AVN + '::is_committed': av_com,
      'sse::utility::remove_file': remove_file, 'std::fill': fill, 'std::array::begin': abegin, 'std::array::end': aend, AVN + '::async_gets': async_gets, 'std::function::operator()': fn_call, 'std::atomic::fetch_add': fetch_add, 'std::__atomic_base::fetch_add': fetch_add,
     'std::unique_ptr::operator->': up_get, 'std::unique_ptr::operator*': up_get, 'std::unique_ptr::get': up_get, 'std::unique_ptr::reset': up_reset,
      'std::unique_ptr::release': up_release, 'std::unique_ptr::operator bool': up_bool, 'std::unique_ptr::operator=': up_assign, 'std::operator<<': ignore, 'std::basic_ostream::operator<<': ignore}


def bconf(eng):
    eng.byte_elems = True
    eng.fns, eng.other = [], None
    eng.special_types = {AVN: 'avec', 'std::function': 'fnid', 'std::experimental::optional': 'opt', 'std::experimental::fundamentals_v1::optional': 'opt'}
    eng.special_sorts = {'fnid': IntS}
    eng.special_fresh = {'avec': avec_fresh, 'opt': opt_fresh}
    eng.models = dict(eng.models)
    eng.models[AVN + '::(ctor)'] = av_ctor
    eng.models['std::function::(ctor)'] = fn_ctor
    eng.models['std::unique_ptr::(ctor)'] = up_ctor
    for q in ('std::experimental::optional', 'std::experimental::fundamentals_v1::optional'):
        eng.models[q + '::(ctor)'] = opt_ctor
    eng.overrides.update(OV)
    eng.unroll = 40


def match(st, p, k):
    """byte strings of 16 bytes are equal iff their bytes are"""
    return z3.And(*[sat(p, I(j)) == sat(k, I(j)) for j in range(KS)]) == (keyof(p) == k)


class MatchKey(FnContract):
    name = 'sse::oceanus::details::match_key'
    mod = ()

    def ensures(self, c):
        p, k = c.arg(0), c.arg(1)
        c.st.assume(match(c.st, p, k))
        return [('the page starts with the key', c.res == (keyof(p) == k))]

    def ensures_throw(self, c, exc):
        return None



# builder
def kf_of(loc):
    """hash of the key of the page stored under an index"""
    return lambda st, w, t: Sel(hash64(keyof(Sel(getleaf(st.roots[loc.root], [p[1] for p in loc.path] + ['data'])['el'], w))), I(t))


def binv(st, v, kf):
    d = v['data']
    pt = st.ghost['placet']
    w = z3.Int('w!b')
    return [('an open builder has an open data file', z3.Implies(z3.Not(v['is_committed']), z3.Not(d['com'])))] + winv(st, v['allocator'], kf) + [
        ('values stored are pages written', z3.ForAll([w], z3.Implies(Sel(pt, w) >= 0, Sel(d['ok'], w)), patterns=[Sel(pt, w)])),
        ('pages written are in the data file', z3.ForAll([w], z3.Implies(Sel(d['ok'], w), z3.And(w >= 0, w < d['n'], slen(Sel(d['el'], w)) == PS)), patterns=[Sel(d['ok'], w)])),
        ('the files are two', z3.And(v['params']['value_file_path'] == d['path'], v['params']['value_file_path'] != v['params']['cuckoo_table_path'])),
        ('the data file is small enough', z3.And(d['n'] >= 0, d['n'] <= 2 ** 49)),
        ('without spilled values every page written is stored', z3.Implies(v['spilled_data']['n'] == 0, z3.ForAll([w], z3.Implies(Sel(d['ok'], w), Sel(pt, w) >= 0), patterns=[Sel(d['ok'], w)])))]


class BInsertCallee(Insert):
    kf = staticmethod(kf_of(THIS))


class Builder(FnContract):
    mod = None
    may_throw = True
    ghosts = ('placet', 'placei', 'f_n', 'f_el', 'ioerr')
    sub = ()        # where the builder or table is in the object

    def L(self, c):
        return c.thisloc.f(*self.sub) if self.sub else c.thisloc

    def kf(self, c):
        return kf_of(self.L(c))

    def setup(self, eng, st, this, args):
        files(eng, st)
        st.ghost['placet'] = z3.Const('placet', AI)
        st.ghost['placei'] = z3.Const('placei', AI)

    def requires(self, c):
        return binv(c.pre, c.old(self.L(c)), self.kf(c))


class BInsert(Builder):
    name = B_ + 'insert'

    def page(self, c):
        return [enc(c.eng, c.st, c.fn['params'][k]['t'], c.arg(k)) for k in (0, 1)]

    def ensures(self, c):
        v, v0 = c.cur(self.L(c)), c.old(self.L(c))
        d, d0 = v['data'], v0['data']
        k, x = self.page(c)
        n = d0['n']
        w = z3.Int('w!i')
        return binv(c.st, v, self.kf(c)) + [
            ('insertion before commit only', z3.And(z3.Not(v0['is_committed']), z3.Not(v['is_committed']))),
            ('one page is added', z3.And(d['n'] == n + 1, d['ok'] == z3.Store(d0['ok'], n, TRUE))),
            ('the page holds the key and the value', z3.And(keyof(Sel(d['el'], n)) == k, valof(Sel(d['el'], n)) == x)),
            ('other pages do not change', z3.ForAll([w], z3.Implies(w != n, Sel(d['el'], w) == Sel(d0['el'], w)))),
            ('parameters kept', z3.And(v['params']['cuckoo_table_path'] == v0['params']['cuckoo_table_path'], v['params']['value_file_path'] == v0['params']['value_file_path'],
                                       v['allocator']['cuckoo_table_size'] == v0['allocator']['cuckoo_table_size'])),
            ('a spilled value is recorded', z3.If(z3.Exists([w], z3.And(Sel(d['ok'], w), Sel(c.st.ghost['placet'], w) < 0)), v['spilled_data']['n'] > 0, TRUE))]

    def ensures_throw(self, c, exc):
        v, v0 = c.cur(self.L(c)), c.old(self.L(c))
        d, d0 = v['data'], v0['data']
        w = z3.Int('w!i')
        return binv(c.st, v, self.kf(c)) + [('nothing is added', z3.And(d['ok'] == d0['ok'], v['is_committed'] == v0['is_committed'])),
                                         ('pages do not change', z3.ForAll([w], z3.Implies(Sel(d0['ok'], w), Sel(d['el'], w) == Sel(d0['el'], w)))),
                                         ('insertion fails after commit or when storage fails only', z3.Or(v0['is_committed'], c.st.ghost['ioerr']))]


def tpage(v, F, off, t, i, n=None):
    """page off+i of file F is cell i of table t"""
    w = vi(v['allocator'], t, i)
    k = z3.Int('k!tp')
    p = Sel(F, off + i)
    return z3.If(w == E, z3.And(slen(p) == PS, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < PS), sat(p, k) == 255), patterns=[sat(p, k)])), p == Sel(v['data']['el'], w))


class Commit(Builder):
    """writes the table file"""
    name = B_ + 'commit'

    def requires(self, c):
        v = c.old(self.L(c))
        return super().requires(c) + [('', z3.Implies(z3.Not(v['is_committed']), Sel(c.pre.ghost['f_n'], v['params']['cuckoo_table_path']) == 0))]

    def content(self, c, v, n, F, upto=None):
        """F holds the first n cells"""
        ts = v['allocator']['cuckoo_table_size']
        i = z3.Int('i!c')
        return [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ts, i + t * ts < n), tpage(v, F, t * ts, t, i)), patterns=[vi(v['allocator'], t, i)]) for t in (0, 1)]

    def unchanged(self, c):
        v, v0 = c.cur(self.L(c)), c.old(self.L(c))
        x = [('the builder keeps what it stored', z3.And(veq(v['allocator'], v0['allocator']), v['data']['el'] == v0['data']['el'], v['data']['ok'] == v0['data']['ok'], v['data']['n'] == v0['data']['n'],
                                                         v['params']['cuckoo_table_path'] == v0['params']['cuckoo_table_path'], v['params']['value_file_path'] == v0['params']['value_file_path']))]
        return x

    def ensures(self, c):
        v, v0 = c.cur(self.L(c)), c.old(self.L(c))
        g, h = c.pre.ghost, c.st.ghost
        path = v0['params']['cuckoo_table_path']
        ts = v0['allocator']['cuckoo_table_size']
        x = z3.Const('p!c', StrS)
        return self.unchanged(c) + [('committed', v['is_committed']),
            ('a second commit writes nothing', z3.Implies(v0['is_committed'], z3.And(h['f_n'] == g['f_n'], h['f_el'] == g['f_el']))),
            ('the file has one page per cell', z3.Implies(z3.Not(v0['is_committed']), Sel(h['f_n'], path) == 2 * ts)),
            ('the table file holds the cells of table 0', z3.Implies(z3.Not(v0['is_committed']), self.content(c, v0, 2 * ts, Sel(h['f_el'], path))[0])),
            ('the table file holds the cells of table 1', z3.Implies(z3.Not(v0['is_committed']), self.content(c, v0, 2 * ts, Sel(h['f_el'], path))[1])),
            ('other files than the two of the builder do not change', z3.ForAll([x], z3.Implies(z3.And(x != path, x != v0['params']['value_file_path']), z3.And(Sel(h['f_n'], x) == Sel(g['f_n'], x), Sel(h['f_el'], x) == Sel(g['f_el'], x)))))]

    def ensures_throw(self, c, exc):
        return self.unchanged(c) + [('commit fails when storage fails only', c.st.ghost['ioerr']), ('committed', c.cur(self.L(c))['is_committed'])]

    def loops(self, info):
        eng = info.eng
        v = eng.read(info.st0, THIS.f(*self.sub) if self.sub else THIS)
        a = v['allocator']
        ts = a['cuckoo_table_size']
        out = []
        tabs = [r for r, x in info.st0.roots.items() if isinstance(x, Node) and x.kind == 'avec']
        for r in tabs:
            tb = lambda st, r=r: st.roots[r]
            out += [('the new file is open %s' % r, lambda st, tb=tb: z3.And(z3.Not(tb(st)['com']), tb(st)['n'] >= 0, tb(st)['n'] <= 2 * ts))]
            k = z3.Int('k!cl')
            out += [('pages written %s' % r, lambda st, tb=tb: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < tb(st)['n']), Sel(tb(st)['ok'], k)), patterns=[Sel(tb(st)['ok'], k)]))]
            for t in (0, 1):
                out.append(('cells of table %d written %s' % (t, r), lambda st, tb=tb, t=t: self.content(None, v, tb(st)['n'], tb(st)['el'])[t]))
            for key in info.mods:
                if key[0] == 'ghost':
                    continue
                v0 = getleaf(info.st0.roots[key[0]], key[1])
                if isinstance(v0, Iter):
                    t = 1 if v0.loc.path and v0.loc.path[-1][1] == 'table_1' else 0
                    idx = lambda st, key=key: getleaf(st.roots[key[0]], key[1]).idx
                elif isz(v0) and v0.sort() == IntS and not key[1]:
                    idx = lambda st, key=key: st.roots[key[0]]
                    t = None
                else:
                    continue
                for tt in ((0, 1) if t is None else (t,)):
                    out.append(('position %s %s %d' % (r, key, tt), lambda st, tb=tb, idx=idx, tt=tt: z3.And(idx(st) >= 0, idx(st) <= ts, tb(st)['n'] == idx(st) + tt * ts)))
        return out


class Move(Builder):
    """the new builder takes over; the old one will not commit"""
    name = B_ + 'CuckooBuilder'

    def requires(self, c):
        return binv(c.pre, c.old(c.args[0]), kf_of(c.args[0]))

    def ensures(self, c):
        v, v0, r = c.cur(self.L(c)), c.old(c.args[0]), c.cur(c.args[0])
        return [('the new builder holds what the old one held: ' + n, f) for n, f in binv(c.st, v, self.kf(c))] + [
            ('same state', z3.And(v['is_committed'] == v0['is_committed'], veq(v['allocator'], v0['allocator']), v['params']['cuckoo_table_path'] == v0['params']['cuckoo_table_path'],
                                  veq(v['data'], v0['data']), v['spilled_data']['n'] == v0['spilled_data']['n'])),
            ('the old builder will not commit', r['is_committed'])]

    def ensures_throw(self, c, exc):
        return None


class Dtor(Commit):
    name = B_ + '~CuckooBuilder'

    def ensures_throw(self, c, exc):
        return [('destruction fails when storage fails only', c.st.ghost['ioerr'])]


# lookup
def tinv(st, v):
    t = v['table']
    k = z3.Int('k!t')
    return [('an open table is a committed file of two halves', z3.And(t['com'], t['n'] == 2 * v['table_size'], v['table_size'] > 0, t['n'] < 2 ** 50)),
            ('every page of the file can be read', z3.ForAll([k], Sel(t['ok'], k) == z3.And(k >= 0, k < t['n']), patterns=[Sel(t['ok'], k)]))]


class TCtor(Builder):
    name = T_ + 'CuckooHashTable'

    def requires(self, c):
        return []

    def ensures(self, c):
        v = c.cur(self.L(c))
        g = c.pre.ghost
        return tinv(c.st, v) + [('the table is the file', z3.And(v['table']['n'] == Sel(g['f_n'], c.arg(0)), v['table']['el'] == Sel(g['f_el'], c.arg(0))))]

    def ensures_throw(self, c, exc):
        n = Sel(c.pre.ghost['f_n'], c.arg(0))
        return [('opening fails on an empty or odd file, or when storage fails', z3.Or(n == 0, n % 2 == 1, c.st.ghost['ioerr']))]


def pages(v, key):
    """the two pages a key designates"""
    n = v['table_size']
    t = v['table']['el']
    m = Engine.modU
    return Sel(t, m(Sel(hash64(key), I(0)), n)), Sel(t, n + m(Sel(hash64(key), I(1)), n))


class Get(Builder):
    name = T_ + 'get'

    def requires(self, c):
        return tinv(c.pre, c.old(self.L(c)))

    def ensures(self, c):
        k = c.arg(0)
        p, q = pages(c.old(self.L(c)), k)
        r = enc(c.eng, c.st, c.fn['ret'], c.res)
        return [('a value found is that of a page with the key in a cell the key designates', z3.Or(z3.And(keyof(p) == k, r == valof(p)), z3.And(keyof(q) == k, r == valof(q)))),
                ('the table does not change', z3.And(*[z3.BoolVal(True)]))]

    def ensures_throw(self, c, exc):
        k = c.arg(0)
        p, q = pages(c.old(self.L(c)), k)
        return [('a key is reported missing when neither cell holds it, or storage failed', z3.Or(c.st.ghost['ioerr'], z3.And(keyof(p) != k, keyof(q) != k)))]


class AsyncGet(Builder):
    name = T_ + 'async_get'
    ghosts = Builder.ghosts + ('called', 'lastcb', 'cb_has', 'cb_val')

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.ghost['called'] = I(0)
        st.ghost['lastcb'] = I(0)
        st.ghost['cb_has'] = FALSE
        st.ghost['cb_val'] = z3.Const('noval', StrS)

    def requires(self, c):
        k = c.arg(0)
        p, q = pages(c.old(self.L(c)), k)
        return tinv(c.pre, c.old(self.L(c))) + [('no two pages hold the key', z3.Not(z3.And(keyof(p) == k, keyof(q) == k))), ('a callback', c.arg(1) > 0), ('', c.pre.ghost['called'] == 0)]

    def ensures(self, c):
        k = c.arg(0)
        p, q = pages(c.old(self.L(c)), k)
        h = c.st.ghost
        return [('the callback is called exactly once', z3.And(h['called'] == 1, h['lastcb'] == c.arg(1))),
                ('a value found is that of a page with the key in a cell the key designates', z3.Implies(h['cb_has'], z3.Or(z3.And(keyof(p) == k, h['cb_val'] == valof(p)), z3.And(keyof(q) == k, h['cb_val'] == valof(q))))),
                ('a key is reported missing when neither cell holds it, or storage failed', z3.Implies(z3.Not(h['cb_has']), z3.Or(h['ioerr'], z3.And(keyof(p) != k, keyof(q) != k))))]

    def ensures_throw(self, c, exc):
        return [('a lookup fails when storage fails only', c.st.ghost['ioerr']), ('and makes no callback', c.st.ghost['called'] == 0)]


class MatchCallee(MatchKey):
    def ensures(self, c):
        return [('the page starts with the key', c.res == (keyof(c.arg(0)) == c.arg(1)))]


class BCommitCallee(Commit):
    pass


def commit_lemma():
    """what commit writes and what lookup reads fit together"""
    F = z3.Const('F', AS_)
    D = z3.Const('D', AS_)
    ok = z3.Const('ok', AB)
    ts = z3.Int('ts')
    k = z3.Const('k', StrS)
    pt, pi = z3.Const('pt', AI), z3.Const('pi', AI)
    T = [z3.Const('T%d' % t, AI) for t in (0, 1)]
    w, i, j = z3.Ints('w i j')
    m = Engine.modU
    loc = lambda t, key: m(Sel(hash64(key), I(t)), ts)
    fill_ = lambda p: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < PS), sat(p, j) == 255), patterns=[sat(p, j)])
    # stored: allocator invariant (proved for insert), table file (proved for commit)
    hyp = [ts > 0]
    for t in (0, 1):
        c = Sel(T[t], i)
        hyp.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ts, c != E), z3.And(c >= 0, Sel(pt, c) == t, Sel(pi, c) == i, i == loc(t, keyof(Sel(D, c))))), patterns=[Sel(T[t], i)]))
        hyp.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ts), z3.If(c == E, fill_(Sel(F, t * ts + i)), Sel(F, t * ts + i) == Sel(D, c))), patterns=[Sel(T[t], i)]))
    hyp.append(z3.ForAll([w], z3.Implies(Sel(pt, w) >= 0, z3.And(Sel(pt, w) <= 1, w != E, Sel(pi, w) >= 0, Sel(pi, w) < ts, z3.If(Sel(pt, w) == 0, Sel(T[0], Sel(pi, w)), Sel(T[1], Sel(pi, w))) == w, Sel(ok, w))), patterns=[Sel(pt, w)]))
    hyp.append(z3.ForAll([w], z3.Implies(Sel(ok, w), Sel(pt, w) >= 0), patterns=[Sel(ok, w)]))       # nothing spilled
    # the key looked up is not the filler
    k0 = z3.Int('k0')
    hyp += [k0 >= 0, k0 < KS, sat(k, k0) != 255]
    p, q = Sel(F, loc(0, k)), Sel(F, ts + loc(1, k))
    # every page read starts with its first 16 bytes
    hyp += [sat(keyof(x), k0) == sat(x, k0) for x in (p, q)]
    hyp += [z3.And(m(Sel(hash64(k), I(t)), ts) >= 0, m(Sel(hash64(k), I(t)), ts) < ts) for t in (0, 1)]
    c0, c1 = Sel(T[0], loc(0, k)), Sel(T[1], loc(1, k))
    hyp += [c0 == c0, c1 == c1]
    u = z3.Int('u')
    # (1) a page of a designated cell with the key is a stored page with that key
    g1 = z3.And(z3.Implies(keyof(p) == k, z3.And(c0 != E, Sel(ok, c0), Sel(D, c0) == p)), z3.Implies(keyof(q) == k, z3.And(c1 != E, Sel(ok, c1), Sel(D, c1) == q)))
    # (2) a stored page u with the key is in one of the two cells
    g2 = z3.Implies(z3.And(Sel(ok, u), keyof(Sel(D, u)) == k), z3.Or(z3.And(p == Sel(D, u), keyof(p) == k), z3.And(q == Sel(D, u), keyof(q) == k)))
    return [('what lookup finds was stored with the key', hyp + [z3.Implies(c0 != E, Sel(pt, c0) == 0), z3.Implies(c1 != E, Sel(pt, c1) == 1)], g1),
            ('what was stored with the key is found', hyp + [z3.Or(Sel(pt, u) == 0, Sel(pt, u) == 1, Sel(pt, u) < 0)], g2)]


class BCtor(Builder):
    """a new builder stores nothing and knows its parameters"""
    name = B_ + 'CuckooBuilder'
    ghosts = ('f_n', 'f_el', 'ioerr')

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        w = z3.Int('w!s')
        st.assume(z3.ForAll([w], Sel(st.ghost['placet'], w) == -1, patterns=[Sel(st.ghost['placet'], w)]))

    def requires(self, c):
        p = c.arg(0)
        return [('two new files', z3.And(p['value_file_path'] != p['cuckoo_table_path'], Sel(c.pre.ghost['f_n'], p['value_file_path']) == 0, Sel(c.pre.ghost['f_n'], p['cuckoo_table_path']) == 0)),
                ('a table of at least one cell', p['max_n_elements'] > 0)]

    def ensures(self, c):
        v, p = c.cur(self.L(c)), c.arg(0)
        w = z3.Int('w!c')
        return binv(c.st, v, self.kf(c)) + [('parameters kept', z3.And(*[v['params'][k] == p[k] for k in ('value_file_path', 'cuckoo_table_path', 'max_search_depth', 'max_n_elements')])),
                                         ('the search depth is the one asked for', v['allocator']['max_search_depth'] == p['max_search_depth']),
                                         ('nothing is stored', z3.And(z3.ForAll([w], z3.Not(Sel(v['data']['ok'], w))), v['spilled_data']['n'] == 0)), ('open', z3.Not(v['is_committed']))]

    def ensures_throw(self, c, exc):
        return [('construction fails when storage fails only', c.st.ghost['ioerr'])]


def isref(want):
    from unit import load_ir
    return lambda f: bool(f['params']) and (load_ir('oceanus').T(f['params'][0]['t'])['k'] in ('ref', 'rref')) == want


OB, OT = 'sse::oceanus::OceanusBuilder::', 'sse::oceanus::Oceanus::'


class OInsert(BInsert):
    name, sub = OB + 'insert', ('cuckoo_builder',)


class OCommit(Commit):
    name, sub = OB + 'commit', ('cuckoo_builder',)


class ODtor(Dtor):
    name, sub = OB + '~OceanusBuilder', ('cuckoo_builder',)


class OGet(Get):
    name, sub = OT + 'get', ('cuckoo_table',)


class OAsync(AsyncGet):
    name, sub = OT + 'async_get', ('cuckoo_table',)


class OOpen(TCtor):
    name, sub = OT + 'Oceanus', ('cuckoo_table',)


class OBOpen(BCtor):
    name, sub = OB + 'OceanusBuilder', ('cuckoo_builder',)

    def requires(self, c):
        p = c.arg(0)
        return [('a new file', z3.And(Sel(c.pre.ghost['f_n'], p) == 0, Sel(c.pre.ghost['f_n'], sconcat(p, c.eng.strconst('.tmp'))) == 0)), ('a table of at least one cell', c.arg(1) > 0),
                ('', z3.And(sconcat(p, c.eng.strconst('.tmp')) != p))]

    def ensures(self, c):
        v = c.cur(self.L(c))
        w = z3.Int('w!c')
        p = c.arg(0)
        return binv(c.st, v, self.kf(c)) + [('the table goes to the path given', v['params']['cuckoo_table_path'] == p), ('parameters passed on', z3.And(v['params']['max_search_depth'] == c.arg(3), v['allocator']['max_search_depth'] == c.arg(3), v['params']['max_n_elements'] == c.arg(1), v['params']['epsilon'] == c.arg(2))),
                                            ('nothing is stored', z3.And(z3.ForAll([w], z3.Not(Sel(v['data']['ok'], w))), v['spilled_data']['n'] == 0)), ('open', z3.Not(v['is_committed']))]


def p12_units():
    from graph import Lemma
    U = lambda con, callee=(), label=None, **f: Unit('oceanus', con.name, con, {x.name: x for x in callee}, conf=bconf, label=label, find=f)
    return [U(MatchKey(), label='match_key'),
            U(BInsert(), (BInsertCallee(),), 'CuckooBuilder::insert'),
            U(Commit(), (), 'CuckooBuilder::commit'),
            U(Move(), (), 'CuckooBuilder move', nparams=1, pred=isref(True)),
            U(BCtor(), (), 'CuckooBuilder open', nparams=1, pred=isref(False)),
            U(Dtor(), (BCommitCallee(),), '~CuckooBuilder'),
            U(TCtor(), (), 'CuckooHashTable open'),
            U(Get(), (MatchCallee(),), 'CuckooHashTable::get'),
            U(AsyncGet(), (MatchCallee(),), 'CuckooHashTable::async_get'),
            U(OBOpen(), (), 'OceanusBuilder open'), U(OInsert(), (BInsert(),), 'OceanusBuilder::insert'), U(OCommit(), (Commit(),), 'OceanusBuilder::commit'), U(ODtor(), (OCommit(),), '~OceanusBuilder'),
            U(OOpen(), (), 'Oceanus open'), U(OGet(), (Get(),), 'Oceanus::get'), U(OAsync(), (AsyncGet(),), 'Oceanus::async_get'),
            Lemma('a committed table answers lookups', commit_lemma)]
