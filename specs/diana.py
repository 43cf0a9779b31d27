"""contracts: Diana (P17) and its masking functions (P20)"""
import z3
from cppvc import *
from unit import Unit
from models import M, val, strval, ignore, simp
from bytesm import bytes_of, store_bytes, enc, dec
I = z3.IntVal
D_ = 'sse::diana::'


# ------------------------------------------------------------- masking (P20)
class Xor(FnContract):
    name = D_ + 'xor_mask'

    def bytes(self, v):
        if z3.is_bv(v):
            return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(v.size() // 8)]
        return [Sel(v['el'], I(i)) for i in range(self.n)]

    def __init__(self, n):
        self.n = n

    def ensures(self, c):
        rd = lambda x: c.eng.read(c.st, x) if isinstance(x, Loc) else x
        x, m, r = [self.bytes(v) for v in (rd(c.arg(0)), rd(c.arg(1)), rd(c.res))]
        return [('each byte of the result is the index byte xor the mask byte', z3.And(len(x) == self.n, *[r[i] == x[i] ^ m[i] for i in range(self.n)])),
                ('masking the result with the same mask gives the index back', z3.And(*[r[i] ^ m[i] == x[i] for i in range(self.n)])),
                ('the index and the mask are not modified', z3.And(*[a == b for i in (0, 1) for a, b in zip(self.bytes(c.cur(c.args[i])), self.bytes(c.old(c.args[i])))]))]


def xor_units():
    def conf(eng):
        eng.bv = True
        eng.unroll = 80
    mk = lambda n, s, l: Unit('diana', Xor.name, Xor(n), conf=conf, find=dict(pred=lambda f: f['key'].endswith(s)), label='diana::xor_mask ' + l)
    return [mk(8, 'xor_maskImEET_RKS2_S4_', '(index, index)'), mk(8, 'xor_maskImEET_RKS2_RSt5arrayIhXstS2_EE', '(index, array)'), mk(16, 'xor_maskILm16EEESt5arrayIhXT_EERKS3_S5_', '(array, array)')]


# ---------------------------------------------------------------- cryptography
PRG = z3.Function('prg', StrS, IntS, IntS, StrS)       # part of the stream of a seed
LEAF = z3.Function('leaf', StrS, IntS, StrS)           # leaf of the tree with a root key
HASH = z3.Function('hash64', StrS, StrS)
PRFK = z3.Function('prf_key', StrS, StrS, StrS)        # PRF key, input
DEC64 = z3.Function('dec0[u64]', StrS, IntS)
X = Engine.xorU
AI = z3.ArraySort(IntS, IntS)
AB = z3.ArraySort(StrS, BoolS)
AS = z3.ArraySort(StrS, IntS)
AST = z3.ArraySort(IntS, StrS)


def rd(eng, st, x):
    return eng.read(st, x) if isinstance(x, Loc) else x


def TOKEN(l):
    return PRG(l, I(0), I(16))


def MASK(l):
    return DEC64(PRG(l, I(16), I(8)))


def KWI(kw):
    """keyword index: the first 16 bytes of the hash"""
    return ssub(HASH(kw), I(0), I(16))


def stream(st, k, off, n):
    t = PRG(k, off, n)
    st.assume(z3.Implies(n >= 0, slen(t) == n))
    return t


def hash_(eng, st, e, o, a):
    if len(a) != 1:
        raise Unsupported('hash overload')
    h = HASH(rd(eng, st, a[0]))
    st.assume(slen(h) == 64)
    return [(st, h)]


def copy_n(eng, st, e, o, a):
    p, n, d = val(eng, st, a[0]), val(eng, st, a[1]), val(eng, st, a[2])
    if not isinstance(p, Iter):
        raise Unsupported('copy_n')
    s = eng.read(st, p.loc)
    if not (isz(s) and s.sort() == StrS):
        raise Unsupported('copy_n')
    b = bytes_of(eng, st, Ptr(p.loc, p.idx), n, e, 'copy_n source')
    if isinstance(d, Iter):
        d = Ptr(d.loc, d.idx)
    store_bytes(eng, st, d, b, n, e)
    return [(st, Ptr(d.loc, simp(d.off + n)))]


def abegin(eng, st, e, o, a):
    return [(st, Ptr(o, I(0)))]


def key_ctor(eng, st, e, ty, a):
    """crypto::Key(uint8_t*): takes the bytes and erases them at the source"""
    r = eng.fresh(ty, 'key')
    x = val(eng, st, a[0])
    n = I(eng.sizeof(ty))
    b = bytes_of(eng, st, x, n, e, 'key')
    z = z3.Const('zero_bytes_%d' % eng.sizeof(ty), StrS)
    st.assume(slen(z) == n)
    store_bytes(eng, st, x, z, n, e)
    return [(st, r.with_(v=b))]


def prg_derive(eng, st, e, o, a):
    k = eng.read(st, o)['k']['v']
    off, n = val(eng, st, a[0]), val(eng, st, a[1])
    store_bytes(eng, st, val(eng, st, a[2]), stream(st, k, off, n), n, e)
    return [(st, None)]


def pinput(eng, st, e, a):
    if len(a) == 2:
        return bytes_of(eng, st, val(eng, st, a[0]), val(eng, st, a[1]), e, 'PRF input')
    return rd(eng, st, a[0])


def prf(eng, st, e, o, a):
    x = pinput(eng, st, e, a)
    r = PRFK(eng.read(st, o)['k']['v'], x)
    st.assume(slen(r) == eng.sizeof(e['rt']) if 'rt' in e else TRUE)
    return [(st, r)]


def derive_key(eng, st, e, o, a):
    x = pinput(eng, st, e, a)
    b = PRFK(eng.read(st, o)['k']['v'], x)
    r = eng.fresh(e['rt'], 'key')
    st.assume(slen(b) == eng.sizeof(e['rt']))
    return [(st, r.with_(v=b))]


def leaf_eval(eng, st, e, o, a):
    """ConstrainedRCPrf::eval: the leaf, for a position in range"""
    v = eng.read(st, o)
    i = val(eng, st, a[0])
    ok = z3.And(i >= v['min_'], i <= v['max_'])
    b = st.copy()
    b.assume(z3.Not(ok))
    if eng.feasible(b, TRUE):
        eng.sinks[-1].append((b, Opaque('exc', 'std::out_of_range')))
    st.assume(ok)
    r = LEAF(v['key'], i)
    st.assume(slen(r) == 32)
    return [(st, r)]


# ----------------------------------------------------- stores (P15, P16 contracts)
def kv_get(eng, st, e, o, a):
    """RockDBWrapper::get (P16), recording the entries found"""
    k = rd(eng, st, a[0])
    g = st.ghost
    v = Sel(g['e_val'], k)
    y, n, f = st, st.copy(), st.copy()
    n.assume(z3.Not(Sel(g['e_has'], k)))
    f.ghost['ioerr'] = TRUE
    y.assume(Sel(g['e_has'], k), v >= 0, v < 2 ** 64)
    eng.write(y, a[1], v)
    if 'f_n' in g:
        c = g['f_n']
        i = INV(k)
        g['f_leaf'], g['f_at'], g['f_n'] = z3.Store(g['f_leaf'], c, i), z3.Store(g['f_at'], i, c), simp(c + 1)
    return [(s, r) for s, r in ((y, TRUE), (n, FALSE), (f, FALSE)) if eng.feasible(s, TRUE)]


def kv_remove(eng, st, e, o, a):
    if len(a) != 1:
        raise Unsupported('remove overload')
    k = rd(eng, st, a[0])
    f = st.copy()
    f.ghost['ioerr'] = TRUE
    st.ghost['e_has'] = z3.Store(st.ghost['e_has'], k, FALSE)
    return [(st, TRUE), (f, FALSE)]


def kv_put(eng, st, e, o, a):
    k, v = rd(eng, st, a[0]), rd(eng, st, a[1])
    f = st.copy()
    f.ghost['ioerr'] = TRUE
    g = st.ghost
    g['e_has'], g['e_val'] = z3.Store(g['e_has'], k, TRUE), z3.Store(g['e_val'], k, v)
    return [(st, TRUE), (f, FALSE)]


def number(g, k):
    """entries inserted for a keyword, from the stored counter"""
    return z3.If(Sel(g['c_has'], k), Sel(g['c_val'], k) + 1, I(0))


def c_get(eng, st, e, o, a):
    k = rd(eng, st, a[0])
    has, v = Sel(st.ghost['c_has'], k), Sel(st.ghost['c_val'], k)
    y, n = st.copy(), st
    y.assume(has, v >= 0, v < 2 ** 32)
    eng.write(y, a[1], v)
    n.assume(z3.Not(has))
    return [(s, r) for s, r in ((y, TRUE), (n, FALSE)) if eng.feasible(s, TRUE)]


def c_next(eng, st, e, o, a):
    """RocksDBCounter::get_and_increment (P15)"""
    eng.assumptions.add('fewer than 2^32 - 1 insertions per keyword')
    k = rd(eng, st, a[0])
    f = st.copy()
    f.ghost['ioerr'] = TRUE
    g = st.ghost
    n = number(g, k)
    st.assume(n >= 0, n < 2 ** 32)
    g['c_has'], g['c_val'] = z3.Store(g['c_has'], k, TRUE), z3.Store(g['c_val'], k, n)
    c = g['i_n']
    g['i_key'], g['i_num'], g['i_n'] = z3.Store(g['i_key'], c, k), z3.Store(g['i_num'], c, n), simp(c + 1)
    eng.write(st, a[1], n)
    return [(st, TRUE), (f, FALSE)]


def c_remove(eng, st, e, o, a):
    k = rd(eng, st, a[0])
    f = st.copy()
    f.ghost['ioerr'] = TRUE
    st.ghost['c_has'] = z3.Store(st.ghost['c_has'], k, FALSE)
    return [(st, TRUE), (f, FALSE)]


def xor_mask(eng, st, e, o, a):
    """diana::xor_mask, bytewise exclusive or (P20)"""
    x, m = rd(eng, st, a[0]), rd(eng, st, a[1])
    if not (isz(x) and x.sort() == IntS and isz(m) and m.sort() == IntS):
        raise Unsupported('xor_mask operands')
    r = X(x, m)
    st.assume(r >= 0, r < 2 ** 64, X(r, m) == x)
    return [(st, r)]


def fn_ctor(eng, st, e, ty, a):
    v = val(eng, st, a[0])
    if isinstance(v, Closure):
        eng.fns.append(v)
        return [(st, I(-1 - len(eng.fns)))]
    if isz(v) and v.sort() == IntS:
        return [(st, v)]
    raise Unsupported('function object')


def fn_call(eng, st, e, o, a):
    """a function given by the caller: its calls are recorded"""
    f = simp(eng.read(st, o))
    if z3.is_int_value(f) and f.as_long() < 0:
        return eng.call_value(st, eng.fns[-2 - f.as_long()], a, e)
    g = st.ghost
    xs = [val(eng, st, x) for x in a]
    c = g['o_n']
    g['o_n'] = simp(c + 1)
    eng.oblige(st, f == eng.given_fn, 'the function called is the one given', e['line'])
    for nm, x in zip(('o_val',) if len(xs) == 1 else ('o_leaf', 'o_val', 'o_tid'), xs):
        g[nm] = z3.Store(g[nm], c, x)
    return [(st, None)]


def thr_ctor(eng, st, e, ty, a):
    """std::thread: the function runs to completion when the thread is made
    (threads write disjoint objects; see DESIGN.md); it must not throw"""
    eng.assumptions.add('threads of one search are modelled as running one after the other')
    g = st.ghost
    t = g['t_n']
    g['t_lo'], g['t_n'] = z3.Store(g['t_lo'], t, g['f_n']), simp(t + 1)
    eng.sinks.append([])
    try:
        rs = eng.call_value(st, val(eng, st, a[0]), [val(eng, st, x) for x in a[1:]], e)
    finally:
        th = eng.sinks.pop()
    for s, x in th:
        eng.oblige(s, FALSE, 'no exception leaves a thread', e['line'])
    return [(s, t) for s, _ in rs]


def thr_join(eng, st, e, o, a):
    g = st.ghost
    t = eng.read(st, o)
    eng.oblige(st, z3.And(t >= 0, t < g['t_n'], z3.Not(Sel(g['t_joined'], t))), 'a thread is joined once', e['line'])
    g['t_joined'] = z3.Store(g['t_joined'], t, TRUE)
    g['j_n'] = simp(g['j_n'] + 1)
    return [(st, None)]


def splice(eng, st, e, o, a):
    """list::splice at the end: the other list's elements are appended, in order"""
    p = val(eng, st, a[0])
    v, w = eng.read(st, o), eng.read(st, a[1])
    if not (isinstance(p, Iter) and same(p.loc, o)) or same(a[1], o):
        raise Unsupported('splice')
    eng.oblige(st, p.idx == v['n'], 'splice at the end of the list', e['line'])
    t = z3.Const(eng.fname('spliced'), v['el'].sort())
    i = z3.Int('i!sp')
    st.assume(z3.ForAll([i], Sel(t, i) == z3.If(i < v['n'], Sel(v['el'], i), Sel(w['el'], i - v['n'])), patterns=[Sel(t, i)]))
    st.assume(w['n'] >= 0)
    eng.write(st, o, v.with_(n=simp(v['n'] + w['n']), el=t))
    eng.write(st, a[1], w.with_(n=I(0)))
    return [(st, None)]


def array_new(eng, st, ty, n):
    """new T[n] of default-constructed sequences"""
    el = eng.fresh(ty, 'newarr', (IntS,))
    if not (isinstance(el, Node) and el.kind == 'seq'):
        raise Unsupported('array new')
    i = z3.Int('i!na')
    st.assume(z3.ForAll([i], Sel(el['n'], i) == 0, patterns=[Sel(el['n'], i)]))
    return Ptr(eng.new_root(st, Node('dyn', ty, {'n': n, 'el': el}), 'heaparr'), I(0))


def prg_ctor(eng, st, e, ty, a):
    k = rd(eng, st, a[0])
    r = eng.fresh(ty, 'prg')
    return [(st, r.with_(k=k))]


def tuple_fresh(eng, ty, name, dims):
    ts = eng.ir.T(ty)['args']
    return Node('rec', ty, {'f%d' % i: eng.fresh(t['t'], '%s.f%d' % (name, i), dims) for i, t in enumerate(ts)})


def make_tuple(eng, st, e, o, a):
    v = eng.fresh(e['rt'], 'tuple')
    return [(st, Node('rec', v.ty, {'f%d' % i: rd(eng, st, val(eng, st, x)) for i, x in enumerate(a)}))]


def get_(eng, st, e, o, a):
    return [(st, a[0].f('f' + e['ta'][0]['v']))]


def aend(eng, st, e, o, a):
    return [(st, Ptr(o, I(eng.arr_n(eng.strip(e['obj']['t'])))))]


OV = {
    'std::make_tuple': make_tuple, 'std::get': get_, 'std::array::end': aend,
    'sse::crypto::Hash::hash': hash_, 'std::copy_n': copy_n, 'std::array::begin': abegin, 'sse::crypto::Prg::derive': prg_derive, 'sse::crypto::Prf::prf': prf,
    'sse::crypto::Prf::derive_key': derive_key, 'sse::crypto::ConstrainedRCPrf::eval': leaf_eval, D_ + 'xor_mask': xor_mask,
    'sse::sophos::RockDBWrapper::get': kv_get, 'sse::sophos::RockDBWrapper::put': kv_put, 'sse::sophos::RockDBWrapper::remove': kv_remove,
    'sse::sophos::RocksDBCounter::get': c_get, 'sse::sophos::RocksDBCounter::get_and_increment': c_next, 'sse::sophos::RocksDBCounter::remove_key': c_remove,
    'std::function::operator()': fn_call, 'std::thread::join': thr_join, 'std::list::splice': splice, 'sse::utility::hex_string': ignore,
}


def conf(eng):
    eng.fns = []
    eng.special_types = {'std::function': 'fnid', 'std::thread': 'thr', 'std::tuple': 'tuple'}
    eng.special_fresh = {'tuple': tuple_fresh}
    eng.special_sorts = {'fnid': IntS, 'thr': IntS}
    eng.models = dict(eng.models)
    eng.models['std::function::(ctor)'] = fn_ctor
    eng.models['std::thread::(ctor)'] = thr_ctor
    eng.models['sse::crypto::Key::(ctor)'] = key_ctor
    eng.models['sse::crypto::Prg::(ctor)'] = prg_ctor
    eng.array_new = array_new
    eng.overrides.update(OV)


INV = z3.Function('entry_of_token', StrS, IntS)


class Fn(FnContract):
    mod = None
    may_throw = True
    gs = ('c_has', 'c_val', 'i_n', 'i_key', 'i_num', 'ioerr')

    def setup(self, eng, st, this, args):
        g = st.ghost
        g['c_has'], g['c_val'] = z3.Const('c_has', AB), z3.Const('c_val', AS)
        g['i_n'], g['i_key'], g['i_num'] = I(0), z3.Const('i_key', AST), z3.Const('i_num', AI)
        g['e_has'], g['e_val'], g['ioerr'] = z3.Const('e_has', AB), z3.Const('e_val', AS), FALSE
        eng.s_this, eng.s_args, eng.s_pre = this, args, st.copy()
        k = z3.Const('k!c', StrS)
        st.assume(z3.ForAll([k], z3.And(Sel(g['c_val'], k) >= 0, Sel(g['c_val'], k) < 2 ** 32 - 1), patterns=[Sel(g['c_val'], k)]))

    def ctx(self, eng):
        c = Ctx(eng, eng.s_pre, None, eng.s_this, eng.s_args)
        c.pre = eng.s_pre
        return c

    def only(self, c, k, n):
        """the keyword's number becomes n, no other changes"""
        x = z3.Const('x!k', StrS)
        return [('the number of entries of the keyword', number(c.st.ghost, k) == n), ('no other keyword is concerned', z3.ForAll([x], z3.Implies(x != k, number(c.st.ghost, x) == number(c.pre.ghost, x))))]

    def kept(self, c):
        x = z3.Const('x!k', StrS)
        return [('the counters do not change', z3.ForAll([x], number(c.st.ghost, x) == number(c.pre.ghost, x)))]

    def ensures_throw(self, c, exc):
        return None

    # keys of the client
    def root(self, c, kw):
        return PRFK(c.old(c.thisloc)['root_prf_']['k']['v'], KWI(kw))

    def kwtok(self, c, kw):
        return PRFK(c.old(c.thisloc)['kw_token_prf_']['k']['v'], KWI(kw))


CL, SV = D_ + 'DianaClient::', D_ + 'DianaServer::'


class Gen(Fn):
    """token and mask: consecutive parts of the stream of the search token"""
    name = D_ + 'gen_update_token_mask'

    def __init__(self, typed):
        self.typed = typed

    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ptr':
            st.roots['buf_' + p['n']] = z3.Const('buf_' + p['n'], StrS)
            return Ptr(Loc('buf_' + p['n']), I(0))
        return super().make_param(eng, st, p, f)

    def seed(self, c):
        a = c.args[0]
        return c.old(a.loc if isinstance(a, Ptr) else a)

    def requires(self, c):
        out = [('', slen(self.seed(c)) == 32)]
        if not self.typed:
            out.append(('', z3.And(c.arg(2) >= 0, c.arg(2) < 2 ** 32, slen(c.old(c.args[3].loc)) >= c.arg(2))))
        return out

    def ensures(self, c):
        s = self.seed(c)
        out = [('the token is the beginning of the stream', c.cur(c.args[1]) == TOKEN(s))]
        if self.typed:
            return out + [('the mask is the next part of the stream', c.cur(c.args[2]) == MASK(s))]
        n = c.arg(2)
        m = c.cur(c.args[3].loc)
        return out + [('the mask is the next part of the stream', z3.Or(ssub(m, I(0), n) == PRG(s, I(16), n), z3.And(m == PRG(s, I(16), n), slen(m) == n)))]


class KwIndex(Fn):
    name = CL + 'get_keyword_index'
    mod = []

    def ensures(self, c):
        return [('a keyword has the index made of its hash', rd(c.eng, c.st, c.res) == KWI(c.arg(0))), ('', slen(KWI(c.arg(0))) == 16)]


class Count(Fn):
    name = CL + 'get_match_count'
    mod = []

    def ensures(self, c):
        return [('as many matches as entries were inserted', c.res == number(c.pre.ghost, c.arg(0)))] + self.kept(c)


class Request(Fn):
    name = CL + 'search_request'
    mod = []

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        k = c.arg(0)
        n = number(c.pre.ghost, k)
        p = r['constrained_rcprf']
        return [('the request announces as many entries as were inserted', r['add_count'] == n),
                ('it covers exactly the leaves of these entries', z3.Implies(n > 0, z3.And(p['min_'] == 0, p['max_'] == n - 1, p['key'] == self.root(c, k)))),
                ('with the token of the keyword', z3.Implies(n > 0, r['kw_token'] == self.kwtok(c, k)))] + self.kept(c)


class Insertion(Fn):
    name = CL + 'insertion_request'

    def entry(self, c, kw, idx, n, r):
        l = LEAF(self.root(c, kw), n)
        return [('under the token of its leaf', r['token'] == TOKEN(l)), ('masked with the mask of its leaf', r['index'] == X(idx, MASK(l)))]

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        n = number(c.pre.ghost, c.arg(0))
        return self.entry(c, c.arg(0), c.arg(1), n, r) + self.only(c, c.arg(0), n + 1)

    def ensures_throw(self, c, exc):
        return [('an insertion fails when its counter cannot be stored', c.st.ghost['ioerr'])]


class Counters(Insertion):
    name = CL + 'get_counters_and_increment'
    ghosts = ('c_has', 'c_val', 'i_n', 'i_key', 'i_num', 'ioerr', 'cursor')

    def out(self, c, st, r, upto):
        l = c.old(c.args[0])
        j = z3.Int('j!u')
        g = st.ghost
        return [('one per update', z3.And(r['n'] == upto, g['i_n'] == upto)),
                ('each update in order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), z3.And(Sel(g['i_key'], j) == Sel(l['el']['first'], j), *self.item(c, g, l, r, j))), patterns=[Sel(self.first(r), j)]))]

    def first(self, r):
        return r['el']['f0']

    def item(self, c, g, l, r, j):
        e = r['el']
        return [Sel(e['f0'], j) == Sel(l['el']['first'], j), Sel(e['f1'], j) == Sel(l['el']['second'], j), Sel(e['f2'], j) == Sel(g['i_num'], j)]

    def loops(self, info):
        c = self.ctx(info.eng)
        out = []
        for it in iters(info):
            p = lambda st, it=it: getleaf(st.roots[it[0]], it[1]).idx
            l = lambda st, it=it: st.roots[getleaf(st.roots[it[0]], it[1]).loc.root]
            out.append(('position %s' % (it,), lambda st, p=p, l=l: z3.And(p(st) >= 0, p(st) <= l(st)['n'])))
            for s in seqs(info):
                for j in range(2):
                    out.append(('out %s %s %d' % (it, s, j), lambda st, p=p, s=s, j=j: self.out(c, st, st.roots[s], p(st))[j][1]))
        return out

    def requires(self, c):
        return [('', c.old(c.args[0])['n'] < 2 ** 40)]

    def ensures(self, c):
        return self.out(c, c.st, rd(c.eng, c.st, c.res), c.old(c.args[0])['n'])


class Bulk(Counters):
    name = CL + 'bulk_insertion_request'

    def first(self, r):
        return r['el']['token'] if 'token' in r['el'].ch else Counters.first(self, r)

    def item(self, c, g, l, r, j):
        e = r['el']
        if 'token' not in e.ch:
            return Counters.item(self, c, g, l, r, j)
        lf = LEAF(self.root(c, Sel(l['el']['first'], j)), Sel(g['i_num'], j))
        return [Sel(e['token'], j) == TOKEN(lf), Sel(e['index'], j) == X(Sel(l['el']['second'], j), MASK(lf))]

    def out(self, c, st, r, upto):
        o = Counters.out(self, c, st, r, upto)
        if 'token' not in r['el'].ch:
            return o
        return [('one per update', r['n'] == upto)] + o[1:]

    def ensures(self, c):
        return Counters.ensures(self, c) + [('one number is taken per update', c.st.ghost['i_n'] == c.old(c.args[0])['n'])]


class Remove(Fn):
    name = CL + 'remove_keyword'

    def ensures(self, c):
        return [('a removed keyword has no entries', z3.Implies(c.res, number(c.st.ghost, c.arg(0)) == 0)), ('no failure without storage failure', z3.Implies(z3.Not(c.st.ghost['ioerr']), c.res))] + \
               [x for x in self.only(c, c.arg(0), I(0)) if 'other' in x[0]]


def iters(info):
    return [k for k in info.mods if k[0] != 'ghost' and isinstance(getleaf(info.st0.roots[k[0]], k[1]), Iter)]


def intvars(info):
    return [k[0] for k in info.mods if k[0] != 'ghost' and not k[1] and isz(info.st0.roots[k[0]]) and info.st0.roots[k[0]].sort() == IntS]


def seqs(info):
    return sorted({k[0] for k in info.mods if k[0] != 'ghost' and isinstance(info.st0.roots.get(k[0]), Node) and info.st0.roots[k[0]].kind == 'seq'})


def U(con, callee=(), label=None, **f):
    return Unit('diana', con.name, con, {x.name: x for x in callee}, conf=conf, label=label or con.name[len(D_):], find=f)


def bconf(eng):
    conf(eng)
    eng.byte_elems = True


# --------------------------------------------------------------------- server
class Insert(Fn):
    name = SV + 'insert'

    def ensures(self, c):
        r = c.arg(0)
        g, g0 = c.st.ghost, c.pre.ghost
        x = z3.Const('x!k', StrS)
        return [('the entry is stored under its token', z3.Or(g['ioerr'], z3.And(Sel(g['e_has'], r['token']), Sel(g['e_val'], r['token']) == r['index']))),
                ('no other entry changes', z3.ForAll([x], z3.Implies(x != r['token'], z3.And(Sel(g['e_has'], x) == Sel(g0['e_has'], x), Sel(g['e_val'], x) == Sel(g0['e_val'], x)))))]


def FA(vs, f, patterns=()):
    """quantifier with patterns, without where they contain a case distinction"""
    try:
        return z3.ForAll(vs, f, patterns=list(patterns))
    except z3.Z3Exception:
        return z3.ForAll(vs, f)


class Search(Fn):
    """visits every entry of the range that is stored, once, with its index"""
    ghosts = ('e_has', 'e_val', 'ioerr', 'f_n', 'f_leaf', 'f_at', 'o_n', 'o_val', 'o_leaf', 'o_tid', 't_n', 't_lo', 't_joined', 'j_n', 'cursor')

    def __init__(self, fn, mode):
        # mode: what becomes of the indexes found (list, vector, calls of a
        # function taking the index, or position, index and thread)
        self.name, self.mode = SV + fn, mode

    def setup(self, eng, st, this, args):
        g = st.ghost
        g['e_has'], g['e_val'], g['ioerr'] = z3.Const('e_has', AB), z3.Const('e_val', AS), FALSE
        for k in ('f_n', 'o_n', 't_n', 'j_n'):
            g[k] = I(0)
        for k in ('f_leaf', 'f_at', 'o_val', 'o_leaf', 'o_tid', 't_lo'):
            g[k] = z3.Const(k, AI)
        g['t_joined'] = z3.Const('t_joined', z3.ArraySort(IntS, BoolS))
        i = z3.Int('i!j')
        st.assume(FA([i], z3.Not(Sel(g['t_joined'], i)), patterns=[Sel(g['t_joined'], i)]))
        eng.given_fn = None
        for a in args:
            v = rd(eng, st, a) if isinstance(a, (Loc,)) else a
            if self.mode in ('calls', 'tcalls') and isinstance(a, Loc) and isz(v) and v.sort() == IntS:
                eng.given_fn = v
                st.assume(v >= 0)
        eng.s_this, eng.s_args, eng.s_pre = this, args, st.copy()

    def req(self, c):
        return rd(c.eng, c.pre, c.args[0])

    def leaf(self, c, i):
        return LEAF(self.req(c)['constrained_rcprf']['key'], i)

    def count(self, c):
        return self.req(c)['add_count']

    def vals(self, c, i):
        l = self.leaf(c, i)
        return X(Sel(c.pre.ghost['e_val'], TOKEN(l)), MASK(l))

    def has0(self, c, i):
        return Sel(c.pre.ghost['e_has'], TOKEN(self.leaf(c, i)))

    def threads(self, c):
        for p, a in zip(c.fn['params'], c.args):
            if c.eng.ir.T(p['t'])['k'] == 'int' and c.eng.ir.T(p['t'])['bits'] == 8:
                return a if isz(a) else c.eng.read(c.pre, a)
        return None

    def deletes(self, c):
        a = c.args[-1]
        return a if isz(a) else c.eng.read(c.pre, a)

    def requires(self, c):
        r = self.req(c)
        p = r['constrained_rcprf']
        i = z3.Int('i!r')
        t = self.threads(c)
        return [('the request covers the entries it announces', z3.Implies(r['add_count'] > 0, z3.And(p['min_'] == 0, p['max_'] == r['add_count'] - 1))),
                ('leaves have different tokens', FA([i], z3.Implies(z3.And(i >= 0, i < r['add_count']), INV(TOKEN(self.leaf(c, i))) == i), patterns=[self.leaf(c, i)]))] + \
               ([('at least one thread', t >= 1)] if t is not None else [])

    def visited(self, c, g, i):
        return z3.And(Sel(g['f_at'], i) >= 0, Sel(g['f_at'], i) < g['f_n'], Sel(g['f_leaf'], Sel(g['f_at'], i)) == i)

    def found(self, c, st, upto):
        """entries found so far: those of the leaves below upto that are stored"""
        g, g0 = st.ghost, c.pre.ghost
        j, i = z3.Int('j!f'), z3.Int('i!f')
        k = z3.Const('k!f', StrS)
        L = Sel(g['f_leaf'], j)
        ent = z3.And(INV(k) >= 0, INV(k) < upto, TOKEN(self.leaf(c, INV(k))) == k)
        return [('', g['f_n'] >= 0),
                ('entries found are stored entries of the range, each found once', FA([j], z3.Implies(z3.And(j >= 0, j < g['f_n']), z3.And(L >= 0, L < upto, self.has0(c, L), Sel(g['f_at'], L) == j)), patterns=[L])),
                ('every stored entry is found', z3.Or(g['ioerr'], FA([i], z3.Implies(z3.And(i >= 0, i < upto, self.has0(c, i)), self.visited(c, g, i)), patterns=[self.leaf(c, i)]))),
                ('stored values do not change', g['e_val'] == g0['e_val']),
                ('entries are removed if asked for, and only those found', FA([k], z3.And(
                    z3.Implies(z3.Not(z3.And(self.deletes(c), ent)), Sel(g['e_has'], k) == Sel(g0['e_has'], k)), z3.Implies(z3.And(self.deletes(c), ent), z3.Or(g['ioerr'], z3.Not(Sel(g['e_has'], k))))), patterns=[Sel(g['e_has'], k)]))]

    def listed(self, c, g, v, upto=None):
        """a sequence holds the indexes of the entries found"""
        j = z3.Int('j!l')
        n = g['f_n'] if upto is None else upto
        return [('as many results as entries found', v['n'] == n), ('the results are the indexes inserted', FA([j], z3.Implies(z3.And(j >= 0, j < n), Sel(v['el'], j) == self.vals(c, Sel(g['f_leaf'], j))), patterns=[Sel(v['el'], j)]))]

    def calls(self, c, g):
        j = z3.Int('j!o')
        Q = lambda f, p: FA([j], z3.Implies(z3.And(j >= 0, j < g['f_n']), f), patterns=[p])
        out = [('one call per entry found', g['o_n'] == g['f_n']), ('each with the index inserted', Q(Sel(g['o_val'], j) == self.vals(c, Sel(g['f_leaf'], j)), Sel(g['o_val'], j)))]
        if self.mode == 'tcalls':
            t = self.threads(c)
            out += [('and the position of the entry', Q(Sel(g['o_leaf'], j) == Sel(g['f_leaf'], j), Sel(g['o_leaf'], j))), ('and the number of a thread', Q(z3.And(Sel(g['o_tid'], j) >= 0, Sel(g['o_tid'], j) < t), Sel(g['o_tid'], j)))]
        return out

    def placed(self, c, g, v, upto):
        i = z3.Int('i!p')
        return [('the vector has room for all entries', v['n'] >= self.count(c)), ('each entry found is at its position', FA([i], z3.Implies(z3.And(i >= 0, i < upto, self.visited(c, g, i)), Sel(v['el'], i) == self.vals(c, i)), patterns=[Sel(v['el'], i)]))]

    def upto(self, g, t):
        return z3.If(t <= 0, I(0), z3.If(t < g['t_n'], Sel(g['t_lo'], t), g['f_n']))

    def split(self, c, g, v, n):
        """list of each thread: what it found"""
        t, k = z3.Int('t!s'), z3.Int('k!s')
        e = v['el']
        lo = self.upto(g, t)
        return [FA([t], z3.Implies(z3.And(t >= 0, t < n), z3.And(Sel(e['n'], t) == self.upto(g, t + 1) - lo, Sel(e['n'], t) >= 0)), patterns=[Sel(e['n'], t)]),
                FA([t, k], z3.Implies(z3.And(t >= 0, t < n, k >= 0, k < Sel(e['n'], t)), Sel(Sel(e['el'], t), k) == self.vals(c, Sel(g['f_leaf'], lo + k))), patterns=[Sel(Sel(e['el'], t), k)])]

    def loops(self, info):
        eng = info.eng
        c = self.ctx(eng)
        c.fn = eng.fnstack[0]
        N = self.count(c)
        out = []
        # what the loop does: starts threads, goes through a range, ends the
        # threads, or puts lists together
        does = {g for g in ('t_n', 'f_n', 'j_n', 'o_n') if ('ghost', g) in info.mods}
        starts, visits = 't_n' in does, 'f_n' in does and 't_n' not in does
        T = self.threads(c)
        ints = intvars(info)
        if self.mode in ('calls', 'tcalls') and 'o_n' in does:
            for j in range(2 if self.mode == 'calls' else 4):
                out.append(('calls %d' % j, lambda st, j=j: self.calls(c, st.ghost)[j][1]))
        for r in ints:
            x = lambda st, r=r: st.roots[r]
            out.append(('range %s' % r, lambda st, x=x: z3.And(x(st) >= 0, x(st) <= N)))
            for j in range(5 if does else 0):
                out.append(('found %s %d' % (r, j), lambda st, x=x, j=j: self.found(c, st, x(st))[j][1]))
            if T is not None and starts:
                n = z3.If(T <= N, T, N)
                out.append(('threads %s' % r, lambda st, x=x: z3.And(x(st) == st.ghost['t_n'], x(st) <= n)))
                D, R = eng.divU(N, n), eng.modU(N, n)
                for d in (0, 1):
                    out.append(('part %s %d' % (r, d), lambda st, x=x, d=d, D=D, R=R: x(st) == st.ghost['t_n'] * D + z3.If(st.ghost['t_n'] < R, st.ghost['t_n'], R) + (D if d else 0)))
                for r2 in ints:
                    if r2 != r:
                        out.append(('step %s %s' % (r, r2), lambda st, x=x, r2=r2, D=D: x(st) == st.roots[r2] + D))
        for it in iters(info):
            p = lambda st, it=it: getleaf(st.roots[it[0]], it[1]).idx
            out.append(('joined %s' % (it,), lambda st, p=p: z3.And(p(st) >= 0, p(st) <= st.ghost['t_n'], st.ghost['j_n'] == p(st))))
        j = z3.Int('j!t')
        for s in seqs(info):
            v = lambda st, s=s: st.roots[s]
            if not (isz(info.st0.roots[s]['el']) and info.st0.roots[s]['el'].sort() == AI):
                continue
            if self.mode == 'list' and T is None:
              for i in range(2):
                out.append(('listed %s %d' % (s, i), lambda st, v=v, i=i: self.listed(c, st.ghost, v(st))[i][1]))
            if self.mode == 'vector':
                out.append(('room %s' % s, lambda st, v=v: v(st)['n'] >= N))
            if starts or 'j_n' in does:
                out.append(('threads in %s' % s, lambda st, v=v: z3.And(v(st)['n'] == st.ghost['t_n'], FA([j], z3.Implies(z3.And(j >= 0, j < st.ghost['t_n']), Sel(v(st)['el'], j) == j), patterns=[Sel(v(st)['el'], j)]))))
            for r in ints:
                x = lambda st, r=r: st.roots[r]
                if self.mode == 'vector':
                    out.append(('placed %s %s' % (s, r), lambda st, v=v, x=x: self.placed(c, st.ghost, v(st), x(st))[1][1]))
                for i in range(0 if does else 2):
                    out.append(('merged %s %s %d' % (s, r, i), lambda st, v=v, x=x, i=i: self.listed(c, st.ghost, v(st), self.upto(st.ghost, x(st)))[i][1]))
        i = z3.Int('i!m')
        if 'f_n' in does and T is not None:
            out.append(('threads started before', lambda st: z3.And(st.ghost['f_n'] >= 0, FA([i], z3.Implies(z3.And(i >= 0, i < st.ghost['t_n']), z3.And(Sel(st.ghost['t_lo'], i) >= 0, Sel(st.ghost['t_lo'], i) <= st.ghost['f_n'])), patterns=[Sel(st.ghost['t_lo'], i)]))))
        if does:
            out.append(('threads joined', lambda st: FA([i], z3.Implies(i >= st.ghost['j_n'], z3.Not(Sel(st.ghost['t_joined'], i))), patterns=[Sel(st.ghost['t_joined'], i)])))
        for s in sorted({k[0] for k in info.mods if k[0] != 'ghost'}):
            d = info.st0.roots.get(s)
            if isinstance(d, Node) and d.kind == 'dyn' and isinstance(d['el'], Node) and 'el' in d['el'].ch:
                for i_ in range(2):
                    if does:
                        out.append(('lists %s %d' % (s, i_), lambda st, s=s, i_=i_: self.split(c, st.ghost, st.roots[s], st.roots[s]['n'])[i_]))
                    for r in () if does else ints:
                        # lists not merged yet
                        out.append(('lists left %s %d %s' % (s, i_, r), lambda st, s=s, i_=i_, r=r: self.left(c, st.ghost, st.roots[s], st.roots[s]['n'], st.roots[r])[i_]))
        return out

    def left(self, c, g, v, n, m):
        t, k = z3.Int('t!s'), z3.Int('k!s')
        e = v['el']
        lo = self.upto(g, t)
        return [FA([t], z3.Implies(z3.And(t >= m, t >= 0, t < n), z3.And(Sel(e['n'], t) == self.upto(g, t + 1) - lo, Sel(e['n'], t) >= 0)), patterns=[Sel(e['n'], t)]),
                FA([t, k], z3.Implies(z3.And(t >= m, t >= 0, t < n, k >= 0, k < Sel(e['n'], t)), Sel(Sel(e['el'], t), k) == self.vals(c, Sel(g['f_leaf'], lo + k))), patterns=[Sel(Sel(e['el'], t), k)])]

    def ensures(self, c):
        g = c.st.ghost
        N = self.count(c)
        out = self.found(c, c.st, N) + [('all threads have ended', g['j_n'] == g['t_n'])]
        if self.mode == 'list':
            return out + self.listed(c, g, rd(c.eng, c.st, c.res))
        if self.mode == 'vector':
            return out + self.placed(c, g, c.cur(c.args[2]), N)
        return out + self.calls(c, g)


def server_units():
    P = lambda s: (lambda f: s in f['key'])
    return [U(Insert()), U(Search('search', 'calls'), nparams=3, label='DianaServer::search(callback)'), U(Search('search', 'list'), nparams=2, label='DianaServer::search'),
            U(Search('search_parallel', 'tcalls'), pred=P('IFvmmhEE'), label='DianaServer::search_parallel(callback with position)'), U(Search('search_parallel', 'calls'), pred=P('IFvmEE'), label='DianaServer::search_parallel(callback)'),
            U(Search('search_parallel', 'list'), nparams=3, label='DianaServer::search_parallel'), U(Search('search_parallel', 'vector'), pred=P('St6vector'), label='DianaServer::search_parallel(vector)')]


def client_units():
    return [Unit('diana', Gen.name, Gen(False), conf=bconf, label='gen_update_token_mask', find=dict(nparams=4)), U(Gen(True), label='gen_update_token_mask<T>(array)', pred=lambda f: 'ImEEvRSt5array' in f['key']), U(Gen(True), label='gen_update_token_mask<T>(pointer)', pred=lambda f: 'ImEEvPh' in f['key']),
            U(KwIndex()), U(Count()), U(Request()), U(Insertion()), U(Counters()), U(Bulk()), U(Remove())]


def p17_units():
    return client_units() + server_units()
