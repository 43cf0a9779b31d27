"""contracts: Sophos (P18)"""
import z3
from cppvc import *
from unit import Unit
from graph import Lemma
from models import M, val, strval, ignore, simp, cat, str_ctor
from bytesm import bytes_of
import diana
from diana import rd, FA, PRFK, HASH, KWI, AI, AB, AS, INV, Fn, intvars, iters, seqs, number, fn_ctor, fn_call, hash_, key_ctor
I = z3.IntVal
S_ = 'sse::sophos::'
CL, SV = S_ + 'SophosClient::', S_ + 'SophosServer::'
POW = z3.Function('tdp_power', StrS, IntS, StrS)      # iterates of the trapdoor permutation, negative ones of its inverse
GEN = z3.Function('tdp_element', StrS, StrS, StrS)    # element made from a PRF key and a seed
XM = z3.Function('mask_index', IntS, StrS, IntS)      # utility::xor_mask (P20)
CHR = z3.Function('chr', IntS, StrS)
RES = z3.Function('residue', IntS, IntS, IntS)        # remainder of the division by the number of threads


def UT(k, st):
    return PRFK(k, sconcat(st, CHR(I(48))))


def UM(k, st):
    return PRFK(k, sconcat(st, CHR(I(49))))


def pow_axioms():
    x = z3.Const('x!p', StrS)
    i, j = z3.Ints('i!p j!p')
    return [FA([x, i, j], POW(POW(x, i), j) == POW(x, i + j), patterns=[POW(POW(x, i), j)]), FA([x], POW(x, I(0)) == x, patterns=[POW(x, I(0))])]


def res_axioms():
    i, j, n = z3.Ints('i!R j!R n!R')
    return [('remainders are below the number of threads', FA([i, n], z3.Implies(z3.And(i >= 0, n > 0), z3.And(RES(i, n) >= 0, RES(i, n) < n, z3.Implies(i < n, RES(i, n) == i), z3.Implies(z3.And(i >= n, i < 2 * n), RES(i, n) == i - n),
                                                                                       z3.Or(i == RES(i, n), i >= RES(i, n) + n))), patterns=[RES(i, n)])),
            ('steps of the number of threads keep the remainder', FA([i, j, n], z3.Implies(z3.And(i >= 0, n > 0, j == i + n), RES(i, n) == RES(j, n)), patterns=[z3.MultiPattern(RES(i, n), RES(j, n))])),
            ('smaller steps change the remainder', FA([i, j, n], z3.Implies(z3.And(i >= 0, n > 0, j > i, j < i + n), RES(i, n) != RES(j, n)), patterns=[z3.MultiPattern(RES(i, n), RES(j, n))]))]


def lemma_res():
    """the facts used about remainders hold for i = n * q + r"""
    i, j, n, q, r, p, s = z3.Ints('i j n q r p s')
    h = [n > 0, i >= 0, j >= 0, i == n * q + r, r >= 0, r < n, j == n * p + s, s >= 0, s < n]
    q0 = [z3.Implies(q <= -1, n * q <= -n), z3.Implies(q >= 1, n * q >= n), z3.Implies(q >= 2, n * q >= 2 * n)]
    d = z3.Int('d')
    hd = h + [d == p - q, n * p - n * q == n * d, z3.Implies(d >= 1, n * d >= n), z3.Implies(d <= -1, n * d <= -n), z3.Implies(d >= 2, n * d >= 2 * n), z3.Implies(d == 0, n * d == 0)]
    return [('products 1', [n > 0, q <= -1], n * q <= -n), ('products 2', [n > 0, q >= 1], n * q >= n), ('products 3', [n > 0, q >= 2], n * q >= 2 * n),
            ('quotient at least 0', h + q0, q >= 0), ('below n', h + q0 + [i < n], r == i), ('between n and 2n', h + q0 + [i >= n, i < 2 * n], z3.And(q == 1)), ('value between n and 2n', h + [q == 1], r == i - n),
            ('itself or a step further', h + q0 + [q >= 0, z3.Implies(q == 0, n * q == 0)], z3.Or(i == r, i >= r + n)),
            ('a step keeps it', hd + [j == i + n], r == s), ('less than a step changes it', hd + [j > i, j < i + n], r != s)]


# --------------------------------------------------------------- models
def cbytes(eng, st, x, n, e, what):
    """bytes behind a character pointer"""
    if isinstance(x, Opaque) and x.tag == 'cstr' and x.data is not None:
        v = x.data
        eng.oblige(st, z3.And(n >= 0, n <= slen(v)), '%s inside the string' % what, e['line'])
        return simp(z3.If(n == slen(v), v, ssub(v, I(0), n))) if not z3.is_true(simp(n == slen(v))) else v
    return bytes_of(eng, st, x, n, e, what)


def sctor(eng, st, e, ty, a):
    if len(a) >= 2:
        x, n = val(eng, st, a[0]), val(eng, st, a[1])
        if isz(n) and (isinstance(x, Ptr) or isinstance(x, Opaque) and x.tag == 'cstr'):
            return [(st, cbytes(eng, st, x, n, e, 'string'))]
    return str_ctor(eng, st, e, ty, a)


def serase(eng, st, e, o, a):
    n = val(eng, st, a[0])
    if isinstance(n, Iter) or len(a) == 2 and not z3.is_true(simp(val(eng, st, a[1]) == 2 ** 64 - 1)):
        raise Unsupported('string erase')
    v = eng.read(st, o)
    eng.oblige(st, z3.And(n >= 0, n <= slen(v)), 'erase inside the string', e['line'])
    t = ssub(v, I(0), n)
    st.assume(slen(t) == n)
    eng.write(st, o, t)
    return [(st, o)]


def prf(eng, st, e, o, a):
    x = cbytes(eng, st, val(eng, st, a[0]), val(eng, st, a[1]), e, 'PRF input') if len(a) == 2 else strval(eng, st, a[0])
    r = PRFK(eng.read(st, o)['k']['v'], x)
    st.assume(slen(r) == eng.sizeof(e['rt']))
    return [(st, r)]


def gen_array(eng, st, e, o, a):
    r = GEN(eng.read(st, a[0])['k']['v'], rd(eng, st, a[1]))
    st.assume(slen(r) == 256)
    return [(st, r)]


def power(eng, st, x, i):
    r = POW(x, i)
    st.assume(slen(r) == 256)
    return r


def prf_ctor(eng, st, e, ty, a):
    v = eng.fresh(ty, 'prf')
    return [(st, v.with_(k=v['k'].with_(v=rd(eng, st, a[0])['v'])))] if a else [(st, v)]


def invert_mult(eng, st, e, o, a):
    return [(st, power(eng, st, rd(eng, st, a[0]), simp(-val(eng, st, a[1]))))]


def tdp_eval(eng, st, e, o, a):
    """TdpMultPool::eval: the order is positive and at most that of the pool"""
    x = rd(eng, st, a[0])
    if len(a) == 1:
        return [(st, power(eng, st, x, I(1)))]
    n = val(eng, st, a[1])
    ok = z3.And(n > 0, n <= eng.read(st, o)['mo'])
    b = st.copy()
    b.assume(z3.Not(ok))
    if eng.feasible(b, TRUE):
        eng.sinks[-1].append((b, Opaque('exc', 'std::invalid_argument')))
    st.assume(ok)
    return [(st, power(eng, st, x, n))]


def tdp_ctor(eng, st, e, ty, a):
    return [(st, eng.fresh(ty, 'tdp').with_(mo=val(eng, st, a[1])))]


def xor_mask(eng, st, e, o, a):
    x, m = rd(eng, st, a[0]), rd(eng, st, a[1])
    r = XM(x, m)
    st.assume(r >= 0, r < 2 ** 64, XM(r, m) == x)
    return [(st, r)]


def hw(eng, st, e, o, a):
    r = z3.Const('hardware_concurrency', IntS)
    st.assume(r >= 0, r < 2 ** 32)
    return [(st, r)]


# jobs and threads: each runs to completion when it is handed over
def run_job(eng, st, f, xs, e, who):
    f = eng.read(st, f) if isinstance(f, Loc) else f
    if isinstance(f, Closure):
        ps = eng.ir.funcs[f.f]['params']
        for i, p in enumerate(ps):
            if eng.ir.T(p['t'])['k'] == 'int' and i < len(xs) and isz(xs[i]):
                xs[i] = eng.wrap(st, xs[i], p['t'])
    free = [r for r, v in st.roots.items() if isz(v) and r in eng.mutexes]
    eng.jobs.append((set(st.roots), who))
    eng.sinks.append([])
    try:
        if isz(f):
            l = eng.new_root(st, f, 'fn')
            rs = fn_call(eng, st, e, l, xs)
        else:
            rs = eng.call_value(st, f, xs, e)
    finally:
        th = eng.sinks.pop()
        eng.jobs.pop()
    for s, x in th:
        eng.oblige(s, FALSE, 'no exception leaves a %s' % who[0], e['line'])
    for s, _ in rs:
        for r in free:
            eng.oblige(s, z3.Not(s.roots[r]), 'a job releases the mutexes it takes', e['line'])
    return [s for s, _ in rs]


def thr_ctor(eng, st, e, ty, a):
    eng.assumptions.add('threads and jobs of one search are modelled as running one after the other')
    g = st.ghost
    t = g['t_n']
    g['t_n'] = simp(t + 1)
    return [(s, t) for s in run_job(eng, st, a[0], [val(eng, st, x) for x in a[1:]], e, ('thread', None))]


def thr_emplace(eng, st, e, o, a):
    v = eng.read(st, o)
    el = v.ch.get('el') if isinstance(v, Node) else None
    if not (isinstance(v, Node) and v.kind == 'seq') or eng.shape(eng.elem_ty(v.ty)) != 'thr':
        return NotImplemented
    out = []
    for s, t in thr_ctor(eng, st, e, eng.elem_ty(v.ty), a):
        w = eng.read(s, o)
        n = w['n'] if 'lo' not in w.ch else w['lo'] + w['n']
        eng.write(s, o, w.with_(el=z3.Store(w['el'], simp(n), t), n=simp(w['n'] + 1)))
        out.append((s, None))
    return out


def pool_ctor(eng, st, e, ty, a):
    n = val(eng, st, a[0]) if a else None
    if n is not None:
        eng.oblige(st, n > 0, 'a pool has at least one thread', e['line'])
    p = I(len(eng.pools))
    eng.pools.append(e['line'])
    st.ghost['p_joined'] = z3.Store(st.ghost['p_joined'], p, FALSE)
    st.ghost['p_n'] = simp(p + 1)
    return [(st, p)]


def pool_enqueue(eng, st, e, o, a):
    """ThreadPool::enqueue (P22): the job runs once; refused after join"""
    p = simp(eng.read(st, o))
    if not z3.is_int_value(p):
        raise Unsupported('pool')
    if eng.jobs and eng.jobs[-1][1][1] is not None:
        eng.feeds.add((eng.jobs[-1][1][1], p.as_long()))
    b = st.copy()
    b.assume(Sel(st.ghost['p_joined'], p))
    if eng.feasible(b, TRUE):
        eng.sinks[-1].append((b, Opaque('exc', 'std::runtime_error')))
    st.assume(z3.Not(Sel(st.ghost['p_joined'], p)))
    return [(s, eng.fresh(e['rt'], 'future')) for s in run_job(eng, st, a[0], [rd(eng, st, x) if isinstance(x, Loc) else x for x in a[1:]], e, ('job', p.as_long()))]


def no_feeders(eng, st, p, line):
    for q, r in sorted(eng.feeds):
        if r == p.as_long() and q != r:
            eng.oblige(st, Sel(st.ghost['p_joined'], I(q)), 'a pool is joined after the pools whose jobs use it', line)
    eng.oblige(st, st.ghost['j_n'] == st.ghost['t_n'], 'a pool is joined after the threads which use it', line)


def pool_join(eng, st, e, o, a):
    p = simp(eng.read(st, o))
    no_feeders(eng, st, p, e['line'])
    st.ghost['p_joined'] = z3.Store(st.ghost['p_joined'], p, TRUE)
    return [(st, None)]


def pool_dtor(eng, st, l):
    p = simp(eng.read(st, l))
    if eng.pool_result:
        eng.oblige(st, Sel(st.ghost['p_joined'], p), 'the jobs have run when the results are returned', 0)
    s = st.copy()
    no_feeders(eng, st, p, 0)
    st.ghost['p_joined'] = z3.Store(st.ghost['p_joined'], p, TRUE)


def m_fresh(eng, ty, name, dims):
    return FALSE


def m_ctor(eng, st, e, ty, a):
    return [(st, FALSE)]


def m_lock(eng, st, e, o, a):
    eng.oblige(st, z3.Not(eng.read(st, o)), 'a mutex is not taken twice', e['line'])
    eng.mutexes.add(o.root)
    eng.write(st, o, TRUE)
    return [(st, None)]


def m_unlock(eng, st, e, o, a):
    eng.oblige(st, eng.read(st, o), 'a mutex is released by its holder', e['line'])
    eng.write(st, o, FALSE)
    return [(st, None)]


def guarded(eng, st, op, o, x):
    """a job changes a sequence made outside of it with a mutex held"""
    if eng.jobs and o.root in eng.jobs[0][0]:
        eng.oblige(st, z3.Or(FALSE, *[st.roots[r] for r in eng.mutexes if r in st.roots]), 'results shared between jobs are changed with the mutex held', 0)


def lg_ctor(eng, st, e, ty, a):
    m_lock(eng, st, e, a[0], [])
    r = eng.fresh(ty, 'lock')
    eng.guards[str(r)] = a[0]
    return [(st, r)]


def lg_dtor(eng, st, l):
    m = eng.guards.get(str(eng.read(st, l)))
    if m is None:
        raise Unsupported('lock')
    eng.write(st, m, FALSE)


OV = {
    'sse::crypto::Hash::hash': hash_, 'sse::crypto::Prf::prf': prf, 'sse::crypto::TdpInverse::generate_array': gen_array, 'sse::crypto::TdpInverse::invert_mult': invert_mult, 'sse::crypto::TdpMultPool::eval': tdp_eval,
    'sse::utility::xor_mask': xor_mask, 'sse::utility::hex_string': ignore, 'std::basic_string::erase': serase, 'std::thread::hardware_concurrency': hw,
    'sse::sophos::RockDBWrapper::get': diana.kv_get, 'sse::sophos::RockDBWrapper::put': diana.kv_put, 'sse::sophos::RocksDBCounter::get': diana.c_get, 'sse::sophos::RocksDBCounter::get_and_increment': diana.c_next,
    'std::function::operator()': fn_call, 'std::thread::join': diana.thr_join, 'std::vector::emplace_back': thr_emplace, 'std::vector::push_back': thr_emplace, 'ThreadPool::enqueue': pool_enqueue, 'ThreadPool::join': pool_join,
    'std::mutex::lock': m_lock, 'std::mutex::unlock': m_unlock,
}


def conf(eng):
    eng.fns, eng.pools, eng.feeds, eng.jobs, eng.mutexes, eng.guards = [], [], set(), [], set(), {}
    eng.pool_result = False
    eng.dis.restarts = ((0, 0.2), (1, 0.2), (2, 0.2), (3, 0.2), (4, 0.2))
    eng.special_types = {'std::function': 'fnid', 'std::thread': 'thr', 'ThreadPool': 'pool', 'std::mutex': 'mtx', 'std::lock_guard': 'lock', 'std::unique_lock': 'lock'}
    eng.special_sorts = {'fnid': IntS, 'thr': IntS, 'pool': IntS, 'mtx': BoolS, 'lock': IntS}
    eng.models = dict(eng.models)
    eng.models['std::function::(ctor)'] = fn_ctor
    eng.models['std::thread::(ctor)'] = thr_ctor
    eng.models['ThreadPool::(ctor)'] = pool_ctor
    eng.models['std::mutex::(ctor)'] = m_ctor
    eng.models['sse::crypto::Key::(ctor)'] = key_ctor
    eng.models['sse::crypto::Prf::(ctor)'] = prf_ctor
    eng.models['sse::crypto::TdpMultPool::(ctor)'] = tdp_ctor
    eng.models['sse::sophos::RockDBWrapper::(ctor)'] = lambda eng, st, e, ty, a: [(st, eng.fresh(ty, 'db'))]
    eng.models['std::basic_string::(ctor)'] = sctor
    for c in ('lock_guard', 'unique_lock'):
        eng.models['std::%s::(ctor)' % c] = lg_ctor
    eng.dtor_models = {'ThreadPool': pool_dtor, 'std::lock_guard': lg_dtor, 'std::unique_lock': lg_dtor}
    eng.seqhooks = [guarded]
    eng.overrides.update(OV)


# ------------------------------------------------------------- common part
class Masks(FnContract):
    name = S_ + 'gen_update_token_masks'
    mod = None

    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ptr':
            st.roots['buf_' + p['n']] = z3.Const('buf_' + p['n'], StrS)
            return Ptr(Loc('buf_' + p['n']), I(0))
        return super().make_param(eng, st, p, f)

    def st_bytes(self, c):
        x = c.args[1]
        if isinstance(x, Loc):
            x = c.eng.read(c.pre, x)
        v = x.data if isinstance(x, Opaque) else c.old(x.loc)
        return v

    def requires(self, c):
        x = c.args[1]
        if isinstance(x, Loc):
            x = c.eng.read(c.pre, x)
        return [('the search token has 256 bytes', slen(self.st_bytes(c)) == 256)] + ([('', x.off == 0)] if isinstance(x, Ptr) else [])

    def ensures(self, c):
        k = c.old(c.args[0])['k']['v']
        s = self.st_bytes(c)
        return [('the update token is derived from the search token', c.cur(c.args[2]) == UT(k, s)), ('the mask is derived from the search token, differently', c.cur(c.args[3]) == UM(k, s)), ('', z3.And(slen(c.cur(c.args[2])) == 16, slen(c.cur(c.args[3])) == 16))]


# ------------------------------------------------------------------- client
class SFn(Fn):
    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.assume(*pow_axioms())
        eng.s_pre = st.copy()

    def base(self, c, kw):
        return GEN(c.old(c.thisloc)['rsa_prg_']['k']['v'], KWI(kw))

    def dkey(self, c, kw):
        return PRFK(c.old(c.thisloc)['k_prf_']['k']['v'], KWI(kw))


class KwIndex(SFn):
    name = CL + 'get_keyword_index'
    mod = []

    def ensures(self, c):
        return [('a keyword has the index made of its hash', rd(c.eng, c.st, c.res) == KWI(c.arg(0))), ('', slen(KWI(c.arg(0))) == 16)]


class Request(SFn):
    name = CL + 'search_request'
    mod = []

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        k = c.arg(0)
        n = number(c.pre.ghost, k)
        i = z3.Int('i!q')
        return [('the request announces as many entries as were inserted', r['add_count'] == n),
                ('its token is that of the newest entry', z3.Implies(n > 0, r['token'] == POW(self.base(c, k), -(n - 1)))),
                ('with the derivation key of the keyword', z3.Implies(n > 0, r['derivation_key'] == self.dkey(c, k))),
                ('the tokens walked are those of the entries, from the newest to the oldest', FA([i], z3.Implies(z3.And(i >= 0, i < n), POW(r['token'], i) == POW(self.base(c, k), -(n - 1 - i)))))] + self.kept(c)


class Insertion(SFn):
    name = CL + 'insertion_request'

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        k = c.arg(0)
        n = number(c.pre.ghost, k)
        s = POW(self.base(c, k), -n)
        return [('under the token of the next search token', r['token'] == UT(self.dkey(c, k), s)), ('masked with the mask of the next search token', r['index'] == XM(c.arg(1), UM(self.dkey(c, k), s)))] + self.only(c, k, n + 1)

    def ensures_throw(self, c, exc):
        return [('an insertion fails when its counter cannot be stored', c.st.ghost['ioerr'])]


# ------------------------------------------------------------------- server
class Ctor(FnContract):
    name = SV + 'SophosServer'
    mod = None

    def ensures(self, c):
        t = c.cur(c.thisloc)
        return [('the order of the pool is positive', t['public_tdp_']['mo'] > 0), ('the largest number of threads is the order of the pool', t['max_rsa_threads_'] == t['public_tdp_']['mo'])]


class Insert(diana.Insert):
    name = SV + 'insert'


class Search(Fn):
    """visits every entry announced that is stored, once, with its index"""

    def __init__(self, fn, mode, threads=()):
        # threads: parameters that must be positive
        self.name, self.mode, self.tp = SV + fn, mode, threads

    def setup(self, eng, st, this, args):
        g = st.ghost
        g['e_has'], g['e_val'], g['ioerr'] = z3.Const('e_has', AB), z3.Const('e_val', AS), FALSE
        for k in ('f_n', 'o_n', 't_n', 'j_n', 'p_n'):
            g[k] = I(0)
        for k in ('f_leaf', 'f_at', 'o_val', 'o_leaf', 'o_tid'):
            g[k] = z3.Const(k, AI)
        g['t_joined'] = z3.Const('t_joined', z3.ArraySort(IntS, BoolS))
        g['p_joined'] = z3.Const('p_joined', z3.ArraySort(IntS, BoolS))
        i = z3.Int('i!j')
        st.assume(FA([i], z3.Not(Sel(g['t_joined'], i)), patterns=[Sel(g['t_joined'], i)]))
        eng.given_fn = None
        eng.pool_result = self.mode == 'list'
        for a in args:
            v = rd(eng, st, a)
            if self.mode == 'calls' and isz(v) and v.sort() == IntS and isinstance(a, Loc) or isz(a) and False:
                eng.given_fn = v
        f = eng.fnstack[0] if eng.fnstack else None
        if self.mode == 'calls':
            eng.given_fn = self.fnarg(eng, st, args)
            st.assume(eng.given_fn >= 0)
        st.assume(*pow_axioms())
        st.assume(*[f for _, f in res_axioms()])
        eng.s_this, eng.s_args, eng.s_pre = this, args, st.copy()

    def fnarg(self, eng, st, args):
        return rd(eng, st, args[1])

    def req(self, c):
        return rd(c.eng, c.pre, c.args[0])

    def count(self, c):
        return self.req(c)['add_count']

    def stok(self, c, i):
        return POW(self.req(c)['token'], i)

    def tok(self, c, i):
        return UT(self.req(c)['derivation_key'], self.stok(c, i))

    def vals(self, c, i):
        return XM(Sel(c.pre.ghost['e_val'], self.tok(c, i)), UM(self.req(c)['derivation_key'], self.stok(c, i)))

    def has0(self, c, i):
        return Sel(c.pre.ghost['e_has'], self.tok(c, i))

    def requires(self, c):
        r = self.req(c)
        i = z3.Int('i!r')
        t = c.old(c.thisloc)
        return [('the tokens of the entries are different', FA([i], z3.Implies(z3.And(i >= 0, i < r['add_count']), INV(self.tok(c, i)) == i), patterns=[self.stok(c, i)])),
                ('', slen(r['token']) == 256), ('', slen(r['derivation_key']) == 32),
                ('the largest number of threads is the order of the pool', z3.And(t['public_tdp_']['mo'] > 0, t['max_rsa_threads_'] == t['public_tdp_']['mo']))] + \
               [('at least one thread', c.arg(j) >= 1) for j in self.tp]

    def visited(self, c, g, i):
        return z3.And(Sel(g['f_at'], i) >= 0, Sel(g['f_at'], i) < g['f_n'], Sel(g['f_leaf'], Sel(g['f_at'], i)) == i)

    def found(self, c, st, V):
        """entries found so far: those of the positions in V that are stored"""
        g, g0 = st.ghost, c.pre.ghost
        N = self.count(c)
        j, i = z3.Int('j!f'), z3.Int('i!f')
        L = Sel(g['f_leaf'], j)
        return [('', g['f_n'] >= 0),
                ('entries found are stored entries of the request, each found once', FA([j], z3.Implies(z3.And(j >= 0, j < g['f_n']), z3.And(L >= 0, L < N, V(L), self.has0(c, L), Sel(g['f_at'], L) == j)), patterns=[L])),
                ('every stored entry is found', z3.Or(g['ioerr'], FA([i], z3.Implies(z3.And(i >= 0, i < N, V(i), self.has0(c, i)), self.visited(c, g, i)), patterns=[self.stok(c, i)]))),
                ('stored entries do not change', z3.And(g['e_val'] == g0['e_val'], g['e_has'] == g0['e_has']))]

    def listed(self, c, g, v):
        j = z3.Int('j!l')
        n = g['f_n']
        return [('as many results as entries found', v['n'] == n), ('the results are the indexes inserted', FA([j], z3.Implies(z3.And(j >= 0, j < n), Sel(v['el'], j) == self.vals(c, Sel(g['f_leaf'], j))), patterns=[Sel(v['el'], j)]))]

    def calls(self, c, g):
        j = z3.Int('j!o')
        return [('one call per entry found', g['o_n'] == g['f_n']), ('each with the index inserted', FA([j], z3.Implies(z3.And(j >= 0, j < g['f_n']), Sel(g['o_val'], j) == self.vals(c, Sel(g['f_leaf'], j))), patterns=[Sel(g['o_val'], j)]))]

    def loops(self, info):
        eng = info.eng
        c = self.ctx(eng)
        N = self.count(c)
        out = []
        does = {g for g in ('t_n', 'f_n', 'j_n', 'o_n') if ('ghost', g) in info.mods}
        ints = intvars(info)
        tok = self.req(c)['token']
        params = {}
        for vid, (nm, ty, l) in info.vars.items():
            v = info.st0.roots.get(l.root) if not l.path else None
            if v is not None and isz(v) and v.sort() == IntS and l.root not in ints and eng.ir.T(eng.strip(ty))['k'] == 'int' and not simp(v).eq(simp(N)):
                params[l.root] = nm
        toks = [k[0] for k in info.mods if k[0] != 'ghost' and not k[1] and isz(info.st0.roots[k[0]]) and info.st0.roots[k[0]].sort() == StrS]
        if self.mode == 'calls' and 'f_n' in does:
            for j in range(2):
                out.append(('calls %d' % j, lambda st, j=j: self.calls(c, st.ghost)[j][1]))
        R = lambda r: (lambda st: st.roots[r])
        starts = 't_n' in does
        visits = 'f_n' in does and not starts
        for r in ints:
            x = R(r)
            if visits:
                out.append(('range %s' % r, lambda st, x=x: z3.And(x(st) >= 0, x(st) <= N + 255)))
                out.append(('walked %s' % r, lambda st, x=x: x(st) <= N))
                for s in toks:
                    out.append(('token %s %s' % (s, r), lambda st, x=x, s=s: st.roots[s] == POW(tok, x(st))))
                for j in range(1, 4):
                    out.append(('found %s %d' % (r, j), lambda st, x=x, j=j: self.found(c, st, lambda i: i < x(st))[j][1]))
                for n in params:
                    p = R(n)
                    for s in toks:
                        out.append(('token %s %s-%s' % (s, r, n), lambda st, x=x, s=s, p=p: st.roots[s] == POW(tok, x(st) - p(st))))
                    for m in params:
                        if m != n and not z3.is_int_value(simp(info.st0.roots[m])):
                            q = R(m)
                            out.append(('residue %s %s %s' % (r, n, m), lambda st, x=x, p=p, q=q: z3.And(p(st) > 0, q(st) >= 0, q(st) < p(st), x(st) >= p(st), RES(x(st), p(st)) == q(st))))
                            V = lambda st, x=x, p=p, q=q: (lambda i: z3.Or(RES(i, p(st)) < q(st), z3.And(RES(i, p(st)) == q(st), i < x(st))))
                            for j in range(1, 4):
                                out.append(('found %s %s %s %d' % (r, n, m, j), lambda st, V=V, j=j: self.found(c, st, V(st))[j][1]))
            if starts:
                for n in params:
                    p = R(n)
                    out.append(('threads %s %s' % (r, n), lambda st, x=x, p=p: z3.And(x(st) == st.ghost['t_n'], x(st) <= p(st))))
                    for j in range(1, 4):
                        out.append(('found by threads %s %s %d' % (r, n, j), lambda st, x=x, p=p, j=j: self.found(c, st, lambda i: RES(i, p(st)) < x(st))[j][1]))
            if 'j_n' in does:
                out.append(('joined %s' % r, lambda st, x=x: z3.And(x(st) >= 0, x(st) <= st.ghost['t_n'], st.ghost['j_n'] == x(st))))
        if 'f_n' in does:
            out.append(('found', lambda st: st.ghost['f_n'] >= 0))
        for it in iters(info):
            p = lambda st, it=it: getleaf(st.roots[it[0]], it[1]).idx
            out.append(('joined %s' % (it,), lambda st, p=p: z3.And(p(st) >= 0, p(st) <= st.ghost['t_n'], st.ghost['j_n'] == p(st))))
        j = z3.Int('j!t')
        for s in seqs(info):
            if not (isz(info.st0.roots[s]['el']) and info.st0.roots[s]['el'].sort() == AI):
                continue
            v = R(s)
            if self.mode == 'list' and 'f_n' in does:
                for i in range(2):
                    out.append(('listed %s %d' % (s, i), lambda st, v=v, i=i: self.listed(c, st.ghost, v(st))[i][1]))
            if starts or 'j_n' in does:
                out.append(('threads in %s' % s, lambda st, v=v: z3.And(v(st)['n'] == st.ghost['t_n'], FA([j], z3.Implies(z3.And(j >= 0, j < st.ghost['t_n']), Sel(v(st)['el'], j) == j), patterns=[Sel(v(st)['el'], j)]))))
        i = z3.Int('i!m')
        if does:
            out.append(('threads joined', lambda st: FA([i], z3.Implies(i >= st.ghost['j_n'], z3.Not(Sel(st.ghost['t_joined'], i))), patterns=[Sel(st.ghost['t_joined'], i)])))
        for k in info.mods:
            if k[0] in eng.mutexes:
                out.append(('mutex free %s' % k[0], lambda st, r=k[0]: z3.Not(st.roots[r])))
        return out

    def ensures(self, c):
        g = c.st.ghost
        out = self.found(c, c.st, lambda i: TRUE) + [('all threads have ended', g['j_n'] == g['t_n'])]
        if self.mode == 'list':
            return out + self.listed(c, g, rd(c.eng, c.st, c.res))
        return out + self.calls(c, g)


def U(con, callee=(), label=None, **f):
    return Unit('sophos', con.name, con, {x.name: x for x in callee}, conf=conf, label=label or con.name[len(S_):], find=f)


def client_units():
    return [U(Masks()), U(KwIndex()), U(Request()), U(Insertion(), (Masks(),))]


def server_units():
    mk = (Masks(),)
    return [U(Ctor()), U(Insert()), U(Search('search', 'list'), mk), U(Search('search_callback', 'calls'), mk),
            Lemma('remainders of positions', lemma_res),
            U(Search('search_parallel', 'list', (1,)), mk), U(Search('search_parallel_light', 'list', (1,)), mk), U(Search('search_parallel_callback', 'calls', (2, 3, 4)), mk), U(Search('search_parallel_light_callback', 'calls', (2,)), mk)]


def p18_units():
    return client_units() + server_units()
