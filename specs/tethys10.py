"""contracts: Tethys list splitting, counters, tokens, search (P10)"""
import z3
from cppvc import *
from unit import Unit
from models import M, val, strval, ignore, simp
from bytesm import bytes_of, store_bytes
import tethys
import tethys2
from tethys import I, THIS, AI, PS, N_, E_, encu
from tethys2 import buckets, sinv, GetBuckets, Reader, DN, DE, map_conf
K = 506                                    # elements of a full block
HASH = z3.Function('hash16', StrS, StrS)
PRF = z3.Function('prf16', StrS, StrS)
ASTR = z3.ArraySort(IntS, StrS)
AAI = z3.ArraySort(IntS, AI)


def CK(tok, i):
    """key of block i of the list with that token"""
    return HASH(sconcat(tok, encu(i)))


def hash_(eng, st, e, o, a):
    n, m = val(eng, st, a[1]), val(eng, st, a[2])
    b = bytes_of(eng, st, val(eng, st, a[0]), n, e, 'hash input')
    if not (z3.is_int_value(simp(m)) and simp(m).as_long() == 16):
        raise Unsupported('hash output size')
    # what 24 bytes are the concatenation of
    st.assume(z3.Implies(slen(b) == 24, b == sconcat(ssub(b, I(0), I(16)), ssub(b, I(16), I(8)))))
    h = HASH(b)
    st.assume(slen(h) == 16)
    store_bytes(eng, st, val(eng, st, a[3]), h, m, e)
    return [(st, None)]


def prf(eng, st, e, o, a):
    k = a[0] if not isinstance(a[0], Loc) else eng.read(st, a[0])
    if len(a) != 1 or not (isz(k) and k.sort() == StrS):
        raise Unsupported('prf input')
    r = PRF(k)
    st.assume(slen(r) == 16)
    return [(st, r)]


def insert_block(eng, st, e, o, a):
    """the store builder, recording the lists it is given; it may refuse"""
    g = st.ghost
    k = eng.read(st, a[0]) if isinstance(a[0], Loc) else a[0]
    v = eng.read(st, a[1]) if isinstance(a[1], Loc) else a[1]
    b = st.copy()
    eng.sinks[-1].append((b, Opaque('exc', 'refused')))
    c = g['cnt']
    g['keys'], g['lens'], g['els'] = z3.Store(g['keys'], c, k), z3.Store(g['lens'], c, v['n']), z3.Store(g['els'], c, v['el'])
    g['cnt'] = simp(c + 1)
    return [(st, None)]


def counter_set(eng, st, e, o, a):
    eng.assumptions.add('the counter store accepts the write (its result is not looked at)')
    g = st.ghost
    g['set_key'] = eng.read(st, a[0]) if isinstance(a[0], Loc) else a[0]
    g['set_val'] = val(eng, st, a[1])
    g['sets'] = simp(g['sets'] + 1)
    return [(st, TRUE)]


def counter_get(eng, st, e, o, a):
    """RocksDBCounter::get as proved for P15"""
    k = eng.read(st, a[0]) if isinstance(a[0], Loc) else a[0]
    has, v = Sel(st.ghost['c_has'], k), Sel(st.ghost['c_val'], k)
    y, n = st.copy(), st
    y.assume(has, v >= 0, v < 2 ** 32)
    eng.write(y, a[1], v)
    n.assume(z3.Not(has))
    return [(s, r) for s, r in ((y, TRUE), (n, FALSE)) if eng.feasible(s, TRUE)]


def conf(eng):
    tethys2.rconf(eng)
    map_conf(eng)
    ov = eng.overrides
    ov['sse::crypto::Hash::hash'] = hash_
    ov['sse::crypto::Prf::prf'] = prf
    ov[tethys2.SB + 'insert_list'] = insert_block
    ov['sse::sophos::RocksDBCounter::set'] = counter_set
    ov['sse::sophos::RocksDBCounter::get'] = counter_get
    ov[E_ + 'DecryptDecoder::decode_buckets'] = tethys2.decode_buckets


class Derive(FnContract):
    name = N_ + 'details::derive_core_key'
    mod = []
    ghosts = ()

    def requires(self, c):
        return [('', slen(c.arg(0)) == 16)]

    def ensures(self, c):
        r = c.res if isz(c.res) else c.eng.read(c.st, c.res)
        return [('the key is the hash of the token and the block number', r == CK(c.arg(0), c.arg(1))), ('', slen(r) == 16)]

    def ensures_throw(self, c, exc):
        return None


def intvars(info):
    return [k[0] for k in info.mods if k[0] != 'ghost' and not k[1] and isz(info.st0.roots[k[0]]) and info.st0.roots[k[0]].sort() == IntS]


def iters(info):
    return [k for k in info.mods if k[0] != 'ghost' and isinstance(getleaf(info.st0.roots[k[0]], k[1]), Iter)]


def seqs(info):
    return sorted({k[0] for k in info.mods if k[0] != 'ghost' and isinstance(info.st0.roots.get(k[0]), Node) and info.st0.roots[k[0]].kind == 'seq'})


class Split(FnContract):
    name = N_ + 'details::GenericTethysBuilder::insert_list'
    mod = None
    may_throw = True
    ghosts = ('cnt', 'keys', 'lens', 'els', 'set_key', 'set_val', 'sets', 'cursor')

    def setup(self, eng, st, this, args):
        g = st.ghost
        g['cnt'], g['sets'] = I(0), I(0)
        g['keys'], g['lens'], g['els'] = z3.Const('keys', ASTR), z3.Const('lens', AI), z3.Const('els', AAI)
        g['set_key'], g['set_val'] = z3.Const('set_key', StrS), z3.Int('set_val')
        eng.sp_args, eng.sp_pre = args, st.copy()

    def requires(self, c):
        return [('block numbers fit the counter', c.old(c.args[1])['n'] < 2 ** 40)]

    def blocks(self, c, st, upto, length):
        """the first blocks stored: keys and elements"""
        g = st.ghost
        l = c.old(c.args[1])
        tok = PRF(c.arg(0))
        j, i = z3.Int('j!b'), z3.Int('i!b')
        return [('each block is stored under the key of its number', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), Sel(g['keys'], j) == CK(tok, j)), patterns=[Sel(g['keys'], j)])),
                ('the lengths of the blocks', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), Sel(g['lens'], j) == length(j)), patterns=[Sel(g['lens'], j)])),
                ('the blocks are consecutive parts of the list', z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < upto, i >= 0, i < length(j)), Sel(Sel(g['els'], j), i) == Sel(l['el'], K * j + i)), patterns=[Sel(Sel(g['els'], j), i)]))]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, eng.sp_args and THIS, eng.sp_args)
        c.pre = eng.sp_pre
        l = c.old(c.args[1])
        out = []
        i = z3.Int('i!b')
        out.append(('the number of blocks so far', lambda st: st.ghost['cnt'] >= 0))
        for j in range(3):
            out.append(('full blocks %d' % j, lambda st, j=j: self.blocks(c, st, st.ghost['cnt'], lambda x: I(K))[j][1]))
        for r in intvars(info):
            out.append(('blocks counted %s' % r, lambda st, r=r: st.roots[r] == st.ghost['cnt']))
        its = [(str(k), lambda st, k=k: getleaf(st.roots[k[0]], k[1]).idx) for k in iters(info)] + [(r, lambda st, r=r: st.roots[r]) for r in intvars(info)]
        for s in seqs(info):
            out.append(('block not full %s' % s, lambda st, s=s: z3.And(st.roots[s]['n'] >= 0, st.roots[s]['n'] < K)))
            out.append(('block %s' % s, lambda st, s=s: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.roots[s]['n']), Sel(st.roots[s]['el'], i) == Sel(l['el'], K * st.ghost['cnt'] + i)), patterns=[Sel(st.roots[s]['el'], i)])))
            for nm, t in its:
                out.append(('elements so far %s %s' % (s, nm), lambda st, s=s, t=t: z3.And(t(st) == K * st.ghost['cnt'] + st.roots[s]['n'], t(st) <= l['n'])))
        return out

    def ensures(self, c):
        g = c.st.ghost
        n = c.old(c.args[1])['n']
        full = n / K
        return [('as many blocks as full blocks and the remainder', z3.Or(g['cnt'] == full + 1, z3.And(g['cnt'] == full, n == K * full)))] + self.blocks(c, c.st, g['cnt'], lambda j: z3.If(j < full, I(K), n - K * full)) + \
               [('the number of blocks is recorded for the keyword', z3.And(g['sets'] == 1, g['set_key'] == c.arg(0), g['set_val'] == g['cnt']))]

    def ensures_throw(self, c, exc):
        return [('nothing is recorded when a block is refused', c.st.ghost['sets'] == 0)]


class SplitOuter(Split):
    name = N_ + 'TethysBuilder::insert_list'


class Request(FnContract):
    name = N_ + 'TethysClient::search_request'
    mod = []
    ghosts = ()

    def setup(self, eng, st, this, args):
        st.ghost['c_has'] = z3.Const('c_has', z3.ArraySort(StrS, BoolS))
        st.ghost['c_val'] = z3.Const('c_val', z3.ArraySort(StrS, IntS))

    def ensures(self, c):
        r = c.res if isinstance(c.res, Node) else c.eng.read(c.st, c.res)
        k = c.arg(0)
        g = c.pre.ghost
        return [('as many blocks as recorded for the keyword', z3.Implies(Sel(g['c_has'], k), r['block_count'] == Sel(g['c_val'], k))),
                ('no block for a keyword never inserted', z3.Implies(z3.Not(Sel(g['c_has'], k)), r['block_count'] == 0)), ('the token of the keyword', r['search_token'] == PRF(k))]

    def ensures_throw(self, c, exc):
        return None


class Search(Reader):
    name = N_ + 'TethysServer::search'
    ghosts = Reader.ghosts

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        eng.se_args, eng.se_pre = args, st.copy()

    def requires(self, c):
        return sinv(c.old(c.thisloc)['tethys_store']) + [('', slen(c.arg(0)['search_token']) == 16)]

    def found(self, c, r, upto):
        v = c.old(c.thisloc)['tethys_store']
        tok = c.arg(0)['search_token']
        j = z3.Int('j!s')
        el = v['table']['el']
        e = r['el']
        b0, b1 = buckets(CK(tok, j), v['table_size'])
        Q = lambda f, p: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), f), patterns=[p])
        x = e['buckets']
        return [('the keys of the blocks, in order', Q(Sel(e['key'], j) == CK(tok, j), Sel(e['key'], j))),
                ('with the positions of their buckets', Q(Sel(x['index_0'], j) == b0, Sel(x['index_0'], j))), ('and of the second ones', Q(Sel(x['index_1'], j) == b1, Sel(x['index_1'], j))),
                ('with the first buckets', Q(Sel(x['payload_0'], j) == Sel(el, b0), Sel(x['payload_0'], j))), ('with the second buckets', Q(Sel(x['payload_1'], j) == Sel(el, b1), Sel(x['payload_1'], j)))]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.se_args)
        c.pre = eng.se_pre
        out = []
        for s in seqs(info):
            for j in range(5):
                out.append(('found %s %d' % (s, j), lambda st, s=s, j=j: self.found(c, st.roots[s], st.roots[s]['n'])[j][1]))
            for r in intvars(info):
                out.append(('counted %s %s' % (s, r), lambda st, s=s, r=r: z3.And(st.roots[s]['n'] == st.roots[r], st.roots[r] <= c.arg(0)['block_count'])))
        return out

    def ensures(self, c):
        r = c.res if isinstance(c.res, Node) else c.eng.read(c.st, c.res)
        n = c.arg(0)['block_count']
        return [('one answer per block asked for', r['n'] == n)] + self.found(c, r, n)

    def ensures_throw(self, c, exc):
        return [('a search fails when storage fails only', c.st.ghost['ioerr'])]


OFFS = z3.Function('results_before', IntS, IntS)


class Results(FnContract):
    name = N_ + 'TethysClient::decode_search_results'
    mod = None
    ghosts = ('cursor',)

    def setup(self, eng, st, this, args):
        eng.re_args, eng.re_pre = args, st.copy()

    def parts(self, c):
        w = c.arg(1) if isinstance(c.arg(1), Node) else c.old(c.args[1])
        stash = c.old(c.args[2]) if len(c.args) == 4 else c.old(c.thisloc)['stash']
        e, s = w['el'], stash
        b = e['buckets']

        def D(j):
            return (Sel(e['key'], j), Sel(b['payload_0'], j), Sel(b['index_0'], j), Sel(b['payload_1'], j), Sel(b['index_1'], j))
        sn = lambda j: z3.If(Sel(s['has'], Sel(e['key'], j)), Sel(s['el']['n'], Sel(e['key'], j)), I(0))
        se = lambda j: Sel(s['el']['el'], Sel(e['key'], j))
        return w['n'], D, sn, se

    def requires(self, c):
        n, D, sn, se = self.parts(c)
        j = z3.Int('j!r')
        k = z3.Const('k!r', StrS)
        s = c.old(c.args[2]) if len(c.args) == 4 else c.old(c.thisloc)['stash']
        return [('', OFFS(I(0)) == 0), ('', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(OFFS(j + 1) == OFFS(j) + DN(*D(j)) + sn(j), DN(*D(j)) >= 0, sn(j) >= 0)), patterns=[DN(*D(j))])),
                ('', z3.ForAll([k], z3.And(Sel(s['el']['n'], k) >= 0, Sel(s['el']['n'], k) < 2 ** 50), patterns=[Sel(s['el']['n'], k)])), ('', n < 2 ** 40)]

    def result(self, c, v, upto):
        n, D, sn, se = self.parts(c)
        j, i = z3.Int('j!r'), z3.Int('i!r')
        return [('as many results as the blocks and the stash hold', v['n'] == OFFS(upto)),
                ('offsets grow', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), z3.And(OFFS(j) >= 0, OFFS(j) + DN(*D(j)) + sn(j) <= OFFS(upto))), patterns=[DN(*D(j))])),
                ('what the buckets of each block hold, in order', z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < upto, i >= 0, i < DN(*D(j))), Sel(v['el'], OFFS(j) + i) == Sel(DE(*D(j)), i)), patterns=[Sel(DE(*D(j)), i)])),
                ('what the stash holds for each block', z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < upto, i >= 0, i < sn(j)), z3.And(DN(*D(j)) >= 0, Sel(v['el'], OFFS(j) + DN(*D(j)) + i) == Sel(se(j), i))), patterns=[Sel(se(j), i)]))]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.re_args)
        c.pre = eng.re_pre
        n, D, sn, se = self.parts(c)
        its = [(str(k), lambda st, k=k: getleaf(st.roots[k[0]], k[1]).idx) for k in iters(info)] + [(r, lambda st, r=r: st.roots[r]) for r in intvars(info)]
        out = []
        for nm, t in its:
            # the term at the current block makes its facts available
            out.append(('position %s' % nm, lambda st, t=t: z3.And(t(st) >= 0, t(st) <= n, z3.Or(t(st) == n, DN(*D(t(st))) >= 0))))
            for s in seqs(info):
                for j in range(4):
                    out.append(('results %s %s %d' % (nm, s, j), lambda st, t=t, s=s, j=j: self.result(c, st.roots[s], t(st))[j][1]))
        return out

    def ensures(self, c):
        r = c.res if isinstance(c.res, Node) else c.eng.read(c.st, c.res)
        n, D, sn, se = self.parts(c)
        return self.result(c, r, n)

    def ensures_throw(self, c, exc):
        return None


def p10_units():
    U = lambda con, callee=(), label=None, conf=conf, **f: Unit('tethys', con.name, con, {x.name: x for x in callee}, conf=conf, label=label, find=f)
    empty = lambda f: 'EmptyDecoder' in f['key']
    return [U(Derive(), (), 'derive_core_key'), U(Split(), (Derive(),), 'GenericTethysBuilder::insert_list'), U(SplitOuter(), (Derive(), Split()), 'TethysBuilder::insert_list'),
            U(Request(), (), 'TethysClient::search_request'), U(Search(), (Derive(), GetBuckets()), 'TethysServer::search'),
            U(Results(), (), 'TethysClient::decode_search_results(stash)', nparams=4), U(Results(), (Results(),), 'TethysClient::decode_search_results', nparams=2)]
