"""contracts: Tethys addressing (P07), list encoding (P08), bucket encryption
(P09), scheme-level splitting (P10)"""
import z3
from cppvc import *
from unit import Unit
from models import M, val, strval, ignore, simp
import bytesm
from bytesm import enc, dec, bytes_of, store_bytes, splice, asbytes
from awonvm import up_get, up_release, up_bool, up_ctor
I = z3.IntVal
THIS = Loc('this')
AI = z3.ArraySort(IntS, IntS)
PS = 4096
N_ = 'sse::tethys::'
E_ = N_ + 'encoders::'
encu = z3.Function('enc[u64]', IntS, StrS)
decu = z3.Function('dec0[u64]', StrS, IntS)


def imin(a, b):
    return z3.If(a <= b, a, b)


# ------------------------------------------------------------------ models
def copy(eng, st, e, o, a):
    p, q, d = [val(eng, st, x) for x in a]
    if isinstance(p, Iter) and isinstance(q, Iter) and same(p.loc, q.loc):
        v = eng.read(st, p.loc)
        if isz(v) and v.sort() == StrS:
            p, q = Ptr(p.loc, p.idx), Ptr(q.loc, q.idx)
    if isinstance(d, Iter):
        d = Ptr(d.loc, d.idx)
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc is not None and same(p.loc, q.loc) and isinstance(d, Ptr)):
        return NotImplemented
    n = simp((q.off if q.off is not None else I(0)) - (p.off if p.off is not None else I(0)))
    eng.oblige(st, n >= 0, 'the range copied is a range', e['line'])
    b = bytes_of(eng, st, p, n, e, 'copy source')
    store_bytes(eng, st, d, b, n, e)
    return [(st, Ptr(d.loc, simp((d.off if d.off is not None else I(0)) + n), d.pty))]


def painted(eng, st, v, off, n, x):
    """v with n bytes x written at offset off"""
    t = z3.Const(eng.fname('filled'), StrS)
    k, o_, m = z3.Int('k!f'), z3.Int('o!f'), z3.Int('m!f')
    st.assume(slen(t) == slen(v), z3.Implies(n == 0, t == v))
    st.assume(z3.ForAll([k], sat(t, k) == z3.If(z3.And(off <= k, k < off + n), x, sat(v, k)), patterns=[sat(t, k)]))
    st.assume(z3.ForAll([o_, m], z3.Implies(z3.And(m >= 0, z3.Or(o_ + m <= off, off + n <= o_)), ssub(t, o_, m) == ssub(v, o_, m)), patterns=[ssub(t, o_, m)]))
    # eight zero bytes are the object representation of zero
    st.assume(z3.ForAll([o_], z3.Implies(z3.And(x == 0, off <= o_, o_ + 8 <= off + n, 0 <= o_, o_ + 8 <= slen(v)), ssub(t, o_, I(8)) == encu(I(0))), patterns=[ssub(t, o_, I(8))]))
    st.assume(slen(encu(I(0))) == 8, decu(encu(I(0))) == 0)
    return t


def paint(eng, st, p, n, x, e, what):
    p = asbytes(eng, st, p)
    if not isinstance(p, Ptr) or p.loc is None:
        return NotImplemented
    v = eng.read(st, p.loc)
    if not (isz(v) and v.sort() == StrS):
        return NotImplemented
    off = p.off if p.off is not None else I(0)
    eng.oblige(st, z3.And(off >= 0, n >= 0, off + n <= slen(v)), '%s stays inside the object' % what, e['line'])
    eng.write(st, p.loc, painted(eng, st, v, off, n, x))
    return [(st, None)]


def fill(eng, st, e, o, a):
    p, q, x = [val(eng, st, y) for y in a]
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc is not None and same(p.loc, q.loc):
        return paint(eng, st, p, simp(q.off - p.off), x, e, 'fill')
    return NotImplemented


def memset(eng, st, e, o, a):
    p, x, n = [val(eng, st, y) for y in a]
    r = paint(eng, st, p, n, x, e, 'memset')
    return r if r is NotImplemented else [(st, a[0])]


def abegin(eng, st, e, o, a):
    v = eng.read(st, o)
    if isz(v) and v.sort() == StrS:
        return [(st, Ptr(o, I(0)))]
    return NotImplemented


def aend(eng, st, e, o, a):
    v = eng.read(st, o)
    if isz(v) and v.sort() == StrS:
        return [(st, Ptr(o, slen(v)))]
    return NotImplemented


# byte streams: an output stream is the bytes written, an input stream the
# bytes and a read position
def os_write(eng, st, e, o, a):
    v = eng.read(st, o)
    n = val(eng, st, a[1])
    b = bytes_of(eng, st, val(eng, st, a[0]), n, e, 'stream write')
    s = v['bytes']
    t = z3.Const(eng.fname('out'), StrS)
    o_, m = z3.Int('o!os'), z3.Int('m!os')
    st.assume(slen(t) == slen(s) + n, ssub(t, slen(s), n) == b, slen(b) == n)
    st.assume(z3.ForAll([o_, m], z3.Implies(z3.And(o_ >= 0, m >= 0, o_ + m <= slen(s)), ssub(t, o_, m) == ssub(s, o_, m)), patterns=[ssub(t, o_, m)]))
    eng.write(st, o, v.with_(bytes=t))
    return [(st, o)]


def is_read(eng, st, e, o, a):
    v = eng.read(st, o)
    n = val(eng, st, a[1])
    eng.oblige(st, z3.And(n >= 0, v['pos'] + n <= slen(v['bytes'])), 'the stream holds the bytes read', e['line'])
    b = ssub(v['bytes'], v['pos'], n)
    st.assume(slen(b) == n)
    store_bytes(eng, st, val(eng, st, a[0]), b, n, e)
    eng.write(st, o, v.with_(pos=simp(v['pos'] + n)))
    return [(st, o)]


def os_fresh(eng, ty, name, dims):
    return Node('ostr', ty, {'bytes': z3.Const(eng.fname(name + '.bytes'), StrS)})


def is_fresh(eng, ty, name, dims):
    return Node('istr', ty, {'bytes': z3.Const(eng.fname(name + '.bytes'), StrS), 'pos': z3.Const(eng.fname(name + '.pos'), IntS)})


def conf(eng):
    eng.byte_elems = True
    eng.special_types = {'std::basic_ostream': 'ostr', 'std::basic_istream': 'istr'}
    eng.special_fresh = {'ostr': os_fresh, 'istr': is_fresh}
    eng.models = dict(eng.models)
    eng.overrides.update({'std::copy': copy, 'std::fill': fill, 'memset': memset, 'std::memset': memset, 'std::array::begin': abegin, 'std::array::end': aend,
                          'std::basic_ostream::write': os_write, 'std::basic_istream::read': is_read, 'std::basic_ostream::operator<<': ignore, 'std::operator<<': ignore})


# --------------------------------------------------------- P08: list shares
HDR = 24            # length and key


def share(info, n):
    """number of elements the share of a list of n elements holds"""
    s = info['assigned_list_length'] - 3
    return z3.If(s <= 0, I(0), imin(s, n))


def first(info, n, L):
    """index of the first element in the share: a prefix at the end vertex
    (incoming), a suffix at the start vertex"""
    return z3.If(info['edge_orientation'] == 0, I(0), n - L)


def encoded(p, off, key, L, el, f0, i):
    """the bytes at off of page p are the encoding of L elements of el"""
    return [('the length of the share', ssub(p, off, I(8)) == encu(L)), ('the key', ssub(p, off + 8, I(16)) == key),
            ('the elements', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L), ssub(p, off + 24 + 8 * i, I(8)) == encu(Sel(el, f0 + i)))))]


def inforange(info, n):
    a, d = info['assigned_list_length'], info['dual_assigned_list_length']
    return [('the capacity of a list is its length and the control values', info['list_length'] == n + 6), ('', z3.And(a >= 0, d >= 0, n >= 0, n < 2 ** 40, a + d <= n + 6)),
            ('', z3.And(info['edge_orientation'] >= 0, info['edge_orientation'] <= 1))]


class Encode(FnContract):
    name = E_ + 'EncodeSeparateEncoder::encode'
    mod = None
    ghosts = ()

    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ptr':
            st.roots['page'] = z3.Const('page', StrS)
            off = z3.Int('off')
            return Ptr(Loc('page'), off)
        return super().make_param(eng, st, p, f)

    def page(self, c):
        p = c.args[0]
        return p.loc, p.off

    def requires(self, c):
        l, off = self.page(c)
        info, v = c.arg(4), c.arg(3)
        return inforange(info, v['n']) + [('the share fits at the position', z3.And(off >= 0, off + 8 * info['assigned_list_length'] <= slen(c.old(l))))]

    def loops(self, info):
        eng = info.eng
        st0 = info.st0
        c = Ctx(eng, st0, None, THIS, eng.enc_args)
        c.pre = eng.enc_pre
        l, off = self.page(c)
        inf, v = c.arg(4), c.arg(3)
        n = v['n']
        L = share(inf, n)
        f0 = first(inf, n, L)
        key = c.arg(2)
        out = []
        i = z3.Int('i!e')
        o_, m = z3.Int('o!e'), z3.Int('m!e')
        p0 = c.old(l)
        pg = lambda st: eng.read(st, l)
        its, ints = [], []
        for k in info.mods:
            if k[0] == 'ghost':
                continue
            try:
                x = getleaf(st0.roots[k[0]], k[1])
            except Exception:
                continue
            if isinstance(x, Iter):
                its.append((str(k), lambda st, k=k: getleaf(st.roots[k[0]], k[1]).idx - f0))
            elif isz(x) and x.sort() == IntS and not k[1]:
                for w, g in (('o', lambda st, k=k: (st.roots[k[0]] - HDR)), ('i', lambda st, k=k: 8 * st.roots[k[0]])):
                    ints.append((str(k) + w, g))
        out.append(('page size', lambda st: slen(pg(st)) == slen(p0)))
        out.append(('header length', lambda st: ssub(pg(st), off, I(8)) == encu(L)))
        out.append(('header key', lambda st: ssub(pg(st), off + 8, I(16)) == key))
        for nm, g in ints:
            out.append(('position %s' % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= 8 * L, )))
            for nm2, h in its:
                out.append(('in step %s %s' % (nm, nm2), lambda st, g=g, h=h: z3.And(h(st) >= 0, h(st) <= L, g(st) == 8 * h(st))))
            out.append(('elements copied %s' % nm, lambda st, g=g: z3.ForAll([i], z3.Implies(z3.And(i >= 0, 8 * i < g(st)), ssub(pg(st), off + HDR + 8 * i, I(8)) == encu(Sel(v['el'], f0 + i))))))
            out.append(('outside %s' % nm, lambda st, g=g: z3.ForAll([o_, m], z3.Implies(z3.And(m >= 0, z3.Or(o_ + m <= off, off + HDR + g(st) <= o_)), ssub(pg(st), o_, m) == ssub(p0, o_, m)), patterns=[ssub(pg(st), o_, m)])))
        return out

    def setup(self, eng, st, this, args):
        eng.enc_args, eng.enc_pre = args, st.copy()

    def ensures(self, c):
        l, off = self.page(c)
        info, v = c.arg(4), c.arg(3)
        n = v['n']
        L = share(info, n)
        f0 = first(info, n, L)
        p, p0 = c.cur(l), c.old(l)
        i, o_, m = z3.Int('i!e'), z3.Int('o!e'), z3.Int('m!e')
        return [('an empty share takes no room', z3.Implies(L == 0, c.res == 0)), ('a share takes its header and its elements', z3.Implies(L > 0, c.res == 8 * (L + 3))),
                ('the encoding fits the share', z3.And(c.res >= 0, c.res <= 8 * info['assigned_list_length']))] + \
               [(nm, z3.Implies(L > 0, f)) for nm, f in encoded(p, off, c.arg(2), L, v['el'], f0, i)] + \
               [('the page keeps its size', slen(p) == slen(p0)), ('other bytes do not change', z3.ForAll([o_, m], z3.Implies(z3.And(m >= 0, z3.Or(o_ + m <= off, off + c.res <= o_)), ssub(p, o_, m) == ssub(p0, o_, m)), patterns=[ssub(p, o_, m)]))]

    def ensures_throw(self, c, exc):
        return None


class Finish(FnContract):
    name = E_ + 'EncodeSeparateEncoder::finish_block_encoding'
    mod = None
    ghosts = ()

    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ptr':
            st.roots['page'] = z3.Const('page', StrS)
            return Ptr(Loc('page'), I(0))
        return super().make_param(eng, st, p, f)

    def requires(self, c):
        p = c.args[0]
        return [('the rest of the page', z3.And(c.arg(2) >= 0, c.arg(3) >= 0, p.off >= 0, p.off + c.arg(2) + c.arg(3) <= slen(c.old(p.loc))))]

    def ensures(self, c):
        p = c.args[0]
        w, r = p.off + c.arg(2), c.arg(3)
        v, v0 = c.cur(p.loc), c.old(p.loc)
        k, o_, m = z3.Int('k!n'), z3.Int('o!n'), z3.Int('m!n')
        return [('the rest is written', c.res == r), ('the page keeps its size', slen(v) == slen(v0)),
                ('the rest is zero', z3.ForAll([k], z3.Implies(z3.And(k >= w, k < w + r), sat(v, k) == 0), patterns=[sat(v, k)])),
                ('the rest starts with length zero', z3.Implies(r >= 8, ssub(v, w, I(8)) == encu(I(0)))),
                ('what is written before stays', z3.ForAll([o_, m], z3.Implies(z3.And(m >= 0, z3.Or(o_ + m <= w, w + r <= o_)), ssub(v, o_, m) == ssub(v0, o_, m)), patterns=[ssub(v, o_, m)]))]

    def ensures_throw(self, c, exc):
        return None


class Stash(FnContract):
    """the elements neither share holds go to the stash"""
    name = E_ + 'EncodeSeparateEncoder::serialize_key_value'
    mod = None
    ghosts = ()

    def parts(self, c):
        inf = c.arg(2)['assignement_info']
        v = c.eng.read(c.pre, c.arg(2)['data'].loc)
        n = v['n']
        sh = lambda s: z3.If(s - 3 <= 0, I(0), imin(s - 3, n))
        return inf, v, n, sh(inf['assigned_list_length']), sh(inf['dual_assigned_list_length'])

    def requires(self, c):
        inf, v, n, a, b = self.parts(c)
        return inforange(inf, n) + [('', slen(c.old(c.args[0])['bytes']) >= 0)]

    def setup(self, eng, st, this, args):
        eng.ser_args, eng.ser_pre = args, st.copy()

    def make_param(self, eng, st, p, f):
        r = super().make_param(eng, st, p, f)
        v = eng.read(st, r) if isinstance(r, Loc) else None
        if isinstance(v, Node) and 'data' in v.ch:
            fld = [x for x in eng.ir.records[eng.ir.T(eng.strip(v.ty))['name']]['fields'] if x['n'] == 'data'][0]
            vt = eng.strip(eng.ir.T(fld['t'])['to'])
            vals = eng.fresh(vt, 'values')
            st.roots['values'] = vals
            eng.type_facts(st, vt, vals)
            eng.write(st, r, v.with_(data=Ptr(Loc('values'))), hook=False)
        return r

    def content(self, c, st, out0, cnt, a):
        inf, v, n, _, _ = self.parts(c)
        s0 = slen(out0)
        i, o_, m = z3.Int('i!s'), z3.Int('o!s'), z3.Int('m!s')
        out = c.eng.read(st, c.args[0])['bytes']
        return out, [('what was written before stays', z3.ForAll([o_, m], z3.Implies(z3.And(o_ >= 0, m >= 0, o_ + m <= s0), ssub(out, o_, m) == ssub(out0, o_, m)), patterns=[ssub(out, o_, m)])),
                     ('the entry starts with the key', ssub(out, s0, I(16)) == c.arg(1))]

    def entry(self, c, st, cnt, a, done):
        inf, v, n, _, _ = self.parts(c)
        out0 = c.eng.read(c.pre, c.args[0])['bytes']
        out, x = self.content(c, st, out0, cnt, a)
        s0 = slen(out0)
        i = z3.Int('i!s')
        return x + [('then the number of elements', ssub(out, s0 + 16, I(8)) == encu(cnt)),
                    ('then the elements', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < done), ssub(out, s0 + 24 + 8 * i, I(8)) == encu(Sel(v['el'], a + i))))),
                    ('and nothing else', slen(out) == s0 + 24 + 8 * done)]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.ser_args)
        c.pre = eng.ser_pre
        inf, v, n, a, b = self.parts(c)
        cnt = n - a - b
        out = []
        for k in info.mods:
            if k[0] == 'ghost' or k[1]:
                continue
            x = info.st0.roots[k[0]]
            if isz(x) and x.sort() == IntS:
                for w, g in (('a', lambda st, k=k: st.roots[k[0]] - a), ('0', lambda st, k=k: st.roots[k[0]])):
                    out.append(('position %s %s' % (k[0], w), lambda st, g=g: z3.And(g(st) >= 0, g(st) <= cnt)))
                    for j in range(5):
                        out.append((self.entry(c, info.st0, cnt, a, g(info.st0))[j][0] + ' %s %s' % (k[0], w), lambda st, g=g, j=j: self.entry(c, st, cnt, a, g(st))[j][1]))
            elif isinstance(x, Iter):
                g = lambda st, k=k: st.roots[k[0]].idx - a
                out.append(('position %s' % k[0], lambda st, g=g: z3.And(g(st) >= 0, g(st) <= cnt)))
                for j in range(5):
                    out.append((self.entry(c, info.st0, cnt, a, g(info.st0))[j][0] + ' %s' % k[0], lambda st, g=g, j=j: self.entry(c, st, cnt, a, g(st))[j][1]))
        return out

    def ensures(self, c):
        inf, v, n, a, b = self.parts(c)
        cnt = n - a - b
        out0, out1 = c.eng.read(c.pre, c.args[0])['bytes'], c.eng.read(c.st, c.args[0])['bytes']
        return [('the shares and the stash make up the list', cnt >= 0), ('nothing is written for a list fully assigned', z3.Implies(cnt == 0, out1 == out0))] + \
               [(nm, z3.Implies(cnt > 0, f)) for nm, f in self.entry(c, c.st, cnt, a, cnt)]

    def ensures_throw(self, c, exc):
        return None


# a bucket: positions O, key KK, number of elements LL, elements EL of the
# lists 0 .. NL-1 it holds; NX skips empty shares, IX inverts O
O = z3.Function('list_pos', StrS, IntS, IntS)
KK = z3.Function('list_key', StrS, IntS, StrS)
LL = z3.Function('list_len', StrS, IntS, IntS)
EL = z3.Function('list_elem', StrS, IntS, IntS, IntS)
NL = z3.Function('lists', StrS, IntS)
IX = z3.Function('list_at', StrS, IntS, IntS)
HOLDS = z3.Function('list_of_key', StrS, StrS, IntS)      # the list with that key, -1 if none


def size(b, j):
    return HDR + 8 * LL(b, j)


def formed(b, key):
    """bucket b is a sequence of encoded lists (each with elements), the rest
    zero; at most one list has the key"""
    j, i = z3.Int('j!b'), z3.Int('i!b')
    n = NL(b)
    h = HOLDS(b, key)
    return [slen(b) == PS, n >= 0, O(b, I(0)) == 0, O(b, n) <= PS,
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(LL(b, j) > 0, LL(b, j) < 2 ** 50, O(b, j + 1) == O(b, j) + size(b, j), O(b, j) >= 0, O(b, j + 1) <= PS)), patterns=[LL(b, j)]),
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(ssub(b, O(b, j), I(8)) == encu(LL(b, j)), ssub(b, O(b, j) + 8, I(16)) == KK(b, j), decu(encu(LL(b, j))) == LL(b, j))), patterns=[KK(b, j)]),
            z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < n, i >= 0, i < LL(b, j)), z3.And(ssub(b, O(b, j) + HDR + 8 * i, I(8)) == encu(EL(b, j, i)), decu(encu(EL(b, j, i))) == EL(b, j, i))), patterns=[EL(b, j, i)]),
            z3.Implies(O(b, n) < PS, z3.And(O(b, n) + 8 <= PS, ssub(b, O(b, n), I(8)) == encu(I(0)), decu(encu(I(0))) == 0)),
            # definitions
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), IX(b, O(b, j)) == j), patterns=[O(b, j)]),
            h >= -1, z3.Implies(h >= 0, z3.And(h < n, KK(b, h) == key)),
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, KK(b, j) == key), j == h), patterns=[KK(b, j)])]


def result_of(b, key, v0, v, i):
    """v is v0 with the elements of the list of the key appended"""
    h = HOLDS(b, key)
    L = z3.If(h >= 0, LL(b, h), I(0))
    return [('as many elements as the list has are appended', v['n'] == v0['n'] + L),
            ('what was there before stays', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v0['n']), Sel(v['el'], i) == Sel(v0['el'], i)), patterns=[Sel(v['el'], i)])),
            ('the elements of the list are appended in order', z3.ForAll([i], z3.Implies(z3.And(h >= 0, i >= v0['n'], i < v0['n'] + L), Sel(v['el'], i) == EL(b, h, i - v0['n'])), patterns=[Sel(v['el'], i)]))]


class Decode1(FnContract):
    name = E_ + 'EncodeSeparateDecoder::decode_single_bucket'
    mod = None
    ghosts = ('cursor',)

    def setup(self, eng, st, this, args):
        eng.dec_args, eng.dec_pre = args, st.copy()

    def requires(self, c):
        return [('a well-formed bucket', z3.And(*formed(c.arg(1), c.arg(0)))), ('', c.old(c.args[2])['n'] < 2 ** 50)]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.dec_args)
        c.pre = eng.dec_pre
        key, b = c.arg(0), c.arg(1)
        v0 = c.old(c.args[2])
        h = HOLDS(b, key)
        j, i = z3.Int('j!l'), z3.Int('i!l')
        out = []
        cur = lambda st: eng.read(st, c.args[2])
        out.append(('nothing appended yet', lambda st: z3.And(cur(st)['n'] == v0['n'], cur(st)['el'] == v0['el'])))
        out.append(('before stays', lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v0['n']), Sel(cur(st)['el'], i) == Sel(v0['el'], i)), patterns=[Sel(cur(st)['el'], i)])))
        ints = [k[0] for k in info.mods if k[0] != 'ghost' and not k[1] and isz(info.st0.roots[k[0]]) and info.st0.roots[k[0]].sort() == IntS]
        for r in ints:
            x = lambda st, r=r: st.roots[r]
            J = lambda st, x=x: IX(b, x(st))
            out.append(('at a list %s' % r, lambda st, x=x, J=J: z3.And(J(st) >= 0, J(st) <= NL(b), x(st) == O(b, J(st)), z3.Implies(J(st) < NL(b), z3.And(O(b, J(st) + 1) == x(st) + size(b, J(st)), ssub(b, x(st) + 8, I(16)) == KK(b, J(st)))))))
            out.append(('lists passed have other keys %s' % r, lambda st, J=J: z3.Implies(h >= 0, h >= J(st))))
            # copying loop
            out.append(('copied %s' % r, lambda st, x=x: z3.And(x(st) >= 0, x(st) <= LL(b, h), cur(st)['n'] == v0['n'] + x(st))))
            out.append(('copied elements %s' % r, lambda st, x=x: z3.ForAll([i], z3.Implies(z3.And(i >= v0['n'], i < v0['n'] + x(st)), Sel(cur(st)['el'], i) == EL(b, h, i - v0['n'])), patterns=[Sel(cur(st)['el'], i)])))
            for r2 in ints:
                if r2 != r:
                    out.append(('copying position %s %s' % (r, r2), lambda st, x=x, r2=r2: st.roots[r2] == O(b, h) + HDR + 8 * x(st)))
        return out

    def ensures(self, c):
        return result_of(c.arg(1), c.arg(0), c.old(c.args[2]), c.cur(c.args[2]), z3.Int('i!d'))

    def ensures_throw(self, c, exc):
        return None


class Decode2(FnContract):
    name = E_ + 'EncodeSeparateDecoder::decode_buckets'
    mod = None
    ghosts = ('cursor',)

    def requires(self, c):
        k = c.arg(0)
        return [('two well-formed buckets', z3.And(*(formed(c.arg(1), k) + formed(c.arg(3), k))))]

    def ensures(self, c):
        k, b0, b1 = c.arg(0), c.arg(1), c.arg(3)
        h0, h1 = HOLDS(b0, k), HOLDS(b1, k)
        L0, L1 = z3.If(h0 >= 0, LL(b0, h0), I(0)), z3.If(h1 >= 0, LL(b1, h1), I(0))
        v = c.eng.read(c.st, c.res) if isinstance(c.res, Loc) else c.res
        i = z3.Int('i!d')
        return [('the result has the elements of both shares', v['n'] == L0 + L1),
                ('first the share of the first bucket', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L0), Sel(v['el'], i) == EL(b0, h0, i)))),
                ('then the share of the second bucket', z3.ForAll([i], z3.Implies(z3.And(i >= L0, i < L0 + L1), Sel(v['el'], i) == EL(b1, h1, i - L0))))]

    def ensures_throw(self, c, exc):
        return None


class Unstash(FnContract):
    """deserialize_key_value reads an entry written by serialize_key_value"""
    name = E_ + 'EncodeSeparateDecoder::deserialize_key_value'
    mod = None
    ghosts = ('cursor',)

    def setup(self, eng, st, this, args):
        eng.uns_args, eng.uns_pre = args, st.copy()

    def entry(self, c):
        v = c.eng.read(c.pre, c.args[0])
        b, p = v['bytes'], v['pos']
        n = decu(ssub(b, p + 16, I(8)))
        return b, p, n

    def requires(self, c):
        b, p, n = self.entry(c)
        return [('the stream holds an entry', z3.And(p >= 0, n >= 0, n < 2 ** 50, p + 24 + 8 * n <= slen(b)))]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.uns_args)
        c.pre = eng.uns_pre
        b, p, n = self.entry(c)
        i = z3.Int('i!u')
        out = []
        s = lambda st: eng.read(st, c.args[0])
        ints = [k[0] for k in info.mods if k[0] != 'ghost' and not k[1] and isz(info.st0.roots[k[0]]) and info.st0.roots[k[0]].sort() == IntS]
        vecs = [k[0] for k in info.mods if k[0] != 'ghost' and isinstance(info.st0.roots.get(k[0]), Node) and info.st0.roots[k[0]].kind == 'seq']
        vecs = sorted(set(vecs))
        out.append(('the stream', lambda st: s(st)['bytes'] == b))
        for w in vecs:
            d = lambda st, w=w: st.roots[w]['n']
            out.append(('read %s' % w, lambda st, d=d: z3.And(d(st) >= 0, d(st) <= n, s(st)['pos'] == p + 24 + 8 * d(st))))
            out.append(('elements %s' % w, lambda st, d=d, w=w: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < d(st)), Sel(st.roots[w]['el'], i) == decu(ssub(b, p + 24 + 8 * i, I(8)))), patterns=[Sel(st.roots[w]['el'], i)])))
            for r in ints:
                out.append(('count %s %s' % (w, r), lambda st, d=d, r=r: d(st) == st.roots[r]))
        return out

    def ensures(self, c):
        b, p, n = self.entry(c)
        r = c.res if isinstance(c.res, Node) else c.eng.read(c.st, c.res)
        v = r['second']
        i = z3.Int('i!u')
        return [('the key is read', r['first'] == ssub(b, p, I(16))), ('as many elements as written', v['n'] == n),
                ('the elements are read in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), Sel(v['el'], i) == decu(ssub(b, p + 24 + 8 * i, I(8)))))),
                ('the stream is after the entry', c.eng.read(c.st, c.args[0])['pos'] == p + 24 + 8 * n)]

    def ensures_throw(self, c, exc):
        return None


def dconf(eng):
    conf(eng)


def p08_units():
    U = lambda con, callee=(), label=None, **f: Unit('tethys', con.name, con, {x.name: x for x in callee}, conf=conf, label=label, find=f)
    return [U(Encode(), (), 'EncodeSeparateEncoder::encode'),
            U(Finish(), (), 'EncodeSeparateEncoder::finish_block_encoding'), U(Stash(), (), 'EncodeSeparateEncoder::serialize_key_value'),
            U(Decode1(), (), 'EncodeSeparateDecoder::decode_single_bucket'), U(Decode2(), (Decode1(),), 'EncodeSeparateDecoder::decode_buckets'),
            U(Unstash(), (), 'EncodeSeparateDecoder::deserialize_key_value')]
