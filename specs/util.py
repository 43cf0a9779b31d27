"""contracts: index masking (P20) and concatenated iteration (P21)"""
import z3
from cppvc import *
from unit import Unit
from models import val
I = z3.IntVal


class XorMask(FnContract):
    name = 'sse::utility::xor_mask'

    def __init__(self, n):
        self.n = n

    def ensures(self, c):
        x = c.arg(0)
        m = c.arg(1)
        out = x
        el = m['el']
        b = [z3.ZeroExt(56, Sel(el, I(i))) for i in range(8)]
        pack = b[0] << 56
        for i in range(1, 8):
            pack = pack | (b[i] << (56 - 8 * i))
        r = c.res
        # masking twice: the function is r = x ^ f(mask), f determined by and determining the first eight bytes
        return [('result is the index xor the big-endian packing of the first eight mask bytes', r == x ^ pack),
                ('masking the result with the same mask gives the index back', (r ^ pack) == x),
                ('masking zero exposes each of the first eight mask bytes', z3.Implies(x == 0, z3.And(*[z3.Extract(63 - 8 * i, 56 - 8 * i, r) == Sel(el, I(i)) for i in range(8)])))]


def xor_units():
    def mk(n):
        def conf(eng):
            eng.bv = True
            eng.unroll = 80
        return Unit('util', XorMask.name, XorMask(n), conf=conf, find=dict(pred=lambda f, n=n: 'ILm%dE' % n in f['key']), label='xor_mask<%d>' % n)
    return [mk(n) for n in (8, 16, 32)]


# ------------------------------------------------------------ concatenation
C1, C2 = Loc('C1'), Loc('C2')


def lo(v):
    return v['lo'] if 'lo' in v.ch else I(0)


class Concat:
    """view of a concat iterator: position in the concatenation"""

    def __init__(self, eng, st, v, n1, n2):
        self.it, self.pt2 = v['internal_iterator'], v['point_to_container_2']
        self.c1, self.c2 = v['container_1'], v['container_2']
        self.n1, self.n2 = n1, n2
        self.in1 = isinstance(self.it, Iter) and same(self.it.loc, C1)
        self.in2 = isinstance(self.it, Iter) and same(self.it.loc, C2)

    def ok(self):
        """well formed: the flag says where the iterator is, and the end of the
        first sequence is represented by the start of the second"""
        if not (self.in1 or self.in2):
            return FALSE
        if not (isinstance(self.c1, Ptr) and same(self.c1.loc, C1) and isinstance(self.c2, Ptr) and same(self.c2.loc, C2)):
            return FALSE
        i = self.it.idx
        return z3.And(z3.Not(self.pt2), i >= 0, i < self.n1) if self.in1 else z3.And(self.pt2, i >= 0, i <= self.n2)

    def pos(self):
        return self.it.idx if self.in1 else self.n1 + self.it.idx


class CFn(FnContract):
    def __init__(self, cls, fn):
        self.cls, self.fn = cls, fn
        self.name = fn

    def prep(self, eng, st, like):
        cty = eng.strip(eng.ir.T(self.field(eng, like, 'container_1'))['to'])
        for l in (C1, C2):
            if l.root not in st.roots:
                v = eng.fresh(cty, l.root)
                st.roots[l.root] = v
                eng.type_facts(st, cty, v)
        self.n1, self.n2 = st.roots['C1']['n'], st.roots['C2']['n']

    def field(self, eng, ty, n):
        for f in eng.ir.records[eng.ir.T(eng.strip(ty))['name']]['fields']:
            if f['n'] == n:
                return f['t']
        raise Unsupported('no field ' + n)

    def spread(self, eng, st, loc):
        """the two shapes a well-formed iterator can have"""
        out = []
        v = eng.read(st, loc)
        for L, b in ((C1, FALSE), (C2, TRUE)):
            s = st.copy()
            i = z3.Int(eng.fname('i'))
            nv = v.with_(container_1=Ptr(C1), container_2=Ptr(C2), internal_iterator=Iter(L, i), point_to_container_2=b)
            eng.write(s, loc, nv, hook=False)
            s.assume(Concat(eng, s, nv, self.n1, self.n2).ok())
            out.append(s)
        return out

    def view(self, c, v, st=None):
        return Concat(c.eng, st or c.st, v, self.n1, self.n2)

    def unchanged(self, c):
        return [('the sequences are not modified', z3.And(*[self.eq(c, r) for r in ('C1', 'C2')]))]

    def eq(self, c, r):
        return TRUE if same(c.pre.roots[r], c.st.roots[r]) else FALSE


class CCtor(CFn):
    def make_param(self, eng, st, p, f):
        l = C1 if not hasattr(self, '_seen') or len(self._seen) == 0 else C2
        self.prep(eng, st, f['cls'])
        self._seen = getattr(self, '_seen', []) + [1]
        if len(self._seen) == 2:
            self._seen = []
        return l

    def ensures(self, c):
        v = self.view(c, c.cur())
        return [('a new iterator is well formed', v.ok()), ('a new iterator stands at the first element of the concatenation', v.pos() == 0)] + self.unchanged(c)


class CCtor4(CCtor):
    """iterator standing at a given place of a given sequence"""
    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ref':
            return super().make_param(eng, st, p, f)
        return Opaque('later')

    def variants(self, eng, st, this, args, f):
        out = []
        for L, b in ((C1, FALSE), (C2, TRUE)):
            s = st.copy()
            i = z3.Int('at_i')
            for p, v in zip(f['params'][2:], (Iter(L, i), b)):
                s.roots[s.env[p['id']].root] = v
            n = self.n1 if same(L, C1) else self.n2
            s.assume(i >= 0, i < n if same(L, C1) else i <= n)
            s.ghost['want'] = i if same(L, C1) else self.n1 + i
            out.append(s)
        return out

    def ensures(self, c):
        v = self.view(c, c.cur())
        return [('an iterator made from a place is well formed', v.ok()), ('it stands at that place', v.pos() == c.pre.ghost['want'])] + self.unchanged(c)


class CIncr(CFn):
    def __init__(self, cls, fn, post):
        super().__init__(cls, fn)
        self.post_ = post

    def setup(self, eng, st, this, args):
        self.prep(eng, st, eng.read(st, this).ty)

    def variants(self, eng, st, this, args, f):
        return self.spread(eng, st, this)

    def requires(self, c):
        return [('not at the end', self.view(c, c.old(), c.pre).pos() < self.n1 + self.n2)]

    def ensures(self, c):
        a, b = self.view(c, c.old(), c.pre), self.view(c, c.cur())
        out = [('still well formed', b.ok()), ('one element further', b.pos() == a.pos() + 1)] + self.unchanged(c)
        if self.post_:
            r = self.view(c, c.res)
            out += [('returns the old position', z3.And(r.ok(), r.pos() == a.pos()))]
        elif isinstance(c.res, Loc):
            out.append(('returns itself', TRUE if same(c.res, c.thisloc) else FALSE))
        return out


class CDeref(CFn):
    def setup(self, eng, st, this, args):
        self.prep(eng, st, eng.read(st, this).ty)

    def variants(self, eng, st, this, args, f):
        return self.spread(eng, st, this)

    def requires(self, c):
        return [('not at the end', self.view(c, c.old(), c.pre).pos() < self.n1 + self.n2)]

    def ensures(self, c):
        a = self.view(c, c.old(), c.pre)
        p = a.pos()
        ok = FALSE
        if isinstance(c.res, Loc) and len(c.res.path) == 1 and c.res.path[0][0] != 'f' and c.res.root in ('C1', 'C2'):
            i = c.res.path[0][1]
            ok = z3.And(p < self.n1, i == p) if c.res.root == 'C1' else z3.And(p >= self.n1, i == p - self.n1)
        return [('yields the element at its position in the concatenation', ok)] + self.unchanged(c)


class CEq(CFn):
    def __init__(self, cls, fn, neg):
        super().__init__(cls, fn)
        self.neg = neg

    def setup(self, eng, st, this, args):
        self.prep(eng, st, eng.read(st, this).ty)

    def variants(self, eng, st, this, args, f):
        out = []
        for s in self.spread(eng, st, this):
            out += self.spread(eng, s, args[0])
        return out

    def ensures(self, c):
        a, b = self.view(c, c.old(), c.pre), self.view(c, c.eng.read(c.st, c.args[0]))
        e = a.pos() == b.pos()
        return [('equal exactly at equal positions', c.res == (z3.Not(e) if self.neg else e))] + self.unchanged(c)


def concat_units():
    out = []
    for tpl in ('concat_iterator', 'concat_const_iterator'):
        for tag in ('vector', 'list'):
            cls = tpl
            for con, n, np in ((CCtor(cls, tpl), tpl, 2), (CCtor4(cls, tpl), tpl, 4), (CIncr(cls, 'operator++', False), 'operator++', 0), (CIncr(cls, 'operator++', True), 'operator++', 1),
                               (CDeref(cls, 'operator*'), 'operator*', 0), (CEq(cls, 'operator==', False), 'operator==', 1), (CEq(cls, 'operator!=', True), 'operator!=', 1)):
                lab = '%s<%s>::%s%s' % (tpl, tag, n if n != tpl else 'ctor%d' % np, '(int)' if n == 'operator++' and np else '')
                out.append(Unit('util', 'sse::utility::%s::%s' % (tpl, n), con, find=dict(nparams=np, pred=lambda f, t=tag: ('St6vector' in f['key']) == (t == 'vector')), label=lab))
    return out
