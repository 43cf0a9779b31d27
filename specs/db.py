"""contracts: persistent counters (P15), key-value and list stores (P16)"""
import z3
from cppvc import *
from unit import Unit
from models import M, val, strval, ignore
import bytesm
from bytesm import bytes_of, store_bytes, enc, dec, leafterms
I = z3.IntVal
MapH, MapV = z3.ArraySort(StrS, BoolS), z3.ArraySort(StrS, StrS)
DB = Loc('DB')

# ------------------------------------------------------ RocksDB (assumed contract)
# ghost state: db_has/db_val (the stored map), db_err (some operation failed)


def fresh_db(eng, st):
    st.ghost['db_has'] = z3.Const('db_has', MapH)
    st.ghost['db_val'] = z3.Const('db_val', MapV)
    st.ghost['db_err'] = FALSE
    st.roots['DB'] = Opaque('rocksdb')


def has(st, k):
    return Sel(st.ghost['db_has'], k)


def get(st, k):
    return Sel(st.ghost['db_val'], k)


def isdb(eng, st, o):
    if not (isinstance(o, Loc) and same(o, DB)):
        raise Unsupported('database handle')


def status(eng, st, nm):
    r = z3.Const(eng.fname(nm), IntS)
    st.assume(r >= 0)
    return r


def durable(eng, st, x, e):
    """write options must not switch the write-ahead log off"""
    v = val(eng, st, x)
    if isinstance(v, Node) and 'disableWAL' in v.ch:
        eng.oblige(st, z3.Not(v['disableWAL']), 'write goes to the write-ahead log', e['line'])


def db_get(eng, st, e, o, a):
    isdb(eng, st, o)
    if len(a) != 3:
        raise Unsupported('DB::Get overload')
    eng.assumptions.add('RocksDB contract: Get returns ok with the value iff the key is present, NotFound iff absent, or an error; Put and Delete take effect iff they return ok (a failed one may or may not have taken effect on that key)')
    k = strval(eng, st, a[1])
    p = val(eng, st, a[2])
    r = status(eng, st, 'get_status')
    out = []
    b = st.copy()
    b.assume(r == 0, has(b, k))
    eng.write(b, p.loc, get(b, k))
    b.assume(slen(get(b, k)) >= 0)
    out.append((b, r))
    b = st.copy()
    b.assume(r == 1, z3.Not(has(b, k)))
    out.append((b, r))
    b = st.copy()
    b.assume(r >= 2)
    b.ghost['db_err'] = TRUE
    out.append((b, r))
    return [(s, x) for s, x in out if eng.feasible(s, TRUE)]


def db_put(eng, st, e, o, a):
    isdb(eng, st, o)
    if len(a) != 3:
        raise Unsupported('DB::Put overload')
    durable(eng, st, a[0], e)
    k, v = strval(eng, st, a[1]), strval(eng, st, a[2])
    return upd(eng, st, k, TRUE, v, 'put_status')


def db_delete(eng, st, e, o, a):
    isdb(eng, st, o)
    if len(a) != 2:
        raise Unsupported('DB::Delete overload')
    durable(eng, st, a[0], e)
    k = strval(eng, st, a[1])
    return upd(eng, st, k, FALSE, None, 'delete_status')


def upd(eng, st, k, h, v, nm):
    r = status(eng, st, nm)
    out = []
    for ok, eff in ((1, 1), (0, 1), (0, 0)):
        b = st.copy()
        b.assume(r == 0 if ok else r >= 1)
        if not ok:
            b.ghost['db_err'] = TRUE
        if eff:
            b.ghost['db_has'] = z3.Store(b.ghost['db_has'], k, h)
            if v is not None:
                b.ghost['db_val'] = z3.Store(b.ghost['db_val'], k, v)
        out.append((b, r))
    return out


def slice_ctor(eng, st, e, ty, a):
    if not a:
        return [(st, eng.strconst(''))]
    if len(a) == 2:
        n = val(eng, st, a[1])
        return [(st, bytes_of(eng, st, val(eng, st, a[0]), n, e, 'slice'))]
    x = strval(eng, st, a[0])
    if x is None:
        raise Unsupported('slice of %r' % (a[0],))
    return [(st, x)]


def st_assign(eng, st, e, o, a):
    eng.write(st, o, val(eng, st, a[0]))
    return [(st, o)]


def copy_ctor(eng, st, e, ty, a):
    return [(st, val(eng, st, a[0]) if a else I(0))]


OV = {
    'rocksdb::DB::Get': db_get, 'rocksdb::DB::Put': db_put, 'rocksdb::DB::Delete': db_delete, 'rocksdb::DB::SingleDelete': db_delete,
    'rocksdb::Status::ok': lambda eng, st, e, o, a: [(st, eng.read(st, o) == 0)],
    'rocksdb::Status::IsNotFound': lambda eng, st, e, o, a: [(st, eng.read(st, o) == 1)],
    'rocksdb::Status::operator=': st_assign,
    'rocksdb::Slice::operator=': st_assign,
    'rocksdb::Slice::size': lambda eng, st, e, o, a: [(st, slen(eng.read(st, o)))],
    'rocksdb::Slice::data': lambda eng, st, e, o, a: [(st, Opaque('cstr', eng.read(st, o)))],
    'rocksdb::Slice::ToString': lambda eng, st, e, o, a: [(st, eng.read(st, o))],
    'rocksdb::Status::ToString': ignore, 'sse::utility::hex_string': ignore,
}
for q in ('IsCorruption', 'IsIOError', 'IsBusy', 'IsTimedOut', 'IsIncomplete', 'IsAborted', 'IsTryAgain', 'IsInvalidArgument', 'IsNotSupported'):
    def isx(eng, st, e, o, a, q=q):
        r = z3.Function('status_' + q, IntS, BoolS)(eng.read(st, o))
        st.assume(z3.Implies(r, eng.read(st, o) >= 2))
        return [(st, r)]
    OV['rocksdb::Status::' + q] = isx


def conf(eng):
    eng.special_types = {'rocksdb::Slice': 'slice', 'rocksdb::Status': 'status'}
    eng.special_sorts = {'slice': StrS, 'status': IntS}
    eng.models = dict(eng.models)
    eng.models['rocksdb::Slice::(ctor)'] = slice_ctor
    eng.models['rocksdb::Status::(ctor)'] = copy_ctor
    eng.overrides.update(OV)


class DBFn(FnContract):
    """set-up shared by all functions of the database wrappers"""
    cls = ''

    def setup(self, eng, st, this, args):
        fresh_db(eng, st)
        eng.write(st, this.f('db_'), Ptr(DB), hook=False)

    def only(self, c, k):
        """no other key changes"""
        x = z3.Const('k!o', StrS)
        return ('no other key changes', z3.ForAll([x], z3.Implies(x != k, z3.And(has(c.st, x) == has(c.pre, x), get(c.st, x) == get(c.pre, x)))))

    def same(self, c):
        return [('the stored map does not change', z3.And(c.st.ghost['db_has'] == c.pre.ghost['db_has'], c.st.ghost['db_val'] == c.pre.ghost['db_val']))]

    def fine(self, c):
        return z3.Not(c.st.ghost['db_err'])

    def entry_same(self, c, k):
        return z3.And(has(c.st, k) == has(c.pre, k), get(c.st, k) == get(c.pre, k))


# ---------------------------------------------------------------- counters
ENC32 = z3.Function('enc[u32]', IntS, StrS)
DEC32 = z3.Function('dec0[u32]', StrS, IntS)


class Counter(DBFn):
    def __init__(self, fn):
        self.fn = fn
        self.name = 'sse::sophos::RocksDBCounter::' + fn

    def requires(self, c):
        k = c.arg(0)
        x = z3.Int('x!e')
        return [('stored counters are four bytes', z3.Implies(has(c.pre, k), slen(get(c.pre, k)) == 4)),
                ('', z3.Implies(has(c.pre, k), z3.And(ENC32(DEC32(get(c.pre, k))) == get(c.pre, k), DEC32(get(c.pre, k)) >= 0, DEC32(get(c.pre, k)) < 2 ** 32)))]

    def ensures(self, c):
        k = c.arg(0)
        h0, v0 = has(c.pre, k), DEC32(get(c.pre, k))
        h1, b1 = has(c.st, k), get(c.st, k)
        ok = self.fine(c)
        cur = None
        if self.fn in ('get', 'get_and_increment'):
            cur = c.cur(c.args[1])
        if self.fn == 'get':
            return self.same(c) + [
                ('a successful read returns the stored count', z3.Implies(c.res, z3.And(h0, cur == v0))),
                ('an unsuccessful read leaves the output alone', z3.Implies(z3.Not(c.res), cur == c.arg(1))),
                ('without storage errors, the key is found iff it is present', z3.Implies(ok, c.res == h0))]
        r = c.res
        if self.fn == 'remove_key':
            return [self.only(c, k), ('removed', z3.Implies(r, z3.Not(h1))), ('succeeds without storage errors', z3.Implies(ok, r)),
                    ('a failure removes the counter or leaves it', z3.Implies(z3.Not(r), z3.Or(z3.Not(h1), self.entry_same(c, k))))]
        if self.fn == 'set':
            new = c.arg(1)
        elif self.fn == 'increment':
            new = z3.If(h0, z3.If(v0 == 2 ** 32 - 1, 0, v0 + 1), c.arg(1))
        else:
            new = z3.If(h0, z3.If(v0 == 2 ** 32 - 1, 0, v0 + 1), 0)
        out = [self.only(c, k),
               ('a success stores the next count', z3.Implies(r, z3.And(h1, b1 == ENC32(new)))),
               ('a failure stores the next count or leaves the counter alone', z3.Implies(z3.Not(r), z3.Or(z3.And(h1, b1 == ENC32(new)), self.entry_same(c, k)))),
               ('succeeds without storage errors', z3.Implies(ok, r)),
               ('the stored count reads back', z3.Implies(r, DEC32(b1) == new))]
        if self.fn == 'get_and_increment':
            out.append(('the count returned is the count stored', z3.Implies(r, cur == new)))
        return out


def counter_units():
    return [Unit('db', Counter(f).name, Counter(f), conf=conf, label='RocksDBCounter::' + f) for f in ('get', 'set', 'increment', 'get_and_increment', 'remove_key')]


# ---------------------------------------------------------- key-value store
class KV(DBFn):
    def __init__(self, fn, byptr=False):
        self.fn, self.byptr = fn, byptr
        self.name = 'sse::sophos::RockDBWrapper::' + fn

    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ptr':
            b = z3.Const('keybuf', StrS)
            st.roots['keybuf'] = b
            return Ptr(Loc('keybuf'), I(0))
        return super().make_param(eng, st, p, f)

    def key(self, c):
        """the key meant by the caller: exactly key_length bytes"""
        if self.byptr:
            n = c.arg(1)
            return z3.If(n == slen(c.pre.roots['keybuf']), c.pre.roots['keybuf'], ssub(c.pre.roots['keybuf'], I(0), n))
        return c.arg(0)

    def dloc(self, c):
        return c.args[2 if self.byptr else 1]

    def dty(self, c):
        return c.fn['params'][2 if self.byptr else 1]['t']

    def requires(self, c):
        out = []
        if self.byptr:
            kb, n = c.pre.roots['keybuf'], c.arg(1)
            out += [('key buffer holds key_length bytes', z3.And(n >= 0, slen(kb) >= n)), ('', z3.Implies(slen(kb) >= n, slen(ssub(kb, I(0), n)) == n))]
        if self.fn == 'get':
            k = self.key(c)
            dt = c.eng.strip(self.dty(c))
            if c.eng.shape(dt) != 'str':
                out.append(('values under the key were written with the type they are read with', z3.Implies(has(c.pre, k), slen(get(c.pre, k)) == c.eng.sizeof(dt))))
        return out

    def enc_of(self, c, st, l):
        return enc(c.eng, st, self.dty(c), c.eng.read(st, l))

    def ensures(self, c):
        k = self.key(c)
        ok, r = self.fine(c), c.res
        h0, h1 = has(c.pre, k), has(c.st, k)
        if self.fn == 'get':
            cur, old = c.cur(self.dloc(c)), c.old(self.dloc(c))
            alone = z3.And(*[x == y for (_, x), (_, y) in zip(leafterms_(cur), leafterms_(old))])
            return self.same(c) + [
                ('a successful read returns the stored bytes', z3.Implies(r, z3.And(h0, self.enc_of(c, c.st, self.dloc(c)) == get(c.pre, k)))),
                ('without storage errors, a key is found iff it is present', z3.Implies(ok, r == h0)),
                ('an absent key leaves the output alone', z3.Implies(z3.Not(r), alone))]
        if self.fn == 'put':
            b = self.enc_of(c, c.st, self.dloc(c))
            stored = z3.And(h1, get(c.st, k) == b)
            return [self.only(c, k), ('a successful write stores exactly the bytes of the value', z3.Implies(r, stored)),
                    ('a failed write stores the value or leaves the entry alone', z3.Implies(z3.Not(r), z3.Or(stored, self.entry_same(c, k)))),
                    ('succeeds without storage errors', z3.Implies(ok, r))]
        return [self.only(c, k), ('a removed key is absent', z3.Implies(r, z3.Not(h1))),
                ('a failed removal removes the key or leaves the entry alone', z3.Implies(z3.Not(r), z3.Or(z3.Not(h1), self.entry_same(c, k)))),
                ('succeeds without storage errors', z3.Implies(ok, r))]


def leafterms_(v):
    return [((), v)] if isz(v) else leafterms(v)


def kv_units():
    out = []
    for fn, np, sub, lab in (('put', 2, 'm>', 'u64'),):
        pass
    seen = [('put', lambda f: 'm' == last(f), 'put<array16,uint64>', False), ('put', lambda f: last(f) == 'arr', 'put<array16,array32>', False),
            ('get', lambda f: len(f['params']) == 2 and last(f) == 'm', 'get<array16,uint64>', False),
            ('get', lambda f: len(f['params']) == 2 and last(f) == 'arr', 'get<array16,array32>', False),
            ('get', lambda f: len(f['params']) == 2 and last(f) == 'str', 'get(string)', False),
            ('get', lambda f: len(f['params']) == 3, 'get(pointer)', True),
            ('remove', lambda f: len(f['params']) == 1, 'remove<16>', False),
            ('remove', lambda f: len(f['params']) == 2, 'remove(pointer)', True)]
    return [Unit('db', KV(fn).name, KV(fn, bp), conf=conf, find=dict(pred=p), label='RockDBWrapper::' + lab) for fn, p, lab, bp in seen]


def last(f):
    from unit import load_ir
    ir = load_ir('db')
    t = ir.T(f['params'][-1]['t'])
    while t['k'] == 'ref':
        t = ir.T(t['to'])
    if t['k'] == 'int':
        return 'm'
    return 'str' if 'basic_string' in t['q'] else 'arr'


# --------------------------------------------------------------- list store
# the stored string of a list: catf(L, k) is the concatenation of the
# serialisations of its first k elements
LS = z3.ArraySort(IntS, IntS)
catf = z3.Function('catf', LS, IntS, StrS)
ser = z3.Function('ser', IntS, StrS)
kof = z3.Function('kof', IntS, IntS)
GL, GN = z3.Const('L', LS), z3.Int('Ln')


def cat_axiom(L, ks=None):
    k = z3.Int('k!c')
    return z3.ForAll([k], z3.Implies(k >= 0, z3.And(catf(L, k + 1) == sconcat(catf(L, k), ser(Sel(L, k))))), patterns=[sconcat(catf(L, k), ser(Sel(L, k)))])


class ListFn(DBFn):
    def conf(self, eng):
        conf(eng)
        eng.overrides['vdrv::Ser::serialize'] = self.m_ser
        eng.overrides['vdrv::Ser::deserialize'] = self.m_deser

    @staticmethod
    def idleaf(v):
        return v['id']

    def m_ser(self, eng, st, e, o, a):
        eng.assumptions.add('serializer contract: serialize(x) is a function of x, never empty; deserialize inverts it at an element boundary and fails at the end without consuming anything')
        v = val(eng, st, a[0])
        x = ser(v['id'])
        st.assume(slen(x) > 0)
        return [(st, x)]

    def m_deser(self, eng, st, e, o, a):
        it, en = val(eng, st, a[0]), val(eng, st, a[1])
        if not (isinstance(it, Iter) and isinstance(en, Iter) and same(it.loc, en.loc)):
            raise Unsupported('deserialize iterators')
        s = eng.read(st, it.loc)
        k = kof(it.idx)
        eng.oblige(st, z3.And(s == catf(GL, GN), en.idx == slen(s)), 'the stored string is deserialised to its end', e['line'])
        eng.oblige(st, z3.And(k >= 0, k <= GN, it.idx == slen(catf(GL, k))), 'deserialisation starts at an element boundary', e['line'])
        st.assume(s == catf(GL, GN), en.idx == slen(s), k >= 0, k <= GN, it.idx == slen(catf(GL, k)))
        out = []
        b = st.copy()
        b.assume(k < GN)
        v = eng.read(b, a[2])
        eng.write(b, a[2], v.with_(id=Sel(GL, k)))
        new = slen(catf(GL, k + 1))
        b.assume(kof(new) == k + 1, new > it.idx)
        eng.write(b, a[0], Iter(it.loc, new, it.kind, it.aux))
        out.append((b, TRUE))
        b = st.copy()
        b.assume(k == GN)
        v = eng.read(b, a[2])
        eng.write(b, a[2], v.with_(id=z3.Const(eng.fname('junk'), IntS)))
        out.append((b, FALSE))
        return [(s, x) for s, x in out if eng.feasible(s, TRUE)]


class ListPut(ListFn):
    name = 'sse::sophos::RockDBListStore::put'

    def ensures(self, c):
        k = c.arg(0)
        l = c.old(c.args[1])
        ok, r = self.fine(c), c.res
        stored = z3.And(has(c.st, k), get(c.st, k) == catf(l['el']['id'], l['n']))
        return [self.only(c, k), ('a success stores the concatenation of the serialised elements, in order', z3.Implies(r, stored)),
                ('a failure stores the list or leaves the entry alone', z3.Implies(z3.Not(r), z3.Or(stored, self.entry_same(c, k)))),
                ('succeeds without storage errors', z3.Implies(ok, r)),
                ('the list is left alone', c.cur(c.args[1])['n'] == l['n'])]

    def requires(self, c):
        l = c.old(c.args[1])
        return [('', cat_axiom(l['el']['id'])), ('', catf(l['el']['id'], I(0)) == c.eng.strconst('')), ('', slen(c.eng.strconst('')) == 0)]

    def loops(self, info):
        eng = info.eng
        dl = self.cur_args[1]
        out = []
        l0 = eng.read(info.st0, dl)
        strs = [k for k in info.mods if k[0] != 'ghost' and not k[1] and isz(info.st0.roots[k[0]]) and info.st0.roots[k[0]].sort() == StrS]
        its = [k for k in info.mods if k[0] != 'ghost' and isinstance(getleaf(info.st0.roots[k[0]], k[1]), Iter)]
        ints = [k for k in info.mods if k[0] != 'ghost' and not k[1] and isz(info.st0.roots[k[0]]) and info.st0.roots[k[0]].sort() == IntS]
        for s in strs:
            for t in its:
                out.append(('cat %s %s' % (s[0], t[0]), lambda st, s=s, t=t: st.roots[s[0]] == catf(l0['el']['id'], getleaf(st.roots[t[0]], t[1]).idx)))
            for t in ints:
                out.append(('cat %s %s' % (s[0], t[0]), lambda st, s=s, t=t: st.roots[s[0]] == catf(l0['el']['id'], st.roots[t[0]])))
        return out


class ListGet(ListFn):
    name = 'sse::sophos::RockDBListStore::get'

    def __init__(self, kind):
        self.kind = kind      # 'str', 'arr', 'ptr'
        self.di = 2 if kind == 'ptr' else 1

    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ptr':
            b = z3.Const('keybuf', StrS)
            st.roots['keybuf'] = b
            return Ptr(Loc('keybuf'), I(0))
        return super().make_param(eng, st, p, f)

    def key(self, c):
        if self.kind == 'ptr':
            n = c.arg(1)
            return z3.If(n == slen(c.pre.roots['keybuf']), c.pre.roots['keybuf'], ssub(c.pre.roots['keybuf'], I(0), n))
        return c.arg(0)

    def requires(self, c):
        out = []
        if self.kind == 'ptr':
            kb, n = c.pre.roots['keybuf'], c.arg(1)
            out += [('key buffer holds key_length bytes', z3.And(n >= 0, slen(kb) >= n)), ('', z3.Implies(slen(kb) >= n, slen(ssub(kb, I(0), n)) == n))]
        k = self.key(c)
        return out + [('', cat_axiom(GL)), ('', catf(GL, I(0)) == c.eng.strconst('')), ('', slen(c.eng.strconst('')) == 0), ('', GN >= 0), ('', kof(I(0)) == 0),
                      ('the key was written by put', z3.Implies(has(c.pre, k), get(c.pre, k) == catf(GL, GN)))]

    def ensures(self, c):
        k = self.key(c)
        ok, r = self.fine(c), c.res
        d = c.cur(c.args[self.di])
        i = z3.Int('i!l')
        return self.same(c) + [
            ('without storage errors, a list is found iff the key is present', z3.Implies(ok, r == has(c.pre, k))),
            ('found lists are present', z3.Implies(r, has(c.pre, k))),
            ('all elements are returned and nothing else', z3.Implies(r, d['n'] == GN)),
            ('elements are returned in order', z3.Implies(r, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < GN), Sel(d['el']['id'], i) == Sel(GL, i))))),
            ('an absent key yields an empty list', z3.Implies(z3.Not(r), d['n'] == 0))]

    def loops(self, info):
        eng = info.eng
        dl = self.cur_args[self.di]
        out = []
        its = [k for k in info.mods if k[0] != 'ghost' and isinstance(getleaf(info.st0.roots[k[0]], k[1]), Iter)]

        def data(st):
            return eng.read(st, dl)
        i = z3.Int('i!l')
        for t in its:
            it = lambda st, t=t: getleaf(st.roots[t[0]], t[1])
            out.append(('boundary %s' % t[0], lambda st, it=it: z3.And(kof(it(st).idx) == data(st)['n'], it(st).idx == slen(catf(GL, data(st)['n'])), data(st)['n'] <= GN)))
        out.append(('prefix', lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < data(st)['n']), Sel(data(st)['el']['id'], i) == Sel(GL, i)))))
        return out


def list_units():
    def k(f, want, n):
        from unit import load_ir
        ir = load_ir('db')
        t = ir.T(f['params'][0]['t'])
        while t['k'] == 'ref':
            t = ir.T(t['to'])
        kind = 'ptr' if t['k'] == 'ptr' else ('str' if 'basic_string' in t['q'] else 'arr')
        return kind == want and len(f['params']) == n
    us = []
    for kind, n in (('str', 3), ('str', 2), ('ptr', 4), ('arr', 3), ('arr', 2)):
        c = ListGet(kind)
        us.append(Unit('db', c.name, c, conf=c.conf, find=dict(pred=lambda f, kind=kind, n=n: k(f, kind, n)), label='RockDBListStore::get(%s,%d)' % (kind, n)))
    for n in (3, 2):
        c = ListPut()
        us.append(Unit('db', c.name, c, conf=c.conf, find=dict(nparams=n), label='RockDBListStore::put(%d)' % n))
    return us
