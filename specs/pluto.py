"""contracts: Pluto (P13)"""
import z3
from cppvc import *
from unit import Unit
from models import M, val, strval, ignore, simp
from bytesm import bytes_of, store_bytes, enc, dec
import tethys
import tethys2
import tethys9
import tethys10
import oceanus
import db
from tethys import I, THIS, AI, PS, N_, E_, encu
from tethys2 import buckets, sinv, GetBuckets, Reader, DN, DE, map_conf
from tethys10 import CK, PRF, ASTR, AAI, Derive, intvars, iters, seqs
P_ = 'sse::pluto::'
K = 506                                    # elements of a full block
AB = z3.ArraySort(StrS, BoolS)


def isarr(v):
    return isinstance(v, Node) and v.kind == 'arr'


def abegin(eng, st, e, o, a):
    v = eng.read(st, o)
    return [(st, Ptr(o, I(0)))] if isarr(v) else tethys.abegin(eng, st, e, o, a)


def aend(eng, st, e, o, a):
    v = eng.read(st, o)
    return [(st, Ptr(o, I(eng.arr_n(v.ty))))] if isarr(v) else tethys.aend(eng, st, e, o, a)


def copy(eng, st, e, o, a):
    """std::copy of a vector's elements into an array"""
    p, q, d = [val(eng, st, x) for x in a]
    if not (isinstance(p, Iter) and isinstance(q, Iter) and same(p.loc, q.loc) and isinstance(d, Ptr) and d.loc is not None and isarr(eng.read(st, d.loc))):
        return tethys.copy(eng, st, e, o, a)
    w, v = eng.read(st, p.loc), eng.read(st, d.loc)
    if not (isinstance(w, Node) and w.kind == 'seq' and isz(w['el'])):
        raise Unsupported('copy')
    n, off = simp(q.idx - p.idx), d.off if d.off is not None else I(0)
    eng.oblige(st, z3.And(p.idx >= 0, n >= 0, q.idx <= w['n']), 'the range copied is a range of the vector', e['line'])
    eng.oblige(st, z3.And(off >= 0, off + n <= eng.arr_n(v.ty)), 'the copy stays inside the array', e['line'])
    t = z3.Const(eng.fname('copied'), AI)
    i = z3.Int('i!cp')
    st.assume(z3.ForAll([i], Sel(t, i) == z3.If(z3.And(i >= off, i < off + n), Sel(w['el'], p.idx + (i - off)), Sel(v['el'], i)), patterns=[Sel(t, i)]))
    eng.write(st, d.loc, v.with_(el=t))
    return [(st, Ptr(d.loc, simp(off + n)))]


def rd(eng, st, x):
    return eng.read(st, x) if isinstance(x, Loc) else x


def ht_insert(eng, st, e, o, a):
    """the table builder, recording the blocks it is given; it may refuse"""
    g = st.ghost
    b = st.copy()
    eng.sinks[-1].append((b, Opaque('exc', 'refused')))
    k, v = rd(eng, st, a[0]), rd(eng, st, a[1])
    c = g['hcnt']
    g['hkeys'], g['hvals'] = z3.Store(g['hkeys'], c, k), z3.Store(g['hvals'], c, v['el'])
    g['hcnt'] = simp(c + 1)
    eng.oblige(st, z3.Not(g['committed']), 'blocks are inserted before the table is committed', e['line'])
    return [(st, None)]


def ht_commit(eng, st, e, o, a):
    b = st.copy()
    eng.sinks[-1].append((b, Opaque('exc', 'io')))
    st.ghost['commits'] = simp(st.ghost['commits'] + 1)
    st.ghost['committed'] = TRUE
    return [(st, None)]


def ts_build(eng, st, e, o, a):
    b = st.copy()
    eng.sinks[-1].append((b, Opaque('exc', 'io')))
    g = st.ghost
    g['builds'] = simp(g['builds'] + 1)
    g['build_enc'] = rd(eng, st, a[0])['encryption_key']
    return [(st, None)]


def ht_get(eng, st, e, o, a):
    """the table as a partial function; absence is reported as out_of_range
    (P12); a storage failure too, or otherwise"""
    k = rd(eng, st, a[0])
    g = st.ghost
    n, y, f = st.copy(), st, st.copy()
    n.assume(z3.Not(Sel(g['t_has'], k)))
    eng.sinks[-1].append((n, Opaque('exc', 'std::out_of_range')))
    f.ghost['ioerr'] = TRUE
    eng.sinks[-1].append((f, Opaque('exc', 'std::runtime_error')))
    y.assume(Sel(g['t_has'], k))
    r = eng.fresh(e['rt'], 'block')
    eng.type_facts(y, e['rt'], r)
    y.assume(r['el'] == Sel(g['t_val'], k))
    return [(y, r)]


def random_key(eng, st, e, o, a):
    r = eng.fresh(e['rt'], 'random')
    st.assume(slen(r) == 16)
    return [(st, r)]


def conf(eng):
    tethys10.conf(eng)
    ov = eng.overrides
    ov.update({'std::copy': copy, 'std::array::begin': abegin, 'std::array::end': aend, 'sse::crypto::random_bytes': random_key})
    for t in ('sse::oceanus::CuckooBuilder',):
        ov[t + '::insert'], ov[t + '::commit'] = ht_insert, ht_commit
    ov['sse::oceanus::CuckooHashTable::get'] = ht_get
    ov[tethys2.SB + 'build'] = ts_build


class Split(FnContract):
    """full blocks go to the table under keys 1, 2, .., the remainder to the
    Tethys store under key 0"""
    name = P_ + 'PlutoBuilder::insert_list'
    mod = None
    may_throw = True
    ghosts = ('cnt', 'keys', 'lens', 'els', 'hcnt', 'hkeys', 'hvals', 'cursor')

    def setup(self, eng, st, this, args):
        g = st.ghost
        g['cnt'], g['hcnt'], g['committed'] = I(0), I(0), FALSE
        g['keys'], g['lens'], g['els'] = z3.Const('keys', ASTR), z3.Const('lens', AI), z3.Const('els', AAI)
        g['hkeys'], g['hvals'] = z3.Const('hkeys', ASTR), z3.Const('hvals', AAI)
        eng.sp_args, eng.sp_pre = args, st.copy()

    def requires(self, c):
        return [('block numbers fit their type', c.old(c.args[1])['n'] < 2 ** 40)]

    def blocks(self, c, st, upto):
        g = st.ghost
        l = c.old(c.args[1])
        tok = PRF(c.arg(0))
        j, i = z3.Int('j!b'), z3.Int('i!b')
        return [('each full block is stored under the key of its number', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), Sel(g['hkeys'], j) == CK(tok, j + 1)), patterns=[Sel(g['hkeys'], j)])),
                ('the full blocks are consecutive parts of the list', z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < upto, i >= 0, i < K), Sel(Sel(g['hvals'], j), i) == Sel(l['el'], K * j + i)), patterns=[Sel(Sel(g['hvals'], j), i)]))]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.sp_args)
        c.pre = eng.sp_pre
        l = c.old(c.args[1])
        out = []
        i = z3.Int('i!b')
        out.append(('the number of blocks so far', lambda st: st.ghost['hcnt'] >= 0))
        out.append(('no remainder yet', lambda st: st.ghost['cnt'] == 0))
        for j in range(2):
            out.append(('full blocks %d' % j, lambda st, j=j: self.blocks(c, st, st.ghost['hcnt'])[j][1]))
        for r in intvars(info):
            for d in (0, 1):
                out.append(('blocks counted %s %d' % (r, d), lambda st, r=r, d=d: st.roots[r] == st.ghost['hcnt'] + d))
        its = [(str(k), lambda st, k=k: getleaf(st.roots[k[0]], k[1]).idx) for k in iters(info)] + [(r, lambda st, r=r: st.roots[r]) for r in intvars(info)]
        for s in seqs(info):
            out.append(('block not full %s' % s, lambda st, s=s: z3.And(st.roots[s]['n'] >= 0, st.roots[s]['n'] < K)))
            out.append(('block %s' % s, lambda st, s=s: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.roots[s]['n']), Sel(st.roots[s]['el'], i) == Sel(l['el'], K * st.ghost['hcnt'] + i)), patterns=[Sel(st.roots[s]['el'], i)])))
            for nm, t in its:
                out.append(('elements so far %s %s' % (s, nm), lambda st, s=s, t=t: z3.And(t(st) == K * st.ghost['hcnt'] + st.roots[s]['n'], t(st) <= l['n'])))
        return out

    def ensures(self, c):
        g = c.st.ghost
        l = c.old(c.args[1])
        n = l['n']
        full = n / K
        i = z3.Int('i!b')
        rem = n - K * full
        return [('as many full blocks as fit', g['hcnt'] == full)] + self.blocks(c, c.st, full) + \
               [('the remainder, if any, is stored once', z3.And(g['cnt'] <= 1, z3.Implies(rem > 0, g['cnt'] == 1))),
                ('under key number 0, with its length', z3.Implies(g['cnt'] == 1, z3.And(Sel(g['keys'], I(0)) == CK(PRF(c.arg(0)), I(0)), Sel(g['lens'], I(0)) == rem))),
                ('the remainder is the end of the list', z3.Implies(g['cnt'] == 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rem), Sel(Sel(g['els'], I(0)), i) == Sel(l['el'], K * full + i)))))]

    def ensures_throw(self, c, exc):
        return []


class Build(FnContract):
    name = P_ + 'PlutoBuilder::build'
    mod = None
    may_throw = True
    ghosts = ('hcnt', 'hkeys', 'hvals', 'commits', 'committed', 'builds', 'build_enc')

    def setup(self, eng, st, this, args):
        g = st.ghost
        g['hcnt'], g['commits'], g['builds'], g['committed'] = I(0), I(0), I(0), FALSE
        g['hkeys'], g['hvals'] = z3.Const('hkeys', ASTR), z3.Const('hvals', AAI)
        g['build_enc'] = z3.Const('build_enc', StrS)
        eng.bu_this, eng.bu_pre = this, st.copy()

    def requires(self, c):
        return [('', c.old(c.thisloc)['n_elts'] < 2 ** 40)]

    def dummies(self, c):
        v = c.old(c.thisloc)
        n = (v['n_elts'] + K - 1) / K
        d = v['complete_lists']
        return z3.If(d < n, n - d, I(0))

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, eng.bu_this, [])
        c.pre = eng.bu_pre
        v = c.old(c.thisloc)
        out = [('dummy blocks so far', lambda st: z3.And(st.ghost['hcnt'] >= 0, st.ghost['hcnt'] <= self.dummies(c)))]
        for r in intvars(info):
            out.append(('counted %s' % r, lambda st, r=r: st.roots[r] == v['complete_lists'] + st.ghost['hcnt']))
        return out

    def ensures(self, c):
        g = c.st.ghost
        v = c.old(c.thisloc)
        return [('the table is filled up with dummy blocks to the number of blocks of the database', g['hcnt'] == self.dummies(c)), ('the table is committed once', g['commits'] == 1),
                ('the store is built once, under the encryption key', z3.And(g['builds'] == 1, g['build_enc'] == v['tethys_encryption_encoder']['encryption_key']))]

    def ensures_throw(self, c, exc):
        return []


class Request(FnContract):
    name = P_ + 'PlutoClient::search_request'
    mod = []
    ghosts = ()

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        return [('the token of the keyword', r['search_token'] == PRF(c.arg(0)))]

    def ensures_throw(self, c, exc):
        return None


MB = z3.Const('blocks_of_token', IntS)     # full blocks stored for the token


class Search(Reader):
    name = P_ + 'PlutoServer::search'
    ghosts = Reader.ghosts + ('cursor',)

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.ghost['t_has'] = z3.Const('t_has', AB)
        st.ghost['t_val'] = z3.Const('t_val', z3.ArraySort(StrS, AI))
        eng.se_args, eng.se_pre = args, st.copy()

    def requires(self, c):
        j = z3.Int('j!t')
        tok = c.arg(0)['search_token']
        h = c.pre.ghost['t_has']
        return sinv(c.old(c.thisloc)['tethys_store']) + [('', slen(tok) == 16), ('the full blocks of a token are numbered from one', z3.And(
            MB >= 0, MB < 2 ** 32 - 2, z3.Not(Sel(h, CK(tok, MB + 1))), z3.ForAll([j], z3.Implies(z3.And(j >= 1, j <= MB), Sel(h, CK(tok, j))), patterns=[encu(j)])))]

    def lists(self, c, r, upto):
        tok = c.arg(0)['search_token']
        t = c.pre.ghost['t_val']
        j, i = z3.Int('j!s'), z3.Int('i!s')
        return [('as many elements as the blocks hold', r['n'] == K * upto), ('the elements of the blocks, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K * upto), Sel(r['el'], i) == Sel(Sel(t, CK(tok, 1 + i / K)), i - K * (i / K))), patterns=[Sel(r['el'], i)]))]

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, THIS, eng.se_args)
        c.pre = eng.se_pre
        out = []
        rs = sorted({(k[0], k[1][:-1]) for k in info.mods if k[0] != 'ghost' and k[1] and k[1][-1] == 'n'})
        for r in intvars(info):
            x = lambda st, r=r: st.roots[r]
            out.append(('number %s' % r, lambda st, x=x: z3.And(x(st) >= 1, x(st) <= MB + 1, encu(x(st)) == encu(x(st)))))
            for s, p in rs:
                v = lambda st, s=s, p=p: getleaf(st.roots[s], p)
                for j in range(2):
                    out.append(('lists %s %s %d' % (r, s, j), lambda st, x=x, v=v, j=j: self.lists(c, v(st), x(st) - 1)[j][1]))
        return out

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        v = c.old(c.thisloc)['tethys_store']
        tok = c.arg(0)['search_token']
        key = CK(tok, I(0))
        b0, b1 = buckets(key, v['table_size'])
        el = v['table']['el']
        kb = r['tethys_bucket_pair']
        b = kb['buckets']
        return self.lists(c, r['complete_lists'], MB) + [('the bucket pair of key number 0', z3.And(kb['key'] == key, b['index_0'] == b0, b['index_1'] == b1, b['payload_0'] == Sel(el, b0), b['payload_1'] == Sel(el, b1)))]

    def ensures_throw(self, c, exc):
        return [('a search fails when storage fails only', c.st.ghost['ioerr'])]


class Results(FnContract):
    name = P_ + 'PlutoClient::decode_search_results'
    mod = None
    ghosts = ('cursor',)

    def requires(self, c):
        s = c.old(c.thisloc)['stash']
        k = z3.Const('k!r', StrS)
        r = rd(c.eng, c.pre, c.args[1])
        return [('', z3.ForAll([k], z3.And(Sel(s['el']['n'], k) >= 0, Sel(s['el']['n'], k) < 2 ** 50), patterns=[Sel(s['el']['n'], k)])), ('', r['complete_lists']['n'] < 2 ** 50)]

    def ensures(self, c):
        v = rd(c.eng, c.st, c.res)
        s = c.old(c.thisloc)['stash']
        r = rd(c.eng, c.pre, c.args[1])
        kb, cl = r['tethys_bucket_pair'], r['complete_lists']
        b, k = kb['buckets'], kb['key']
        a = (k, b['payload_0'], b['index_0'], b['payload_1'], b['index_1'])
        dn, sn = DN(*a), z3.If(Sel(s['has'], k), Sel(s['el']['n'], k), I(0))
        i = z3.Int('i!r')
        return [('the results of the store and of the table', v['n'] == dn + sn + cl['n']), ('what the buckets hold', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < dn), Sel(v['el'], i) == Sel(DE(*a), i)))),
                ('what the stash holds', z3.ForAll([i], z3.Implies(z3.And(i >= dn, i < dn + sn), Sel(v['el'], i) == Sel(Sel(s['el']['el'], k), i - dn)))),
                ('the full blocks', z3.ForAll([i], z3.Implies(z3.And(i >= dn + sn, i < dn + sn + cl['n']), Sel(v['el'], i) == Sel(cl['el'], i - dn - sn))))]

    def ensures_throw(self, c, exc):
        return None


# ------------------------------------------------ serializers, RocksDB table
VB = 510 * 8


class BufFn(FnContract):
    mod = None
    ghosts = ()

    def make_param(self, eng, st, p, f):
        if eng.ir.T(p['t'])['k'] == 'ptr':
            st.roots['buffer'] = z3.Const('buffer', StrS)
            return Ptr(Loc('buffer'), z3.Int('off'))
        return super().make_param(eng, st, p, f)

    def ensures_throw(self, c, exc):
        return None


class Ser(BufFn):
    def __init__(self, cls, n):
        self.name, self.n = P_ + cls + '::serialize', n

    def requires(self, c):
        p = c.args[1]
        return [('the buffer has room for the serialization', z3.And(p.off >= 0, p.off + self.n <= slen(c.old(p.loc))))]

    def ensures(self, c):
        p = c.args[1]
        v, v0 = c.cur(p.loc), c.old(p.loc)
        x = c.arg(0)
        b = x if isz(x) else enc(c.eng, c.st, c.fn['params'][0]['t'], x)
        o_, m = z3.Int('o!z'), z3.Int('m!z')
        return [('the bytes of the object are written', ssub(v, p.off, I(self.n)) == b), ('and nothing else', z3.And(slen(v) == slen(v0), z3.ForAll([o_, m], z3.Implies(z3.And(m >= 0, z3.Or(o_ + m <= p.off, p.off + self.n <= o_)), ssub(v, o_, m) == ssub(v0, o_, m)), patterns=[ssub(v, o_, m)])))]


class Deser(BufFn):
    name = P_ + 'PlutoValueSerializer::deserialize'

    def requires(self, c):
        p = c.args[0]
        return [('the buffer holds a serialization', z3.And(p.off >= 0, p.off + VB <= slen(c.old(p.loc))))]

    def ensures(self, c):
        p = c.args[0]
        r = rd(c.eng, c.st, c.res)
        return [('the object with these bytes is read', enc(c.eng, c.st, c.eng.strip(r.ty), r) == ssub(c.old(p.loc), p.off, I(VB))), ('the buffer does not change', c.cur(p.loc) == c.old(p.loc))]


class Length(FnContract):
    mod = []
    ghosts = ()

    def __init__(self, cls, n):
        self.name, self.n = P_ + cls + '::serialization_length', n

    def ensures(self, c):
        return [('the length is the size of the object', c.res == self.n)]

    def ensures_throw(self, c, exc):
        return None


class Hasher(FnContract):
    name = P_ + 'PlutoCuckooHasher::operator()'
    mod = []
    ghosts = ()

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        h = r['h']['el'] if isinstance(r['h'], Node) else r['h']
        k = c.arg(0)
        return [('both parts of the key are used', h == oceanus.hash64(k))]

    def ensures_throw(self, c, exc):
        return None


def sconf(eng):
    tethys.conf(eng)


def up_arrow(eng, st, e, o, a):
    return [(st, eng.read(st, o))]


def dbconf(eng):
    db.conf(eng)
    eng.overrides['std::unique_ptr::operator->'] = up_arrow


class Store(db.DBFn):
    cls = P_ + 'GenericRocksDBStore::'

    def setup(self, eng, st, this, args):
        db.fresh_db(eng, st)
        eng.write(st, this.f('db'), Ptr(db.DB), hook=False)

    ghosts = ('db_has', 'db_val', 'db_err')


class StoreInsert(Store):
    name = Store.cls + 'insert'
    mod = None

    def ensures(self, c):
        b = enc(c.eng, c.st, c.fn['params'][1]['t'], c.arg(1))
        k = c.arg(0)
        return [self.only(c, k), ('the bytes of the block are stored under the key', z3.And(db.has(c.st, k), db.get(c.st, k) == b))]

    def ensures_throw(self, c, exc):
        return [('an insertion fails when storage fails only', c.st.ghost['db_err']), self.only(c, c.arg(0))]


class StoreGet(Store):
    name = Store.cls + 'get'
    mod = None

    def requires(self, c):
        k = c.arg(0)
        return [('blocks were stored with the same length', z3.Implies(db.has(c.pre, k), slen(db.get(c.pre, k)) == K * 8))]

    def ensures(self, c):
        r = rd(c.eng, c.st, c.res)
        k = c.arg(0)
        return self.same(c) + [('the block stored under the key', z3.And(db.has(c.pre, k), enc(c.eng, c.st, c.eng.strip(r.ty), r) == db.get(c.pre, k)))]

    def ensures_throw(self, c, exc):
        return self.same(c) + [('reported absent when it is, or when storage fails', z3.Or(z3.Not(db.has(c.pre, c.arg(0))), c.st.ghost['db_err'])), ('absence is reported as out_of_range', z3.BoolVal(exc.data == 'std::out_of_range'))]


def aux_units():
    U = lambda con, conf, label, **f: Unit('pluto', con.name, con, {}, conf=conf, label=label, find=f)
    return [U(Ser('PlutoKeySerializer', 16), sconf, 'PlutoKeySerializer::serialize'), U(Ser('PlutoValueSerializer', VB), sconf, 'PlutoValueSerializer::serialize'),
            U(Deser(), sconf, 'PlutoValueSerializer::deserialize'), U(Length('PlutoKeySerializer', 16), sconf, 'PlutoKeySerializer::serialization_length'),
            U(Length('PlutoValueSerializer', VB), sconf, 'PlutoValueSerializer::serialization_length'), U(Hasher(), sconf, 'PlutoCuckooHasher'),
            U(StoreInsert(), dbconf, 'GenericRocksDBStore::insert'), U(StoreGet(), dbconf, 'GenericRocksDBStore::get')]


def p13_units():
    U = lambda con, callee=(), label=None, conf=conf, **f: Unit('pluto', con.name, con, {x.name: x for x in callee}, conf=conf, label=label, find=f)
    return [U(Derive(), (), 'derive_core_key'), U(Split(), (Derive(),), 'PlutoBuilder::insert_list'), U(Build(), (), 'PlutoBuilder::build'),
            U(Request(), (), 'PlutoClient::search_request'), U(Search(), (Derive(), GetBuckets()), 'PlutoServer::search'), U(Results(), (), 'PlutoClient::decode_search_results')] + aux_units()
