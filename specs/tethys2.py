"""contracts: Tethys addressing (P07): the builder, the reader and the
asynchronous reader use the same two buckets for a key"""
import z3
from cppvc import *
from unit import Unit, load_ir
from models import M, val, strval, ignore, simp
from awonvm import up_get, up_release, up_bool, up_ctor
import oceanus
from oceanus import AVN, OV, avec_fresh, files, fails, hash64
import tethys
from tethys import I, THIS, AI, PS, N_, E_, Decode2, formed, HOLDS, LL, EL
SB, ST = N_ + 'TethysStoreBuilder::', N_ + 'TethysStore::'
CTRL = 6                                   # control values of a list
GS = z3.Function('tethys_graph_size', IntS, IntS, RealS if 'RealS' in globals() else IntS, IntS)
m = Engine.modU


def buckets(key, size):
    """the two buckets of a key in a table of that size"""
    half = size / 2
    return m(Sel(hash64(key), I(0)), half), half + m(Sel(hash64(key), I(1)), size - half)


# ---------------------------------------------------------------- builder
def graph_size(eng, st, e, o, a):
    eng.assumptions.add('the table has at least two buckets (tethys_graph_size, floating point)')
    p = eng.read(st, o)
    r = z3.Const('graph_size', IntS)
    st.assume(r >= 2, r < 2 ** 49)
    eng.oblige(st, val(eng, st, a[0]) == 512, 'the size of a bucket', e['line'])
    return [(st, r)]


def alloc_insert(eng, st, e, o, a):
    """TethysAllocator::insert, as proved for P05"""
    al = eng.read(st, o)
    k = eng.read(st, a[0]) if isinstance(a[0], Loc) else a[0]
    h = k['h']
    h0, h1 = Sel(h['el'] if isinstance(h, Node) else h, I(0)), Sel(h['el'] if isinstance(h, Node) else h, I(1))
    n, vi = val(eng, st, a[1]), val(eng, st, a[2])
    bad = z3.Or(al['allocated'], vi == 2 ** 64 - 1, n > al['page_size'], h0 >= al['tethys_graph_size'], h1 >= al['tethys_graph_size'])
    b = st.copy()
    b.assume(bad)
    eng.sinks[-1].append((b, Opaque('exc', 'refused')))
    st.assume(z3.Not(bad))
    g = st.ghost
    for q, x in (('ins_h0', h0), ('ins_h1', h1), ('ins_n', n), ('ins_vi', vi), ('ins', simp(g['ins'] + 1))):
        g[q] = x
    return [(st, None)]


def alloc_ctor(eng, st, e, ty, a):
    v = eng.fresh(ty, 'allocator')
    st.assume(v['tethys_graph_size'] == val(eng, st, a[0]), v['page_size'] == val(eng, st, a[1]), z3.Not(v['allocated']))
    return [(st, v)]


def bconf(eng):
    tethys.conf(eng)
    eng.models['sse::tethys::details::TethysAllocator::(ctor)'] = alloc_ctor
    eng.overrides.update({N_ + 'TethysStoreBuilderParam::graph_size': graph_size, N_ + 'details::TethysAllocator::insert': alloc_insert})


def binv(v):
    gs = z3.Const('graph_size', IntS)
    return [('the allocator was made for the table', z3.And(v['allocator']['tethys_graph_size'] == gs, v['allocator']['page_size'] == 512, gs >= 2, gs < 2 ** 49))]


class Insert(FnContract):
    name = SB + 'insert_list'
    mod = None
    may_throw = True
    ghosts = ('ins_h0', 'ins_h1', 'ins_n', 'ins_vi', 'ins')

    def setup(self, eng, st, this, args):
        for q in self.ghosts:
            st.ghost[q] = z3.Int(q)
        st.ghost['ins'] = I(0)

    def requires(self, c):
        v = c.old(c.thisloc)
        return binv(v) + [('', z3.And(v['data']['n'] < 2 ** 50, c.old(c.args[1])['n'] < 2 ** 50))]

    def ensures(self, c):
        v, v0, l = c.cur(c.thisloc), c.old(c.thisloc), c.old(c.args[1])
        g = c.st.ghost
        b0, b1 = buckets(c.arg(0), z3.Const('graph_size', IntS))
        gs = z3.Const('graph_size', IntS)
        vi = g['ins_vi']
        d = v['data']
        i = z3.Int('i!d')
        return binv(v) + [('lists are inserted before the build only', z3.Not(v0['is_built'])), ('the list is allocated once', g['ins'] == 1),
                          ('first bucket: in the first half', z3.And(g['ins_h0'] == b0, b0 >= 0, b0 < gs / 2)), ('second bucket: in the second half', z3.And(g['ins_h1'] == b1, b1 >= gs / 2, b1 < gs)),
                          ('the allocated length counts the control values', g['ins_n'] == l['n'] + CTRL), ('the data is added', z3.And(d['n'] == v0['data']['n'] + 1, vi == v0['data']['n'])),
                          ('the allocated index is that of the key and the list', z3.And(Sel(d['el']['key'], vi) == c.arg(0), Sel(d['el']['values']['n'] if isinstance(d['el']['values'], Node) else d['el']['values'], vi) == l['n'])),
                          ('the elements are those of the list', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l['n']), Sel(Sel(d['el']['values']['el'], vi), i) == Sel(l['el'], i)))),
                          ('other lists do not change', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v0['data']['n']), z3.And(Sel(d['el']['key'], i) == Sel(v0['data']['el']['key'], i), Sel(d['el']['values']['n'], i) == Sel(v0['data']['el']['values']['n'], i)))))]

    def ensures_throw(self, c, exc):
        v0 = c.old(c.thisloc)
        return binv(c.cur(c.thisloc)) + [('refused only after the build or when the list does not fit a bucket', z3.Or(v0['is_built'], v0['allocator']['allocated'], c.old(c.args[1])['n'] + CTRL > 512, v0['data']['n'] == 2 ** 64 - 1)),
                                         ('a refused list is not allocated', c.st.ghost['ins'] == 0)]


class BOpen(FnContract):
    name = SB + 'TethysStoreBuilder'
    mod = None
    ghosts = ()

    def ensures(self, c):
        v = c.cur(c.thisloc)
        return binv(v) + [('nothing inserted yet', z3.And(v['data']['n'] == 0, z3.Not(v['is_built'])))]

    def ensures_throw(self, c, exc):
        return None


# ----------------------------------------------------------------- reader
def fn_call(eng, st, e, o, a):
    f = simp(eng.read(st, o))
    if z3.is_int_value(f) and f.as_long() < 0:
        return eng.call_value(st, eng.fns[-2 - f.as_long()], a, e)
    g = st.ghost
    g['called'] = simp(g['called'] + 1)
    g['lastcb'] = f
    x = val(eng, st, a[0])
    if isinstance(x, Loc):
        x = eng.read(st, x)
    if isinstance(x, Node) and x.kind == 'seq':
        g['got_n'], g['got_el'] = x['n'], x['el']
    elif isinstance(x, Ptr):
        i = val(eng, st, a[1])
        v = eng.read(st, x.loc) if x.loc is not None else z3.Const('null', StrS)
        g['got_i'] = z3.Store(g['got_i'], simp(g['called'] - 1), i)
        g['got_b'] = z3.Store(g['got_b'], simp(g['called'] - 1), v)
        if x.loc is None:
            g['ioerr'] = TRUE
    else:
        raise Unsupported('callback argument')
    return [(st, None)]


def async_gets(eng, st, e, o, a):
    eng.assumptions.add('asynchronous bucket reads that are accepted succeed (a failed read delivers no bucket)') if eng.reads_ok else None
    return oceanus.async_gets(eng, st, e, o, a)


def up_star(eng, st, e, o, a):
    p = eng.read(st, o)
    if not isinstance(p, Ptr):
        return NotImplemented
    eng.oblige(st, z3.BoolVal(p.loc is not None), 'the bucket dereferenced was delivered', e['line'])
    if p.loc is None:
        raise Unsupported('null pointer')
    return [(st, p.loc)]


def rconf(eng):
    tethys.conf(eng)
    eng.fns, eng.other = [], None
    eng.page = PS
    eng.reads_ok = False
    eng.special_types.update({AVN: 'avec', 'std::function': 'fnid'})
    eng.special_sorts = {'fnid': IntS}
    eng.special_fresh.update({'avec': avec_fresh})
    eng.models[AVN + '::(ctor)'] = oceanus.av_ctor
    eng.models['std::function::(ctor)'] = oceanus.fn_ctor
    eng.models['std::unique_ptr::(ctor)'] = up_ctor
    eng.overrides.update({k: v for k, v in OV.items() if k not in ('std::fill',)})
    eng.overrides['std::fill'] = tethys.fill
    eng.overrides['std::function::operator()'] = fn_call
    eng.overrides[AVN + '::async_gets'] = async_gets
    eng.overrides['std::unique_ptr::operator*'] = up_star
    eng.unroll = 40


def sinv(v):
    t = v['table']
    k = z3.Int('k!t')
    return [('an open store reads a committed table', z3.And(t['com'], t['n'] == v['table_size'], t['n'] < 2 ** 50)), ('a table of at least two buckets', t['n'] >= 2),
            ('every bucket can be read', z3.ForAll([k], Sel(t['ok'], k) == z3.And(k >= 0, k < t['n']), patterns=[Sel(t['ok'], k)]))]


class Reader(FnContract):
    mod = None
    may_throw = True
    ghosts = ('f_n', 'f_el', 'ioerr')

    def setup(self, eng, st, this, args):
        files(eng, st)

    def requires(self, c):
        return sinv(c.old(c.thisloc))


class SOpen(Reader):
    name = ST + 'TethysStore'

    def requires(self, c):
        return []

    def ensures(self, c):
        v = c.cur(c.thisloc)
        t = v['table']
        return [('the size of the table is that of the file', z3.And(t['com'], t['n'] == v['table_size'], t['n'] == Sel(c.pre.ghost['f_n'], c.arg(0)), t['el'] == Sel(c.pre.ghost['f_el'], c.arg(0))))]

    def ensures_throw(self, c, exc):
        return [('opening fails on an empty file, or when storage fails', z3.Or(Sel(c.pre.ghost['f_n'], c.arg(0)) == 0, c.st.ghost['ioerr']))]


class GetBuckets(Reader):
    name = ST + 'get_buckets'
    mod = []

    def ensures(self, c):
        v = c.old(c.thisloc)
        b0, b1 = buckets(c.arg(0), v['table_size'])
        r = c.res if isinstance(c.res, Node) else c.eng.read(c.st, c.res)
        el = v['table']['el']
        return [('first bucket of the key, in the first half', z3.And(r['index_0'] == b0, b0 >= 0, b0 < v['table_size'] / 2)), ('second bucket of the key, in the second half', z3.And(r['index_1'] == b1, b1 >= v['table_size'] / 2, b1 < v['table_size'])),
                ('the page of the first bucket', r['payload_0'] == Sel(el, b0)), ('the page of the second bucket', r['payload_1'] == Sel(el, b1))]

    def ensures_throw(self, c, exc):
        return [('a lookup fails when storage fails only', c.st.ghost['ioerr'])]


class AsyncBuckets(Reader):
    name = ST + 'async_get_buckets'
    ghosts = Reader.ghosts + ('called', 'lastcb', 'got_i', 'got_b')

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.ghost['called'] = I(0)
        st.ghost['lastcb'] = I(0)
        st.ghost['got_i'] = z3.Const('got_i', AI)
        st.ghost['got_b'] = z3.Const('got_b', z3.ArraySort(IntS, StrS))

    def requires(self, c):
        return super().requires(c) + [('a callback', c.arg(1) > 0)]

    def ensures(self, c):
        v = c.old(c.thisloc)
        b0, b1 = buckets(c.arg(0), v['table_size'])
        h = c.st.ghost
        el = v['table']['el']
        ok = lambda j, b: z3.And(Sel(h['got_i'], I(j)) == b, z3.Or(h['ioerr'], Sel(h['got_b'], I(j)) == Sel(el, b)))
        return [('the callback is called for each bucket', z3.And(h['called'] == 2, h['lastcb'] == c.arg(1))), ('first half, second half', z3.And(b0 >= 0, b0 < v['table_size'] / 2, b1 >= v['table_size'] / 2, b1 < v['table_size'])),
                ('both buckets of the key are delivered, each with its index', z3.Or(z3.And(ok(0, b0), ok(1, b1)), z3.And(ok(0, b1), ok(1, b0))))]

    def ensures_throw(self, c, exc):
        return [('a lookup fails when storage fails only', c.st.ghost['ioerr']), ('and makes no callback', c.st.ghost['called'] == 0)]


# the decoder as a function of the key and the two buckets (P08, P09 say which)
DN = z3.Function('decoded_n', StrS, StrS, IntS, StrS, IntS, IntS)
DE = z3.Function('decoded_el', StrS, StrS, IntS, StrS, IntS, AI)


def decode_buckets(eng, st, e, o, a):
    x = []
    for y in a:
        v = eng.read(st, y) if isinstance(y, Loc) else y
        x.append(v)
    r = eng.fresh(e['rt'], 'decoded')
    eng.type_facts(st, e['rt'], r)
    st.assume(r['n'] == DN(*x), r['el'] == DE(*x), r['n'] < 2 ** 50)
    return [(st, r)]


# std::map: find gives the entry (a copy, only read) or the end
def map_find(eng, st, e, o, a):
    v = eng.read(st, o)
    k = val(eng, st, a[0])
    k = eng.read(st, k) if isinstance(k, Loc) else k
    if not (isz(k) and k.sort() == StrS):
        return NotImplemented
    y, n = st.copy(), st.copy()
    y.assume(Sel(v['has'], k))
    n.assume(z3.Not(Sel(v['has'], k)))
    pt = eng.elem_ty(v.ty)
    val_ = Node(v['el'].kind, v['el'].ty, {q: Sel(x, k) for q, x in v['el'].ch.items()})
    y.assume(val_['n'] >= 0, val_['n'] < 2 ** 60)
    r = eng.new_root(y, Node('rec', None, {'first': k, 'second': val_}), 'entry')
    return [(y, Iter(r, I(0), 'mapel')), (n, Iter(o, I(0), 'mapend'))]


def map_end(eng, st, e, o, a):
    return [(st, Iter(o, I(0), 'mapend'))]


def map_cmp(eq):
    def f(eng, st, e, o, a):
        x, y = [val(eng, st, z) for z in ([o] if o is not None else []) + list(a)]
        if not (isinstance(x, Iter) and isinstance(y, Iter) and x.kind in ('mapel', 'mapend') and y.kind in ('mapel', 'mapend')):
            return NotImplemented
        if x.kind == y.kind == 'mapel':
            return NotImplemented
        return [(st, z3.BoolVal((x.kind == y.kind) == eq))]
    return f


def map_arrow(eng, st, e, o, a):
    it = eng.read(st, o)
    if not isinstance(it, Iter) or it.kind not in ('mapel', 'mapend'):
        return NotImplemented
    eng.oblige(st, z3.BoolVal(it.kind == 'mapel'), 'only an entry found is read', e['line'])
    return [(st, Ptr(it.loc))]


def map_conf(eng):
    eng.overrides.update({'std::map::find': map_find, 'std::map::end': map_end, 'std::operator==': map_cmp(True), 'std::operator!=': map_cmp(False)})
    for q in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
        eng.overrides.update({q + '::operator->': map_arrow, q + '::operator==': map_cmp(True), q + '::operator!=': map_cmp(False)})


class GetList(Reader):
    name = ST + 'get_list'
    ghosts = Reader.ghosts + ('cursor',)

    def parts(self, c):
        v = c.old(c.thisloc)
        k = c.arg(0)
        b0, b1 = buckets(k, v['table_size'])
        el = v['table']['el']
        a = (k, Sel(el, b0), b0, Sel(el, b1), b1)
        s = v['stash']
        has = Sel(s['has'], k)
        return DN(*a), DE(*a), z3.If(has, Sel(s['el']['n'], k), I(0)), Sel(s['el']['el'], k)

    def requires(self, c):
        k = c.arg(0)
        s = c.old(c.thisloc)['stash']
        return super().requires(c) + [('', z3.And(Sel(s['el']['n'], k) >= 0, Sel(s['el']['n'], k) < 2 ** 50))]

    def result(self, c, n, el):
        dn, de, sn, se = self.parts(c)
        i = z3.Int('i!r')
        return [('the elements of the two buckets and of the stash', n == dn + sn), ('first what the buckets of the key hold', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < dn), Sel(el, i) == Sel(de, i)))),
                ('then what the stash holds for the key', z3.ForAll([i], z3.Implies(z3.And(i >= dn, i < dn + sn), Sel(el, i) == Sel(se, i - dn))))]

    def ensures(self, c):
        r = c.res if isinstance(c.res, Node) else c.eng.read(c.st, c.res)
        return self.result(c, r['n'], r['el'])

    def ensures_throw(self, c, exc):
        return [('a lookup fails when storage fails only', c.st.ghost['ioerr'])]


class AsyncList(GetList):
    name = ST + 'async_get_list'
    ghosts = GetList.ghosts + ('called', 'lastcb', 'got_n', 'got_el')

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.ghost['called'] = I(0)
        st.ghost['lastcb'] = I(0)
        st.ghost['got_n'] = z3.Int('got_n')
        st.ghost['got_el'] = z3.Const('got_el', AI)

    def requires(self, c):
        return super().requires(c) + [('a callback', c.arg(len(c.args) - 1) > 0)]

    def ensures(self, c):
        h = c.st.ghost
        return [('the callback is called exactly once', z3.And(h['called'] == 1, h['lastcb'] == c.arg(len(c.args) - 1)))] + self.result(c, h['got_n'], h['got_el'])

    def ensures_throw(self, c, exc):
        return super().ensures_throw(c, exc) + [('and makes no callback', c.st.ghost['called'] == 0)]


def lconf(eng):
    rconf(eng)
    map_conf(eng)
    eng.overrides[E_ + 'EncodeSeparateDecoder::decode_buckets'] = decode_buckets
    eng.reads_ok = True


def dec(nparams=None):
    return lambda f: 'EncodeSeparateDecoder' in f['key'] or 'EncodeSeparateE' in f['key'] and 'EncryptEncoder' not in f['key']


def p07_units():
    U = lambda con, callee=(), label=None, conf=rconf, **f: Unit('tethys', con.name, con, {x.name: x for x in callee}, conf=conf, label=label, find=f)
    return [U(BOpen(), (), 'TethysStoreBuilder open', conf=bconf, nparams=1), U(Insert(), (), 'TethysStoreBuilder::insert_list', conf=bconf),
            U(GetBuckets(), (), 'TethysStore::get_buckets'), U(AsyncBuckets(), (), 'TethysStore::async_get_buckets', nparams=2), U(SOpen(), (), 'TethysStore open', nparams=2),
            U(GetList(), (), 'TethysStore::get_list', conf=lconf, nparams=2), U(GetList(), (), 'TethysStore::get_list(key)', conf=lconf, nparams=1),
            U(AsyncList(), (), 'TethysStore::async_get_list', conf=lconf, nparams=3), U(AsyncList(), (), 'TethysStore::async_get_list(key)', conf=lconf, nparams=2)]
