"""Models of the C++ standard library and other external functions (trusted)."""
import z3
from cppvc import *

M = {}
PFX = []
CTORPFX = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def S(names, ops):
    return ['%s::%s' % (c, o) for c in names for o in ops]


SEQ = ['std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::_List_base']


def val(eng, st, x, ty=None):
    return eng.load(st, x, ty) if isinstance(x, Loc) else x


def slo(v):
    return v['lo'] if 'lo' in v.ch else z3.IntVal(0)


def simp(x):
    return z3.simplify(x)


def mkseq(eng, ty, n, el):
    ty = eng.strip(ty)
    ch = {'n': n, 'el': el}
    if eng.ir.T(ty)['q'].endswith('deque'):
        ch['lo'] = z3.IntVal(0)
    return Node('seq', ty, ch)


def emptyseq(eng, ty):
    v = eng.fresh(ty, 'seq')
    c = {'n': z3.IntVal(0)}
    if 'lo' in v.ch:
        c['lo'] = z3.IntVal(0)
    return v.with_(**c)


def constel(eng, el_ty, x):
    """lifted element family, all elements x"""
    proto = eng.fresh(el_ty, 'ce', (IntS,))

    def go(p, v):
        if isinstance(p, Node):
            return Node(p.kind, p.ty, {k: go(p.ch[k], v.ch[k]) for k in p.ch})
        if isz(p):
            return z3.K(IntS, v)
        return p
    return go(proto, x)


def default_val(eng, st, ty):
    """value-initialised object of type ty; runs repo constructors' default
    member initialisers through the IR when available"""
    ty = eng.strip(ty)
    sh = eng.shape(ty)
    if sh == 'rec':
        rname = eng.ir.T(ty)['name']
        fs = [f for f in eng.ir.funcs.values()
              if f.get('ctor') and not f['params'] and eng.ir.T(f['cls'])['name'] == rname]
        if fs:
            l = eng.new_root(st, eng.zero(ty), 'obj')
            r = eng.inline(st, fs[0], l, [], {'line': 0})
            if len(r) == 1:
                return eng.read(r[0][0], l)
            raise Unsupported('forking default constructor')
        v = eng.zero(ty)
        ch = dict(v.ch)
        for f in eng.ir.records[rname]['fields']:
            if f['n'] in ch:
                ch[f['n']] = default_val(eng, st, f['t'])
        return Node('rec', ty, ch)
    if sh == 'seq':
        return emptyseq(eng, ty)
    if sh == 'str':
        return eng.strconst('')
    return eng.zero(ty)


def setel(eng, v, idx, x):
    return v.with_(el=vstore(v['el'], [idx], x))


# ------------------------------------------------------------- sequences
def seq_ctor(eng, st, e, ty, args):
    ety = eng.elem_ty(ty)
    args = [a for a in args if not (isinstance(a, Loc) and isinstance(eng.read(st, a), Opaque) and 'alloc' in eng.read(st, a).tag)
            and not (isinstance(a, Opaque) and 'alloc' in a.tag)]
    if not args:
        return [(st, emptyseq(eng, ty))]
    a0 = val(eng, st, args[0])
    if isz(a0) and a0.sort() == IntS:
        if len(args) == 1:
            x = default_val(eng, st, ety)
        else:
            x = val(eng, st, args[1])
        return [(st, mkseq(eng, ty, a0, constel(eng, ety, x)))]
    if isinstance(a0, Node) and a0.kind == 'seq':
        v = a0
        n = eng.fresh(ty, 's')
        if ('lo' in n.ch) == ('lo' in v.ch):
            return [(st, Node('seq', eng.strip(ty), dict(v.ch)))]
        return [(st, mkseq(eng, ty, v['n'], v['el']))]
    if len(args) == 2:
        a1 = val(eng, st, args[1])
        if isinstance(a0, Iter) and isinstance(a1, Iter) and a0.kind == 'seq' and same(a0.loc, a1.loc):
            src = eng.read(st, a0.loc)
            n = simp(a1.idx - a0.idx)
            if isinstance(src, Node) and src.kind == 'seq' or isinstance(src, Node):
                v = emptyseq(eng, ty)
                return [(st, v.with_(n=n, el=slice_el(eng, st, src['el'], v['el'], a0.idx, n, eng.elem_ty(src.ty), ety)))]
    raise Unsupported('sequence constructor %s' % e.get('line'))


def slice_el(eng, st, sel_, dproto, off, n, sty, dty):
    """lifted family el'[i] = el[off+i]"""
    if z3.is_int_value(simp(off)) and simp(off).as_long() == 0 and eng.ir.T(eng.strip(sty))['s'].replace('const ', '') == eng.ir.T(eng.strip(dty))['s'].replace('const ', ''):
        return sel_

    def go(a, d):
        if isinstance(a, Node):
            return Node(d.kind, d.ty, {k: go(a.ch[k], d.ch[k]) for k in d.ch})
        if isz(a):
            i = z3.Int('i!sl')
            return z3.Lambda([i], Sel(a, i + off))
        return d
    return go(sel_, dproto)


for c in ('std::vector', 'std::deque', 'std::list'):
    M[c + '::(ctor)'] = seq_ctor


@model(*S(SEQ, ['size']))
def seq_size(eng, st, e, o, a):
    v = eng.read(st, o)
    n = v['n']
    st.assume(n >= 0, n <= 2 ** 60)
    return [(st, n)]


@model(*S(SEQ, ['empty']))
def seq_empty(eng, st, e, o, a):
    v = eng.read(st, o)
    st.assume(v['n'] >= 0, v['n'] <= 2 ** 60)
    return [(st, v['n'] == 0)]


@model(*S(SEQ, ['operator[]', 'at']))
def seq_index(eng, st, e, o, a):
    v = eng.read(st, o)
    i = val(eng, st, a[0])
    if normq(e['q']).endswith('at'):
        out = []
        for s, ok in eng.branch(st, z3.And(i >= 0, i < v['n'])):
            if ok:
                out.append((s, o.e(simp(slo(v) + i))))
            else:
                eng.sinks[-1].append((s, Opaque('exc', 'std::out_of_range')))
        return out
    if eng.check_bounds:
        eng.oblige(st, z3.And(i >= 0, i < v['n']), 'sequence index in bounds', e['line'])
    st.assume(v['n'] <= 2 ** 60)
    return [(st, o.e(simp(slo(v) + i)))]


def seqhook(eng, st, op, o, x):
    for h in eng.seqhooks:
        h(eng, st, op, o, x)


@model(*S(SEQ, ['push_back', 'emplace_back']))
def seq_push_back(eng, st, e, o, a):
    v = eng.read(st, o)
    if normq(e['q']).endswith('emplace_back'):
        x = construct(eng, st, eng.elem_ty(v.ty), a, e)
    else:
        x = val(eng, st, a[0])
    seqhook(eng, st, 'push_back', o, x)
    nv = setel(eng, v, simp(slo(v) + v['n']), x)
    eng.write(st, o, nv.with_(n=simp(v['n'] + 1)), hook=False)
    if normq(e['q']).endswith('emplace_back'):
        return [(st, o.e(simp(slo(v) + v['n'])))]
    return [(st, None)]


def construct(eng, st, ty, args, e):
    """T(args...) for emplace operations"""
    sh = eng.shape(ty)
    if len(args) == 1:
        v = val(eng, st, args[0])
        if isz(v) and eng.leafsort(ty) is not None and v.sort() == eng.leafsort(ty):
            return v
        if isinstance(v, Node) and v.ty == eng.strip(ty):
            return v
    if sh == 'rec':
        rname = eng.ir.T(eng.strip(ty))['name']
        r = eng.ir.records[rname]
        if r['q'] == 'std::pair' and len(args) == 2:
            v = eng.fresh(ty, 'pair')
            return Node('rec', v.ty, {'first': val(eng, st, args[0]), 'second': val(eng, st, args[1])})
        fs = [f for f in eng.ir.funcs.values()
              if f.get('ctor') and len(f['params']) == len(args) and eng.ir.T(f['cls'])['name'] == rname
              and not f.get('copy') and not f.get('move')]
        if len(fs) == 1:
            l = eng.new_root(st, eng.fresh(ty, 'obj'), 'obj')
            rr = eng.inline(st, fs[0], l, args, e)
            if len(rr) == 1:
                return eng.read(rr[0][0], l)
    raise Unsupported('emplace of %s' % eng.ir.T(ty)['s'])


@model(*S(SEQ, ['push_front']))
def seq_push_front(eng, st, e, o, a):
    v = eng.read(st, o)
    x = val(eng, st, a[0])
    seqhook(eng, st, 'push_front', o, x)
    if 'lo' in v.ch:
        lo = simp(v['lo'] - 1)
        nv = v.with_(lo=lo, n=simp(v['n'] + 1), el=vstore(v['el'], [lo], x))
    else:
        raise Unsupported('list::push_front')
    eng.write(st, o, nv, hook=False)
    return [(st, None)]


@model(*S(SEQ, ['front']))
def seq_front(eng, st, e, o, a):
    v = eng.read(st, o)
    eng.oblige(st, v['n'] > 0, 'front of non-empty sequence', e['line'])
    return [(st, o.e(slo(v)))]


@model(*S(SEQ, ['back']))
def seq_back(eng, st, e, o, a):
    v = eng.read(st, o)
    eng.oblige(st, v['n'] > 0, 'back of non-empty sequence', e['line'])
    return [(st, o.e(simp(slo(v) + v['n'] - 1)))]


@model(*S(SEQ, ['pop_front']))
def seq_pop_front(eng, st, e, o, a):
    v = eng.read(st, o)
    eng.oblige(st, v['n'] > 0, 'pop of non-empty sequence', e['line'])
    seqhook(eng, st, 'pop_front', o, eng.read(st, o.e(slo(v))))
    if 'lo' not in v.ch:
        raise Unsupported('list::pop_front')
    eng.write(st, o, v.with_(lo=simp(v['lo'] + 1), n=simp(v['n'] - 1)), hook=False)
    return [(st, None)]


@model(*S(SEQ, ['pop_back']))
def seq_pop_back(eng, st, e, o, a):
    v = eng.read(st, o)
    eng.oblige(st, v['n'] > 0, 'pop of non-empty sequence', e['line'])
    seqhook(eng, st, 'pop_back', o, eng.read(st, o.e(simp(slo(v) + v['n'] - 1))))
    eng.write(st, o, v.with_(n=simp(v['n'] - 1)), hook=False)
    return [(st, None)]


@model(*S(SEQ, ['clear']))
def seq_clear(eng, st, e, o, a):
    v = eng.read(st, o)
    eng.write(st, o, v.with_(n=z3.IntVal(0)), hook=False)
    return [(st, None)]


@model(*S(SEQ, ['reserve', 'shrink_to_fit']))
def seq_reserve(eng, st, e, o, a):
    return [(st, None)]


@model(*S(SEQ, ['resize']))
def seq_resize(eng, st, e, o, a):
    v = eng.read(st, o)
    n = val(eng, st, a[0])
    ety = eng.elem_ty(v.ty)
    x = val(eng, st, a[1]) if len(a) > 1 else default_val(eng, st, ety)
    old = v['el']
    nel = eng.fresh(ety, 'rs', (IntS,))

    def go(o_, p, d):
        if isinstance(p, Node):
            return Node(p.kind, p.ty, {k: go(o_.ch[k], p.ch[k], d.ch[k]) for k in p.ch})
        if isz(p):
            i = z3.Int('i!rs')
            return z3.Lambda([i], z3.If(i < slo(v) + v['n'], Sel(o_, i), d))
        return p
    eng.write(st, o, v.with_(n=n, el=go(old, nel, x)), hook=False)
    return [(st, None)]


@model(*S(SEQ, ['begin', 'cbegin']))
def seq_begin(eng, st, e, o, a):
    v = eng.read(st, o)
    return [(st, Iter(o, slo(v)))]


@model(*S(SEQ, ['end', 'cend']))
def seq_end(eng, st, e, o, a):
    v = eng.read(st, o)
    st.assume(v['n'] >= 0, v['n'] <= 2 ** 60)
    return [(st, Iter(o, simp(slo(v) + v['n'])))]


@model(*S(SEQ, ['operator=']))
def seq_assign(eng, st, e, o, a):
    v = val(eng, st, a[0])
    eng.write(st, o, v, hook=False)
    return [(st, o)]


@model(*S(SEQ, ['data']))
def seq_data(eng, st, e, o, a):
    return [(st, Ptr(o, z3.IntVal(0)))]


@model(*S(SEQ, ['get_allocator']))
def seq_alloc(eng, st, e, o, a):
    return [(st, Opaque('alloc'))]


# vector<bool> references
@model('std::_Bit_reference::operator bool')
def bit_load(eng, st, e, o, a):
    return [(st, eng.load(st, o))]


@model('std::_Bit_reference::operator=')
def bit_store(eng, st, e, o, a):
    x = val(eng, st, a[0])
    eng.write(st, o, x)
    return [(st, o)]


# std::array
@model('std::array::operator[]', 'std::array::at')
def arr_index(eng, st, e, o, a):
    v = eng.read(st, o)
    i = val(eng, st, a[0])
    if isinstance(v, Node) and v.kind == 'parr':
        return eng.parr_cases(st, o, i, e['line'])
    if isinstance(v, Node):
        n = eng.arr_n(v.ty)
        if eng.bv:
            i = z3.BV2Int(i) if not z3.is_bv_value(i) else z3.IntVal(i.as_long())
        if eng.check_bounds:
            eng.oblige(st, z3.And(i >= 0, i < n), 'array index in bounds', e['line'])
        return [(st, o.e(i))]
    if eng.byte_elems and isz(v) and v.sort() == StrS:
        from cppvc import sat
        eng.oblige(st, z3.And(i >= 0, i < slen(v)), 'array index in bounds', e['line'])
        st.assume(sat(v, i) >= 0, sat(v, i) <= 255)
        return [(st, o.b(i))]
    raise Unsupported('index of byte array')


@model('std::array::size')
def arr_size(eng, st, e, o, a):
    cls = eng.strip(e['cls'])
    return [(st, z3.IntVal(eng.arr_n(cls)) if not eng.bv else z3.BitVecVal(eng.arr_n(cls), 64))]


# iterators
def it_deref(eng, st, e, o, a):
    it = eng.read(st, o) if o is not None else val(eng, st, a[0])
    if not isinstance(it, Iter):
        raise Unsupported('dereference of %r' % (it,))
    l = eng.iter_loc(st, it)
    if it.kind == 'seq' and eng.check_bounds:
        c = eng.read(st, it.loc)
        if isinstance(c, Node) and c.kind == 'seq':
            eng.oblige(st, z3.And(it.idx >= slo(c), it.idx < slo(c) + c['n']), 'iterator dereference in bounds', e['line'])
    if normq(e['q']).endswith('->'):
        return [(st, Ptr(l))]
    return [(st, l)]


def it_inc(d):
    def f(eng, st, e, o, a):
        it = eng.read(st, o)
        if not isinstance(it, Iter):
            raise Unsupported('increment of %r' % (it,))
        new = Iter(it.loc, simp(it.idx + d), it.kind, it.aux)
        eng.write(st, o, new)
        if e['pt']:
            return [(st, it)]
        return [(st, o)]
    return f


def it_add(d):
    def f(eng, st, e, o, a):
        it = eng.read(st, o) if o is not None else val(eng, st, a[0])
        n = val(eng, st, a[-1])
        if isinstance(n, Iter):
            if d == -1 and same(n.loc, it.loc):
                return [(st, simp(it.idx - n.idx))]
            raise Unsupported('iterator difference')
        return [(st, Iter(it.loc, simp(it.idx + d * n), it.kind, it.aux))]
    return f


def it_addas(d):
    def f(eng, st, e, o, a):
        it = eng.read(st, o)
        n = val(eng, st, a[0])
        eng.write(st, o, Iter(it.loc, simp(it.idx + d * n), it.kind, it.aux))
        return [(st, o)]
    return f


def it_cmp(op):
    def f(eng, st, e, o, a):
        xs = ([eng.read(st, o)] if o is not None else []) + [val(eng, st, x) for x in a]
        x, y = xs
        if not isinstance(x, Iter) or not isinstance(y, Iter):
            raise Unsupported('comparison of %r' % (x,))
        r = eng.ptreq(x, y)
        return [(st, r if op == '==' else z3.Not(r))]
    return f


ITS = ['__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
       'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_Bit_iterator', 'std::_Bit_const_iterator',
       'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator']
for n in ITS:
    M[n + '::operator*'] = it_deref
    M[n + '::operator->'] = it_deref
    M[n + '::operator++'] = it_inc(1)
    M[n + '::operator--'] = it_inc(-1)
    M[n + '::operator+'] = it_add(1)
    M[n + '::operator-'] = it_add(-1)
    M[n + '::operator+='] = it_addas(1)
    M[n + '::operator-='] = it_addas(-1)
    M[n + '::operator=='] = it_cmp('==')
    M[n + '::operator!='] = it_cmp('!=')

    def _itctor(eng, st, e, ty, args):
        return [(st, val(eng, st, args[0]))] if args else [(st, Opaque('iter0'))]
    M[n + '::(ctor)'] = _itctor


def free_eq(op):
    def f(eng, st, e, o, a):
        x, y = [val(eng, st, z) for z in a]
        if isinstance(x, Iter):
            r = eng.ptreq(x, y)
            return [(st, r if op == '==' else z3.Not(r))]
        if isz(x) and isz(y) and x.sort() == y.sort():
            return [(st, x == y if op == '==' else x != y)]
        if isinstance(x, Node) and isinstance(y, Node) and x.kind == 'seq':
            raise Unsupported('container comparison')
        raise Unsupported('operator%s on %r' % (op, x))
    return f


for ns in ('__gnu_cxx::', 'std::', 'std::__detail::'):
    M[ns + 'operator=='] = free_eq('==')
    M[ns + 'operator!='] = free_eq('!=')
    M[ns + 'operator-'] = it_add(-1)


@model('std::begin', 'std::cbegin')
def std_begin(eng, st, e, o, a):
    v = eng.read(st, a[0])
    return [(st, Iter(a[0], slo(v)))]


@model('std::end', 'std::cend')
def std_end(eng, st, e, o, a):
    v = eng.read(st, a[0])
    return [(st, Iter(a[0], simp(slo(v) + v['n'])))]


@model('std::next', 'std::prev')
def std_next(eng, st, e, o, a):
    it = val(eng, st, a[0])
    d = val(eng, st, a[1]) if len(a) > 1 else z3.IntVal(1)
    return [(st, Iter(it.loc, simp(it.idx + d if e['q'] == 'std::next' else it.idx - d), it.kind, it.aux))]


# ------------------------------------------------------------- utilities
@model('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const')
def std_move(eng, st, e, o, a):
    return [(st, a[0])]


@model('std::swap')
def std_swap(eng, st, e, o, a):
    x, y = eng.read(st, a[0]), eng.read(st, a[1])
    eng.write(st, a[0], y)
    eng.write(st, a[1], x)
    return [(st, None)]


@model('std::exchange')
def std_exchange(eng, st, e, o, a):
    x = eng.read(st, a[0])
    eng.write(st, a[0], val(eng, st, a[1]))
    return [(st, x)]


def minmax(op):
    def f(eng, st, e, o, a):
        if len(a) != 2:
            raise Unsupported('min/max with comparator')
        x, y = val(eng, st, a[0]), val(eng, st, a[1])
        t = eng.ir.T(eng.strip(e['rt']))
        if not isz(x):
            raise Unsupported('min/max')
        eng.type_facts(st, e['rt'], x)
        eng.type_facts(st, e['rt'], y)
        c = eng.compare('<', y, x, t.get('sg', 0)) if op == 'min' else eng.compare('<', x, y, t.get('sg', 0))
        r = z3.If(c, y, x)
        if eng.quick(st, z3.Not(c)):
            r = x
        elif eng.quick(st, c):
            r = y
        return [(st, eng.new_root(st, r))]
    return f


M['std::min'] = minmax('min')
M['std::max'] = minmax('max')


@model('std::accumulate')
def std_accumulate(eng, st, e, o, a):
    """for (; b != e; ++b) acc = f(acc, *b);  executed as a loop"""
    b, en, init = [val(eng, st, x) for x in a[:3]]
    fn = a[3] if len(a) > 3 else None
    fv = (eng.read(st, fn) if isinstance(fn, Loc) else fn) if fn is not None else None
    if not (isinstance(b, Iter) and isinstance(en, Iter)):
        raise Unsupported('accumulate over %r' % (b,))
    ity = e['pt'][2]
    it = eng.new_root(st, b, 'acc_it')
    acc = eng.new_root(st, init, 'acc')
    env = st.env
    st.env = dict(env)
    aid, iid = -(id(e) % 10 ** 9) * 2, -(id(e) % 10 ** 9) * 2 - 1
    st.env[aid] = acc
    st.env[iid] = it
    eng._vt[aid] = ('acc', ity)

    def cond(s):
        x = eng.read(s, it)
        return [(s, z3.Not(eng.ptreq(x, en)))]

    def body(s):
        x = eng.read(s, it)
        el = eng.iter_loc(s, x)
        av = eng.read(s, acc)
        eng.type_facts(s, ity, av)
        out = []
        if fv is None:
            rs = [(s, eng.arith(s, '+', av, eng.load(s, el), ity, e['line']))]
        else:
            rs = eng.call_value(s, fv, [av, el], e)
        for s2, r in rs:
            if isinstance(r, Loc):
                r = eng.load(s2, r)
            eng.write(s2, acc, r)
            out.append(('normal', s2, None))
        return out

    def inc(s):
        x = eng.read(s, it)
        eng.write(s, it, Iter(x.loc, simp(x.idx + 1), x.kind, x.aux))
        return [s]
    outs = eng.loop(e, st, 'accumulate', cond, body, inc)
    res = []
    for k, s, v in outs:
        s.env = env
        if k == 'normal':
            res.append((s, eng.read(s, acc)))
        else:
            raise Unsupported('accumulate exit')
    return res


# atomics
def at_load(eng, st, e, o, a):
    return [(st, eng.load(st, o, eng.elem_ty2(e['cls'])))]


def atomic_val_ty(eng, e):
    t = eng.ir.T(eng.strip(e['cls']))
    return t['args'][0]['t'] if t.get('args') else eng.strip(e['rt'])


def at_read(eng, st, e, o, a):
    v = eng.load(st, o)
    eng.type_facts(st, e['rt'], v)
    return [(st, v)]


def at_store(eng, st, e, o, a):
    v = val(eng, st, a[0])
    eng.write(st, o, v)
    return [(st, v)]


def at_arith(op, ret):
    def f(eng, st, e, o, a):
        ty = eng.strip(e['rt'])
        v = eng.load(st, o)
        eng.type_facts(st, ty, v)
        d = val(eng, st, a[0]) if a else eng.num(1, ty)
        post = ret == 'old'
        if e.get('oper') in ('++', '--'):
            d = eng.num(1, ty)
            post = bool(e['pt'])
        n = eng.arith(st, op, v, d, ty, e['line'])
        eng.write(st, o, n)
        return [(st, v if post else n)]
    return f


for c in ('std::atomic', 'std::__atomic_base'):
    M[c + '::load'] = at_read
    M[c + '::store'] = at_store
    M[c + '::operator='] = at_store
    M[c + '::fetch_add'] = at_arith('+', 'old')
    M[c + '::fetch_sub'] = at_arith('-', 'old')
    M[c + '::operator++'] = at_arith('+', 'new')
    M[c + '::operator--'] = at_arith('-', 'new')
    M[c + '::operator+='] = at_arith('+', 'new')
    M[c + '::operator-='] = at_arith('-', 'new')

    def at_conv(eng, st, e, o, a):
        return at_read(eng, st, e, o, a)

    def at_ctor(eng, st, e, ty, args):
        if not args:
            return [(st, eng.fresh(ty, 'atomic'))]
        return [(st, val(eng, st, args[0]))]
    M[c + '::(ctor)'] = at_ctor


def at_exchange(eng, st, e, o, a):
    v = eng.load(st, o)
    eng.write(st, o, val(eng, st, a[0]))
    return [(st, v)]


for _c in ('std::atomic', 'std::__atomic_base'):
    for _t in ('unsigned long', 'unsigned int', 'bool', 'int', 'long', 'unsigned char', 'unsigned short'):
        M[_c + '::operator ' + _t] = at_read
M['std::atomic::exchange'] = M['std::__atomic_base::exchange'] = at_exchange


# ------------------------------------------------- ignorable output / logging
def ignore(eng, st, e, o, a):
    eng.assumptions.add('logging and console output have no effect on the verified state')
    rt = eng.ir.T(e['rt'])
    if rt['k'] == 'void':
        return [(st, None)]
    if rt['k'] == 'ref':
        return [(st, eng.new_root(st, Opaque('ign')))]
    if rt['k'] in ('int', 'bool'):
        return [(st, eng.fresh(e['rt'], 'ign'))]
    if rt['k'] == 'ptr':
        return [(st, Ptr(eng.new_root(st, Opaque('ign'))))]
    if eng.shape(e['rt']) == 'str':
        return [(st, eng.fresh(e['rt'], 'str'))]
    if rt['k'] == 'rec':
        return [(st, Opaque('ign'))]
    raise Unsupported('ignore %s' % e['q'])


for n in ('std::operator<<', 'std::basic_ostream::operator<<', 'std::endl', 'sse::logger::logger',
          'spdlog::logger::info', 'spdlog::logger::debug', 'spdlog::logger::warn', 'spdlog::logger::error',
          'spdlog::logger::critical', 'spdlog::logger::trace', 'std::__shared_ptr_access::operator->', 'std::shared_ptr::operator->',
          'std::basic_ostream::flush', 'strerror'):
    M[n] = ignore


# strings


def cat(st, x, y):
    t = sconcat(x, y)
    st.assume(slen(t) == slen(x) + slen(y), slen(x) >= 0, slen(y) >= 0)
    return t


def strval(eng, st, x):
    v = val(eng, st, x)
    if isinstance(v, Opaque) and v.tag == 'cstr' and v.data is not None:
        return v.data
    if isz(v) and v.sort() == StrS:
        return v
    if isz(v) and v.sort() == IntS:
        return z3.Function('chr', IntS, StrS)(v)
    return None


@model('std::operator+')
def str_plus(eng, st, e, o, a):
    x, y = strval(eng, st, a[0]), strval(eng, st, a[1])
    if x is None or y is None:
        v = val(eng, st, a[0])
        if isinstance(v, Iter) or isinstance(val(eng, st, a[1]), Iter):
            return it_add(1)(eng, st, e, None, a)
        return [(st, z3.Const(eng.fname('str'), StrS))]
    return [(st, cat(st, x, y))]


@model('std::to_string')
def to_string(eng, st, e, o, a):
    x = val(eng, st, a[0])
    if isz(x) and x.sort() == IntS:
        return [(st, z3.Function('to_string', IntS, StrS)(x))]
    return [(st, z3.Const(eng.fname('str'), StrS))]


@model('std::basic_string::(ctor)')
def str_ctor(eng, st, e, ty, args):
    args = [a for a in args]
    if not args:
        return [(st, eng.strconst(''))]
    x = strval(eng, st, args[0])
    if x is not None:
        return [(st, x)]
    return [(st, z3.Const(eng.fname('str'), StrS))]


@model('std::basic_string::c_str', 'std::basic_string::data')
def str_cstr(eng, st, e, o, a):
    v = eng.read(st, o)
    return [(st, Opaque('cstr', v))]


@model('std::basic_string::size', 'std::basic_string::length')
def str_size(eng, st, e, o, a):
    v = eng.read(st, o)
    st.assume(slen(v) >= 0, slen(v) <= 2 ** 60)
    return [(st, slen(v))]


@model('std::basic_string::empty')
def str_empty(eng, st, e, o, a):
    v = eng.read(st, o)
    return [(st, v == eng.strconst(''))]


@model('std::basic_string::operator+=', 'std::basic_string::append')
def str_app(eng, st, e, o, a):
    v = eng.read(st, o)
    x = strval(eng, st, a[0])
    eng.write(st, o, cat(st, v, x) if x is not None and len(a) == 1 else z3.Const(eng.fname('str'), StrS))
    return [(st, o)]


@model('std::basic_string::operator=')
def str_asg(eng, st, e, o, a):
    x = strval(eng, st, a[0])
    eng.write(st, o, x if x is not None else z3.Const(eng.fname('str'), StrS))
    return [(st, o)]


@model('__builtin_expect')
def builtin_expect(eng, st, e, o, a):
    return [(st, val(eng, st, a[0]))]


# pairs
@model('std::make_pair')
def make_pair(eng, st, e, o, a):
    v = eng.fresh(e['rt'], 'pair')
    return [(st, Node('rec', v.ty, {'first': val(eng, st, a[0]), 'second': val(eng, st, a[1])}))]


@model('std::pair::(ctor)')
def pair_ctor(eng, st, e, ty, args):
    v = eng.fresh(ty, 'pair')
    if len(args) == 2:
        return [(st, Node('rec', v.ty, {'first': val(eng, st, args[0]), 'second': val(eng, st, args[1])}))]
    if len(args) == 1:
        x = val(eng, st, args[0])
        return [(st, Node('rec', v.ty, dict(x.ch)))]
    return [(st, default_val(eng, st, ty))]


@model('std::vector::insert')
def vec_insert(eng, st, e, o, a):
    v = eng.read(st, o)
    it = [val(eng, st, x) for x in a]
    for j in (1, 2):          # elements of an array
        if len(it) == 3 and isinstance(it[j], Ptr) and it[j].loc is not None and isinstance(eng.read(st, it[j].loc), Node) and eng.read(st, it[j].loc).kind == 'arr':
            it[j] = Iter(it[j].loc, it[j].off if it[j].off is not None else z3.IntVal(0))
    if len(it) != 3 or not all(isinstance(x, Iter) and x.kind == 'seq' for x in it) or not same(it[0].loc, o) or not same(it[1].loc, it[2].loc) or same(it[1].loc, o) or not isz(v['el']) or 'lo' in v.ch:
        raise Unsupported('vector insert')
    w = eng.read(st, it[1].loc)
    if w.kind == 'arr':
        w = Node('seq', w.ty, {'el': w['el'], 'n': z3.IntVal(eng.arr_n(w.ty))})
    p, f, k = it[0].idx, it[1].idx, simp(it[2].idx - it[1].idx)
    eng.oblige(st, z3.And(p >= 0, p <= v['n'], k >= 0, f >= slo(w), it[2].idx <= slo(w) + w['n']), 'the position and the range inserted are valid', e['line'])
    st.assume(v['n'] + k <= 2 ** 60)
    t = z3.Const(eng.fname('inserted'), v['el'].sort())
    i = z3.Int('i!ins')
    st.assume(z3.ForAll([i], Sel(t, i) == z3.If(i < p, Sel(v['el'], i), z3.If(i < p + k, Sel(w['el'], f + (i - p)), Sel(v['el'], i - k))), patterns=[Sel(t, i)]))
    seqhook(eng, st, 'insert', o, None)
    eng.write(st, o, v.with_(el=t, n=simp(v['n'] + k)), hook=False)
    return [(st, Iter(o, p))]


# sets / maps (finite maps as has/value arrays)
def map_key(eng, st, v, x):
    kt = eng.elem_ty(v.ty)
    k = eng.keyterm(val(eng, st, x), kt)
    return k


@model('std::set::insert', 'std::unordered_set::insert')
def set_insert(eng, st, e, o, a):
    v = eng.read(st, o)
    if len(a) != 1:
        raise Unsupported('set insert')
    k = map_key(eng, st, v, a[0])
    had = Sel(v['has'], k)
    seqhook(eng, st, 'set_insert', o, val(eng, st, a[0]))
    eng.write(st, o, v.with_(has=z3.Store(v['has'], k, TRUE), n=v['n'] + z3.If(had, 0, 1)), hook=False)
    return [(st, Opaque('set_insert_result', None))]


@model('std::set::count', 'std::unordered_set::count', 'std::map::count', 'std::unordered_map::count')
def set_count(eng, st, e, o, a):
    v = eng.read(st, o)
    k = map_key(eng, st, v, a[0])
    return [(st, z3.If(Sel(v['has'], k), z3.IntVal(1), z3.IntVal(0)))]


@model('std::set::size', 'std::unordered_set::size', 'std::map::size', 'std::unordered_map::size')
def set_size(eng, st, e, o, a):
    v = eng.read(st, o)
    st.assume(v['n'] >= 0, v['n'] <= 2 ** 60)
    return [(st, v['n'])]


@model('std::set::(ctor)', 'std::map::(ctor)', 'std::unordered_set::(ctor)', 'std::unordered_map::(ctor)')
def set_ctor(eng, st, e, ty, args):
    v = eng.fresh(ty, 'set')
    if args:
        raise Unsupported('set constructor')
    ks = v['has'].sort().domain()
    return [(st, v.with_(has=z3.K(ks, FALSE), n=z3.IntVal(0)))]


# exceptions
def exc_ctor(eng, st, e, ty, args):
    return [(st, Opaque('exc', eng.ir.T(ty).get('q')))]


for n in ('std::runtime_error', 'std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::exception', 'std::domain_error', 'std::length_error'):
    M[n + '::(ctor)'] = exc_ctor
M['std::exception::what'] = lambda eng, st, e, o, a: [(st, Opaque('cstr', z3.Const(eng.fname('what'), StrS)))]
M['std::runtime_error::what'] = M['std::exception::what']


# thread pool: a job runs to completion when it is enqueued
def pool_enqueue(eng, st, e, o, a):
    eng.assumptions.add('a job given to the thread pool runs to completion, one job after the other (sequential semantics of the pool)')
    f = eng.read(st, a[0]) if isinstance(a[0], Loc) else a[0]
    out = []
    for s, r in eng.call_value(st, f, a[1:], e):
        out.append((s, eng.fresh(e['rt'], 'future')))
    return out


POOL = {'ThreadPool::enqueue': pool_enqueue}
M['ThreadPool::global_thread_pool'] = ignore


def future_get(eng, st, e, o, a):
    rt = eng.ir.T(e['rt'])
    return [(st, None if rt['k'] == 'void' else eng.fresh(e['rt'], 'fut'))]


for n in ('get', 'wait'):
    M['std::future::' + n] = future_get
