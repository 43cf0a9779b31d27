"""Byte views of objects: memcpy, std::string and std::array contents.

A byte string is a term of sort Str with length slen.  An object of type T seen
as bytes is enc_T(value), and dec_T reads it back: dec_T(enc_T(x)) = x and
enc_T(dec_T(b)) = b for b of sizeof(T) bytes (trivially copyable types)."""
import z3
from cppvc import *
from models import M, model, val, strval, ignore, simp, vmap
I = z3.IntVal


def ctype(eng, ty):
    t = eng.ir.T(eng.strip(ty))
    if t['k'] == 'int':
        return ('i' if t['sg'] else 'u') + str(t['bits'])
    return t['s'].replace('const ', '').strip()


def leafterms(v):
    return [(p, x) for p, x in leaves(v) if isz(x)]


def enc(eng, st, ty, v):
    """object representation of value v of type ty"""
    ty = eng.strip(ty)
    if isz(v) and v.sort() == StrS:
        return v
    ls = leafterms(v)
    nm = 'enc[%s]' % ctype(eng, ty)
    f = z3.Function(nm, *([x.sort() for _, x in ls] + [StrS]))
    b = f(*[x for _, x in ls])
    st.assume(slen(b) == eng.sizeof(ty))
    for i, (p, x) in enumerate(ls):
        st.assume(z3.Function('dec%d[%s]' % (i, ctype(eng, ty)), StrS, x.sort())(b) == x)
    return b


def dec(eng, st, ty, b):
    """value of type ty with object representation b"""
    ty = eng.strip(ty)
    v = eng.fresh(ty, 'dec')
    if isz(v) and v.sort() == StrS:
        return b
    ls = leafterms(v)
    for i, (p, x) in enumerate(ls):
        v = setleaf(v, p, z3.Function('dec%d[%s]' % (i, ctype(eng, ty)), StrS, x.sort())(b))
    eng.type_facts(st, ty, v)
    f = z3.Function('enc[%s]' % ctype(eng, ty), *([x.sort() for _, x in ls] + [StrS]))
    st.assume(z3.Implies(slen(b) == eng.sizeof(ty), f(*[x for _, x in leafterms(v)]) == b))
    eng.assumptions.add('objects copied as bytes are trivially copyable and have no padding')
    return v


def mksub(eng, st, s, off, n):
    off, n = simp(off), simp(n)
    if z3.is_int_value(off) and off.as_long() == 0 and eng.quick(st, n == slen(s)):
        return s
    t = ssub(s, off, n)
    st.assume(z3.Implies(z3.And(off >= 0, n >= 0, off + n <= slen(s)), slen(t) == n))
    st.assume(z3.Implies(z3.And(off == 0, n == slen(s)), t == s))
    if eng.byte_elems:
        k = z3.Int('k!ss')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), sat(t, k) == sat(s, off + k)), patterns=[sat(t, k)]))
    return t


def splice(eng, st, v, off, b, n):
    """the bytes of v with n bytes b written at offset off"""
    t = z3.Const(eng.fname('spliced'), StrS)
    whole = z3.And(off == 0, n == slen(v))
    st.assume(slen(t) == slen(v), z3.Implies(whole, t == b), z3.Implies(n == 0, t == v))
    if eng.byte_elems:
        k, o, m = z3.Int('k!sp'), z3.Int('o!sp'), z3.Int('m!sp')
        st.assume(ssub(t, off, n) == b)
        st.assume(z3.ForAll([k], sat(t, k) == z3.If(z3.And(off <= k, k < off + n), sat(b, k - off), sat(v, k)), patterns=[sat(t, k)]))
        st.assume(z3.ForAll([o, m], z3.Implies(z3.And(m >= 0, z3.Or(o + m <= off, off + n <= o)), ssub(t, o, m) == ssub(v, o, m)), patterns=[ssub(t, o, m)]))
    return t


def asbytes(eng, st, p):
    """a pointer to elements of an array, as a byte pointer into the array"""
    if isinstance(p, Ptr) and p.loc is not None and p.pty is None and p.off is not None:
        v = eng.read(st, p.loc)
        if isinstance(v, Node) and v.kind == 'arr':
            return Ptr(p.loc, simp(p.off * eng.sizeof(eng.elem_ty(v.ty))), v.ty)
    return p


def bytes_of(eng, st, p, n, e, what='read'):
    """the n bytes at pointer p"""
    if isinstance(p, Loc):
        p = eng.load(st, p)
    p = asbytes(eng, st, p)
    if isinstance(p, Opaque) and p.tag == 'cstr' and p.data is not None:
        s, off, size = p.data, I(0), slen(p.data)
    elif isinstance(p, Ptr) and p.loc is not None:
        v = eng.load(st, p.loc)
        off = p.off if p.off is not None else I(0)
        if isz(v) and v.sort() == StrS:
            s, size = v, slen(v)
        else:
            if p.pty is None:
                raise Unsupported('bytes of %r' % (p,))
            size = I(eng.sizeof(p.pty))
            s = enc(eng, st, p.pty, v)
    else:
        raise Unsupported('bytes of %r' % (p,))
    if eng.check_bounds:
        eng.oblige(st, z3.And(off >= 0, n >= 0, off + n <= size), '%s stays inside the object' % what, e.get('line', 0))
    return mksub(eng, st, s, off, n)


def store_bytes(eng, st, p, b, n, e):
    """write n bytes b at pointer p"""
    if isinstance(p, Loc):
        p = eng.load(st, p)
    p = asbytes(eng, st, p)
    if not isinstance(p, Ptr) or p.loc is None:
        raise Unsupported('store through %r' % (p,))
    v = eng.read(st, p.loc)
    off = p.off if p.off is not None else I(0)
    isstr = isz(v) and v.sort() == StrS
    if not isstr and p.pty is None:
        raise Unsupported('store through %r' % (p,))
    size = slen(v) if isstr else I(eng.sizeof(p.pty))
    if eng.check_bounds:
        eng.oblige(st, z3.And(off >= 0, n >= 0, off + n <= size), 'write stays inside the object', e.get('line', 0))
    whole = z3.And(off == 0, n == size)
    if eng.quick(st, whole):
        eng.write(st, p.loc, b if isstr else dec(eng, st, p.pty, b))
    elif isstr:
        eng.write(st, p.loc, splice(eng, st, v, off, b, n))
    else:
        d = dec(eng, st, p.pty, b)
        fr = eng.fresh(p.pty, 'partial')
        eng.type_facts(st, p.pty, fr)
        for (_, x), (_, y) in zip(leafterms(fr), leafterms(d)):
            st.assume(z3.Implies(whole, x == y))
        eng.write(st, p.loc, fr)


def memcpy(eng, st, e, o, a):
    n = val(eng, st, a[2])
    b = bytes_of(eng, st, val(eng, st, a[1]), n, e, 'memcpy source')
    store_bytes(eng, st, val(eng, st, a[0]), b, n, e)
    return [(st, a[0])]


for n in ('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove'):
    M[n] = memcpy


def arr_data(eng, st, e, o, a):
    return [(st, Ptr(o, I(0)))]


M['std::array::data'] = arr_data


@model('std::basic_string::begin', 'std::basic_string::cbegin')
def str_begin(eng, st, e, o, a):
    return [(st, Iter(o, I(0)))]


@model('std::basic_string::end', 'std::basic_string::cend')
def str_end(eng, st, e, o, a):
    return [(st, Iter(o, slen(eng.read(st, o))))]

