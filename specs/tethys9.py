"""contracts: bucket encryption (P09)"""
import z3
from cppvc import *
from unit import Unit
from models import M, val, strval, ignore, simp
import tethys
from tethys import I, THIS, AI, PS, E_, encu, Finish
from bytesm import bytes_of, store_bytes, splice, asbytes
X = Engine.xorU
KS = z3.Function('keystream', StrS, StrS, IntS, IntS)     # nonce, key, position


def masked(eng, st, src, n, nonce, key):
    """the n bytes src xor keystream (src None: the keystream)"""
    t = z3.Const(eng.fname('stream'), StrS)
    k = z3.Int('k!cs')
    b = KS(nonce, key, k)
    st.assume(slen(t) == n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(b >= 0, b <= 255, sat(t, k) == (b if src is None else X(sat(src, k), b)))), patterns=[sat(t, k)]))
    return t


def stream(eng, st, e, o, a):
    a = [val(eng, st, x) for x in a]
    nonce, key = bytes_of(eng, st, a[2], I(8), e, 'nonce'), bytes_of(eng, st, a[3], I(32), e, 'key')
    store_bytes(eng, st, a[0], masked(eng, st, None, a[1], nonce, key), a[1], e)
    return [(st, I(0))]


def stream_xor(eng, st, e, o, a):
    a = [val(eng, st, x) for x in a]
    nonce, key = bytes_of(eng, st, a[3], I(8), e, 'nonce'), bytes_of(eng, st, a[4], I(32), e, 'key')
    src = bytes_of(eng, st, a[1], a[2], e, 'plaintext')
    store_bytes(eng, st, a[0], masked(eng, st, src, a[2], nonce, key), a[2], e)
    return [(st, I(0))]


def memzero(eng, st, e, o, a):
    return tethys.paint(eng, st, val(eng, st, a[0]), val(eng, st, a[1]), I(0), e, 'memzero')


def base_decode(eng, st, e, o, a):
    """the decoder of the plain buckets, recording what it is given"""
    x = [eng.read(st, y) if isinstance(y, Loc) else y for y in a]
    g = st.ghost
    for q, y in zip(('d_key', 'd_b0', 'd_i0', 'd_b1', 'd_i1'), x):
        g[q] = y
    g['d_calls'] = simp(g['d_calls'] + 1)
    r = eng.fresh(e['rt'], 'decoded')
    eng.type_facts(st, e['rt'], r)
    g['d_n'], g['d_el'] = r['n'], r['el']
    return [(st, r)]


def conf(eng):
    tethys.conf(eng)
    eng.overrides.update({'crypto_stream_chacha20': stream, 'crypto_stream_chacha20_xor': stream_xor, 'sodium_memzero': memzero})


def dconf(eng):
    conf(eng)
    eng.overrides[E_ + 'EncodeSeparateDecoder::decode_buckets'] = base_decode


class Encrypt(Finish):
    name = E_ + 'EncryptEncoder::finish_block_encoding'

    def requires(self, c):
        p = c.args[0]
        v = c.old(p.loc)
        return [('the block, written so far and the rest', z3.And(c.arg(2) >= 0, c.arg(3) >= 0, c.arg(2) + c.arg(3) <= PS, slen(v) == PS, p.off == 0))]

    def ensures(self, c):
        p = c.args[0]
        w, r = c.arg(2), c.arg(3)
        v, v0 = c.cur(p.loc), c.old(p.loc)
        key = c.old(c.thisloc)['encryption_key']
        k = z3.Int('k!n')
        plain = z3.If(z3.And(k >= w, k < w + r), I(0), sat(v0, k))
        return [('the block is full', c.res == PS - w), ('the block keeps its size', slen(v) == PS),
                ('every byte of the block, padding included, is encrypted under the key and the whole position', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < PS), sat(v, k) == X(plain, KS(encu(c.arg(1)), key, k))), patterns=[sat(v, k)])),
                ('the key does not change', c.cur(c.thisloc)['encryption_key'] == key)]


class Decrypt(FnContract):
    name = E_ + 'DecryptDecoder::decode_buckets'
    mod = None
    ghosts = ('d_key', 'd_b0', 'd_i0', 'd_b1', 'd_i1', 'd_n', 'd_el', 'd_calls')

    def setup(self, eng, st, this, args):
        g = st.ghost
        for q in ('d_key', 'd_b0', 'd_b1'):
            g[q] = z3.Const(q, StrS)
        for q in ('d_i0', 'd_i1', 'd_n'):
            g[q] = z3.Int(q)
        g['d_el'] = z3.Const('d_el', AI)
        g['d_calls'] = I(0)
        eng.dec_args, eng.dec_pre, eng.dec_this = args, st.copy(), this

    def loops(self, info):
        eng = info.eng
        c = Ctx(eng, info.st0, None, eng.dec_this, eng.dec_args)
        c.pre = eng.dec_pre
        key = c.old(THIS)['decryption_key']
        k = z3.Int('k!d')
        out = []
        ints = [q[0] for q in info.mods if q[0] != 'ghost' and not q[1] and isz(info.st0.roots[q[0]]) and info.st0.roots[q[0]].sort() == IntS]
        strs = [q[0] for q in info.mods if q[0] != 'ghost' and not q[1] and isz(info.st0.roots[q[0]]) and info.st0.roots[q[0]].sort() == StrS]
        for s in strs:
            m0 = info.st0.roots[s]
            out.append(('size %s' % s, lambda st, s=s: slen(st.roots[s]) == slen(m0)))
            for r in ints:
                for j, b in ((0, c.arg(1)), (1, c.arg(3))):
                    out.append(('decrypted %s %s %d' % (s, r, j), lambda st, s=s, r=r, b=b, m0=m0: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < PS), sat(st.roots[s], k) == z3.If(k < st.roots[r], X(sat(m0, k), sat(b, k)), sat(m0, k))), patterns=[sat(st.roots[s], k)])))
        return out

    def ensures(self, c):
        g = c.st.ghost
        key = c.old(c.thisloc)['decryption_key']
        k = z3.Int('k!d')
        r = c.res if isinstance(c.res, Node) else c.eng.read(c.st, c.res)
        clear = lambda d, b, i: z3.And(slen(d) == PS, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < PS), sat(d, k) == X(KS(encu(i), key, k), sat(b, k))), patterns=[sat(d, k)]))
        return [('the plain buckets are decoded once, for the key asked', z3.And(g['d_calls'] == 1, g['d_key'] == c.arg(0))),
                ('the first bucket is decrypted under its own position', clear(g['d_b0'], c.arg(1), c.arg(2))), ('the second bucket is decrypted under its own position', clear(g['d_b1'], c.arg(3), c.arg(4))),
                ('each with its position', z3.And(g['d_i0'] == c.arg(2), g['d_i1'] == c.arg(4))),
                ('what the decoder returns is the result', z3.And(r['n'] == g['d_n'], r['el'] == g['d_el'])), ('the key does not change', c.cur(c.thisloc)['decryption_key'] == key)]

    def ensures_throw(self, c, exc):
        return None


def inverse():
    """xor with the same keystream byte twice gives the byte back"""
    a, b = z3.BitVecs('a b', 8)
    i, j = z3.Ints('i j')
    e = lambda x: z3.Function('enc[u64]', IntS, StrS)(x)
    d = z3.Function('dec0[u64]', StrS, IntS)
    return [('the bytes decrypted are the bytes encrypted', [], b ^ (a ^ b) == a),
            ('different positions have different nonces', [d(e(i)) == i, d(e(j)) == j, i != j], e(i) != e(j))]


def p09_units():
    from graph import Lemma
    U = lambda con, callee=(), label=None, conf=conf, **f: Unit('tethys', con.name, con, {x.name: x for x in callee}, conf=conf, label=label, find=f)
    return [U(Finish(), (), 'EncodeSeparateEncoder::finish_block_encoding'), U(Encrypt(), (Finish(),), 'EncryptEncoder::finish_block_encoding'),
            U(Decrypt(), (), 'DecryptDecoder::decode_buckets', conf=dconf), Lemma('decryption inverts encryption', inverse)]
