"""cppvc: verification-condition generator for the C++ AST dumped by cxx2ir.

Forward symbolic execution, function by function, of the extracted AST of
/repo.  Loops are cut at invariants, calls to functions under contract use the
contract, other repository calls are inlined, library calls use models.
"""
import json, os, re, sys, time, itertools, select, signal, pickle, hashlib
import z3

IntS, BoolS = z3.IntSort(), z3.BoolSort()
StrS = z3.DeclareSort('Str')       # std::string values
BytesS = StrS                      # byte arrays: same sort
OpaqS = z3.DeclareSort('Opq')
slen = z3.Function('slen', StrS, IntS)
blen = slen
sconcat = z3.Function('sconcat', StrS, StrS, StrS)
ssub = z3.Function('ssub', StrS, IntS, IntS, StrS)     # ssub(s, off, n)
sat = z3.Function('sat', StrS, IntS, IntS)             # byte at index
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    pass


_nq = {}


def normq(q):
    r = _nq.get(q)
    if r is None:
        out, depth, i = [], 0, 0
        base = q.replace('__cxx11::', '').replace('std::__1::', 'std::')
        while i < len(base):
            if depth == 0 and base.startswith('operator', i):
                j = i + 8
                k = j
                while k < len(base) and base[k] in '<>=-!+*/%^&|~,[]()':
                    k += 1
                # template arguments of an operator name follow its symbol
                sym = base[j:k]
                if sym.startswith('<') and not (sym[:2] in ('<<', '<=') or sym == '<' or sym.startswith('<<')):
                    sym = '<'
                if len(sym) > 1 and sym.endswith('<') and sym != '<<':
                    sym = sym[:-1]
                out.append('operator' + sym)
                i = j + len(sym)
                continue
            ch = base[i]
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif depth == 0:
                out.append(ch)
            i += 1
        r = ''.join(out)
        _nq[q] = r
    return r


# ---------------------------------------------------------------- AST / IR
class IR:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.records = d['types'], d['records']
        self.funcs, self.globals = d['funcs'], d['globals']
        self.byq = {}
        for k, f in self.funcs.items():
            self.byq.setdefault(normq(f['q']), []).append(f)

    def T(self, i):
        return self.types[i]

    def find(self, q, nparams=None, const=None, pred=None):
        r = [f for f in self.byq.get(q, [])
             if (nparams is None or len(f['params']) == nparams)
             and (const is None or f.get('const', 0) == const)
             and (pred is None or pred(f))]
        if not r:
            raise Unsupported('function %s not found' % q)
        return r[0]


# ------------------------------------------------------------------ values
class Node:
    """structured value; children are z3 leaves, Nodes or python leaves"""
    __slots__ = ('kind', 'ty', 'ch')

    def __init__(self, kind, ty, ch):
        self.kind, self.ty, self.ch = kind, ty, ch

    def __getitem__(self, k):
        return self.ch[k]

    def with_(self, **kw):
        c = dict(self.ch)
        c.update(kw)
        return Node(self.kind, self.ty, c)

    def __repr__(self):
        return 'Node(%s,%s)' % (self.kind, self.ch)


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def f(self, *names):
        return Loc(self.root, self.path + tuple(('f', n) for n in names))

    def e(self, i):
        return Loc(self.root, self.path + (('e', i),))

    def b(self, i):      # byte i of a byte string
        return Loc(self.root, self.path + (('b', i),))

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)


class Ptr:      # pointer to a location; loc None = nullptr
    __slots__ = ('loc', 'off', 'pty')

    def __init__(self, loc, off=None, pty=None):
        # off: element offset; pty set: byte pointer into an object of type pty
        self.loc, self.off, self.pty = loc, off, pty

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.loc, self.off)


class Iter:     # iterator into a sequence (physical index) or map
    __slots__ = ('loc', 'idx', 'kind', 'aux')

    def __init__(self, loc, idx, kind='seq', aux=None):
        self.loc, self.idx, self.kind, self.aux = loc, idx, kind, aux

    def __repr__(self):
        return 'Iter(%s,%s,%s)' % (self.loc, self.idx, self.kind)


class Closure:
    __slots__ = ('f', 'caps', 'this', 'node')

    def __init__(self, f, caps, this, node=None):
        self.f, self.caps, self.this, self.node = f, caps, this, node


class Opaque:
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


PY = (Ptr, Iter, Closure, Opaque, Loc)


def isz(x):
    return isinstance(x, z3.ExprRef)


def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, Node) and isinstance(b, Node):
        return a.kind == b.kind and a.ch.keys() == b.ch.keys() and all(
            same(a.ch[k], b.ch[k]) for k in a.ch)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same(a.loc, b.loc) and same(a.off, b.off)
    if isinstance(a, Loc) and isinstance(b, Loc):
        return a.root == b.root and len(a.path) == len(b.path) and all(
            p[0] == q[0] and (p[1] == q[1] if p[0] == 'f' else same(p[1], q[1]))
            for p, q in zip(a.path, b.path))
    if isinstance(a, Iter) and isinstance(b, Iter):
        return same(a.loc, b.loc) and same(a.idx, b.idx) and a.kind == b.kind
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.tag == b.tag and a.data is b.data
    if isinstance(a, Closure) and isinstance(b, Closure):
        return a.f == b.f and a.caps is b.caps
    if a is None or b is None:
        return a is b
    return False


def Sel(a, i):
    """select with cheap read-over-write"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        break
    if z3.is_K(a):
        return a.arg(0)
    return z3.Select(a, i)


def selN(a, idxs):
    for i in idxs:
        a = Sel(a, i)
    return a


def stoN(a, idxs, v):
    if not idxs:
        return v
    return z3.Store(a, idxs[0], stoN(Sel(a, idxs[0]), idxs[1:], v))


def vmap(v, f):
    if isinstance(v, Node):
        return Node(v.kind, v.ty, {k: vmap(c, f) for k, c in v.ch.items()})
    if isz(v):
        return f(v)
    return v


def vsel(v, idxs):
    if not idxs:
        return v
    return vmap(v, lambda a: selN(a, idxs))


def vstore(old, idxs, new):
    """old lifted by idxs; new unlifted (or python leaf)"""
    if isinstance(old, Node):
        if not isinstance(new, Node) or new.ch.keys() != old.ch.keys():
            raise Unsupported('shape mismatch in store %s %s' % (old, new))
        return Node(old.kind, old.ty,
                    {k: vstore(old.ch[k], idxs, new.ch[k]) for k in old.ch})
    if isz(old):
        if not isz(new):
            raise Unsupported('storing python value into term')
        if not idxs:
            return new
        if selN(old, idxs).eq(new):
            return old
        return stoN(old, idxs, new)
    if idxs and not isinstance(old, Opaque):
        raise Unsupported('python leaf in container')
    return new if not idxs else old


def leaves(v, pre=()):
    if isinstance(v, Node):
        for k, c in v.ch.items():
            yield from leaves(c, pre + (k,))
    else:
        yield pre, v


def getleaf(v, path):
    for k in path:
        v = v.ch[k]
    return v


def setleaf(v, path, x):
    if not path:
        return x
    c = dict(v.ch)
    c[path[0]] = setleaf(c[path[0]], path[1:], x)
    return Node(v.kind, v.ty, c)


class State:
    __slots__ = ('env', 'roots', 'pc', 'ghost', 'trace', 'nq')

    def __init__(self):
        self.env, self.roots, self.pc, self.ghost = {}, {}, [], {}
        self.trace = ()

    def copy(self):
        s = State()
        s.env = self.env          # env copied on declare
        s.roots = dict(self.roots)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s

    def assume(self, *fs):
        for f in fs:
            if f is None or z3.is_true(f):
                continue
            if z3.is_and(f):
                self.assume(*f.children())
                continue
            i = f.get_id()
            if any(p.get_id() == i for p in self.pc[-60:]):
                continue
            self.pc.append(f)
        return self


_hasq = {}


def has_quant(e):
    i = e.get_id()
    if i in _hasq:
        return _hasq[i][1]
    if z3.is_quantifier(e):
        r = True
    elif z3.is_app(e):
        r = any(has_quant(c) for c in e.children())
    else:
        r = False
    _hasq[i] = (e, r)
    return r


# ------------------------------------------------------------- discharging
class Discharger:
    """validity checks in forked children (z3, then cvc5)"""

    def __init__(self, jobs=8):
        self.jobs = jobs
        self.solver_time = 0.0
        self.by_backend = {}
        self.cache = {}

    restarts = ((0, 1.0),)   # (seed, part of the time)

    def solve_one(self, pc, goal, timeout, want_model=False, hard=False):
        t0 = time.time()
        neg = z3.Not(goal)
        r, be = 'unknown', 'z3'
        for seed, part in self.restarts:
            s = z3.Solver()
            s.set('timeout', int(timeout * part * 1000))
            s.set('smt.mbqi', False)
            if seed:
                s.set('smt.random_seed', seed)
            for f in pc:
                s.add(f)
            s.add(neg)
            c = s.check()
            if c == z3.unsat:
                return ('valid', 'z3', time.time() - t0, '')
            if c == z3.sat:
                # without mbqi, 'sat' is only trustworthy without quantifiers
                m = ''
                try:
                    m = str(s.model())[:4000]
                except Exception:
                    pass
                if not any(has_quant(f) for f in pc) and not has_quant(neg):
                    return ('invalid', 'z3', time.time() - t0, m)
                r = 'unknown'
        if hard:
            for seed, extra in ((7, {}), (23, {'smt.arith.solver': 2})):
                s = z3.Solver()
                s.set('timeout', int(timeout * 1000))
                s.set('smt.mbqi', False)
                s.set('smt.random_seed', seed)
                for k, v in extra.items():
                    s.set(k, v)
                s.add(*pc)
                s.add(neg)
                if s.check() == z3.unsat:
                    return ('valid', 'z3', time.time() - t0, '')
            x = Discharger.cvc5(pc, neg, timeout)
            if x == 'unsat':
                return ('valid', 'cvc5', time.time() - t0, '')
        return (r, be, time.time() - t0, '')

    @staticmethod
    def cvc5(pc, neg, timeout):
        import subprocess
        s = z3.Solver()
        s.add(*pc)
        s.add(neg)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '-'],
                               input=txt, capture_output=True, text=True, timeout=timeout + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        except Exception:
            return 'unknown'

    def batch(self, queries, timeout=10, hard=False):
        """queries: list of (pc, goal); returns list of (status, backend, t, model)"""
        n = len(queries)
        res = [None] * n
        todo = []
        for i, (pc, goal) in enumerate(queries):
            if z3.is_true(goal):
                res[i] = ('valid', 'trivial', 0.0, '')
                continue
            if any(f.eq(goal) for f in pc):
                res[i] = ('valid', 'trivial', 0.0, '')
                continue
            todo.append(i)
        if not todo:
            return res
        nj = min(self.jobs, len(todo))
        nexti = iter(todo)
        procs = {}

        def spawn():
            try:
                i = next(nexti)
            except StopIteration:
                return False
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    signal.alarm(int(timeout * (6 if hard else 2) + 20))
                    out = self.solve_one(queries[i][0], queries[i][1], timeout, hard=hard)
                    os.write(w, pickle.dumps(out)[:60000])
                except BaseException as ex:
                    try:
                        os.write(w, pickle.dumps(('unknown', 'z3', 0.0, repr(ex))))
                    except BaseException:
                        pass
                os._exit(0)
            os.close(w)
            procs[r] = (pid, i, time.time())
            return True
        for _ in range(nj):
            spawn()
        bufs = {}
        while procs:
            rd, _, _ = select.select(list(procs), [], [], 1.0)
            for r in rd:
                b = os.read(r, 65536)
                if b:
                    bufs[r] = bufs.get(r, b'') + b
                    continue
                pid, i, _ = procs.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    res[i] = pickle.loads(bufs.pop(r, b''))
                except Exception:
                    res[i] = ('unknown', 'z3', timeout, 'worker died')
                spawn()
        for i in todo:
            self.solver_time += res[i][2]
        return res


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'status', 'backend', 't', 'model', 'line', 'fn', 'inv')

    def __init__(self, name, pc, goal, line=0, fn=''):
        self.name, self.pc, self.goal, self.line, self.fn = name, pc, goal, line, fn
        self.status, self.backend, self.t, self.model = None, None, 0, ''
        self.inv = None


# ------------------------------------------------------------------ engine
class Contract:
    """Specification of one function.  Override what is needed."""
    name = ''
    modifies = ()        # leaf-path prefixes of *this that may change

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def ensures_throw(self, c):
        return None       # None: throwing is a violation

    def setup(self, c):
        pass

    def ghosts_modified(self):
        return ()


class Ctx:
    """what a contract sees: pre-state, post-state, this, parameters, result"""

    def __init__(self, eng, pre, st, this, args, res=None, fn=None):
        self.eng, self.pre, self.st = eng, pre, st
        self.thisloc, self.args, self.res, self.fn = this, args, res, fn
        self.caller = None

    def old(self, loc=None):
        return self.eng.read(self.pre, loc or self.thisloc)

    def cur(self, loc=None):
        return self.eng.read(self.st, loc or self.thisloc)

    def arg(self, i, st=None):
        a = self.args[i]
        if isinstance(a, Loc):
            return self.eng.read(st or self.pre, a)
        return a


def hintname(n):
    """name of a candidate without what editing other lines changes"""
    return re.sub(r'line \d+|!\d+|(?<=__begin)\d+|(?<=__end)\d+|(?<=__range)\d+', '', n)


class LoopInfo:
    def __init__(self, eng, st0, fnstack, line, kind, vars_, node):
        self.eng, self.st0, self.line, self.kind = eng, st0, line, kind
        self.fn = fnstack[-1] if fnstack else None
        self.fnstack = list(fnstack)
        self.vars = vars_       # name -> (varid, typeid, loc)
        self.mods = set()
        self.node = node


def bvbyte(v, i):
    """the number of a byte of an integer object (little-endian)"""
    i = z3.simplify(i)
    i = i.as_long() if z3.is_int_value(i) or z3.is_bv_value(i) else -1
    if not 0 <= i < v.size() // 8:
        raise Unsupported('byte of an integer at an unknown position')
    return i


class Engine:
    def __init__(self, ir, models, discharger=None, verbose=False):
        self.ir = ir
        self.models = models           # qname -> model
        self.contracts = {}            # qname -> Contract (called modularly)
        self.hooks = {}                # (record q, field) -> fn
        self.seqhooks = []
        self.loop_specs = []           # fn(LoopInfo) -> [(name, fn(st))]
        self.dis = discharger or Discharger()
        self.cnt = itertools.count()
        self.obls = []
        self.sinks = []
        self.fnstack = []
        self.probing = 0
        self.loop_mods = {}
        self.loop_dead = {}
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.bv = False
        self.verbose = verbose
        self.hints = None
        self.cur_lkey = ''
        self.loop_keys = {}
        self.inv_obls = []
        self.feas_cache = {}
        self.dropped = []
        self.maxdepth = 24
        self.tconsts = {}
        self.check_bounds = True
        self.overrides = {}            # qname -> model overriding repo functions
        self.to_short = 8
        self.dead_paths = 0

    # ------------------------------------------------------------- naming
    def fname(self, base):
        return '%s!%d' % (base, next(self.cnt))

    def arrsort(self, dims, s):
        for d in reversed(dims):
            s = z3.ArraySort(d, s)
        return s

    # -------------------------------------------------------------- types
    def strip(self, ty):
        t = self.ir.T(ty)
        while t['k'] == 'ref':
            ty = t['to']
            t = self.ir.T(ty)
        return ty

    SEQ = ('std::vector', 'std::deque', 'std::list', 'std::initializer_list')

    def shape(self, ty):
        t = self.ir.T(ty)
        k = t['k']
        if k != 'rec':
            if k == 'float':
                return 'float'
            return k
        q = t['q'].replace('__cxx11::', '').replace('__1::', '')
        if q in self.special_types:
            return self.special_types[q]
        if q in self.SEQ:
            return 'seq'
        if q == 'std::array':
            return 'arr'
        if q == 'std::basic_string':
            return 'str'
        if q in ('std::map', 'std::unordered_map'):
            return 'map'
        if q in ('std::set', 'std::unordered_set'):
            return 'set'
        if q in ('std::atomic', 'std::__atomic_base'):
            return 'atomic'
        if q == 'std::unique_ptr' or q == 'std::shared_ptr':
            return 'uptr'
        if q == 'std::function':
            return 'fun'
        if t.get('lambda'):
            return 'lambda'
        if q.startswith('__gnu_cxx::__normal_iterator') or 'iterator' in q.lower() and q.startswith('std::'):
            return 'iter'
        if q in ('std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator'):
            return 'iter'
        if t['name'] in self.ir.records and q not in self.opaque_types:
            return 'rec'
        return 'opaque'

    special_types = {}
    special_sorts = {}
    special_fresh = {}
    opaque_types = set()

    def elem_ty(self, ty):
        t = self.ir.T(ty)
        if t['k'] == 'arr':
            return t['elem']
        return t['args'][0]['t']

    def is_byte(self, ty):
        t = self.ir.T(ty)
        return t['k'] == 'int' and t['bits'] == 8

    def arr_n(self, ty):
        t = self.ir.T(ty)
        if t['k'] == 'arr':
            return t['n']
        return int(t['args'][1]['v'])

    def leafsort(self, ty):
        ty = self.strip(ty)
        s = self.shape(ty)
        if s == 'int':
            return z3.BitVecSort(self.ir.T(ty)['bits']) if self.bv else IntS
        if s == 'bool':
            return BoolS
        if s == 'str':
            return StrS
        if s in ('arr',) and self.is_byte(self.elem_ty(ty)) and not self.bv:
            return BytesS
        if s == 'atomic':
            return self.leafsort(self.elem_ty(ty))
        if s == 'bytesval':
            return BytesS
        if s == 'float':
            return z3.RealSort()
        return self.special_sorts.get(s)

    def fresh(self, ty, name, dims=()):
        ty = self.strip(ty)
        s = self.shape(ty)
        if s in self.special_fresh:
            return self.special_fresh[s](self, ty, name, dims)
        ls = self.leafsort(ty)
        if ls is not None:
            return z3.Const(self.fname(name), self.arrsort(dims, ls))
        if s == 'seq':
            el = self.fresh(self.elem_ty(ty), name + '.e', dims + (IntS,))
            ch = {'n': z3.Const(self.fname(name + '.n'), self.arrsort(dims, IntS)), 'el': el}
            if self.ir.T(ty)['q'].endswith('deque'):
                ch['lo'] = z3.Const(self.fname(name + '.lo'), self.arrsort(dims, IntS))
            return Node('seq', ty, ch)
        if s == 'arr':
            el = self.fresh(self.elem_ty(ty), name + '.e', dims + (IntS,))
            return Node('arr', ty, {'el': el})
        if s in ('map', 'set'):
            ks = self.keysort(self.elem_ty(ty))
            ch = {'has': z3.Const(self.fname(name + '.has'), self.arrsort(dims + (ks,), BoolS)),
                  'n': z3.Const(self.fname(name + '.n'), self.arrsort(dims, IntS))}
            if s == 'map':
                ch['el'] = self.fresh(self.ir.T(ty)['args'][1]['t'], name + '.v', dims + (ks,))
            return Node(s, ty, ch)
        if s == 'rec':
            r = self.ir.records[self.ir.T(ty)['name']]
            ch = {}
            for f in r['fields']:
                if f['n']:
                    ch[f['n']] = self.fresh(f['t'], name + '.' + f['n'], dims)
            for b in r['bases']:
                bv = self.fresh(b, name, dims)
                if isinstance(bv, Node) and bv.kind == 'rec':
                    for k, v in bv.ch.items():
                        ch.setdefault(k, v)
            return Node('rec', ty, ch)
        if s in ('ptr', 'uptr', 'nullptr'):
            return Opaque('unkptr', ty)
        return Opaque(s, None)

    def keysort(self, ty):
        ls = self.leafsort(ty)
        if ls is not None:
            return ls
        ty = self.strip(ty)
        key = 'K_' + self.ir.T(ty).get('name', '?')
        if key not in self.tconsts:
            proto = self.fresh(ty, 'k')
            ls = [(p, l) for p, l in leaves(proto) if isz(l)]
            d = z3.Datatype('Key%d' % len(self.tconsts))
            d.declare('mk', *[('.'.join(p) + '_%d' % len(self.tconsts), l.sort()) for p, l in ls])
            self.tconsts[key] = (d.create(), [p for p, _ in ls])
        return self.tconsts[key][0]

    def keyterm(self, v, ty):
        if isz(v):
            return v
        ty = self.strip(ty)
        self.keysort(ty)
        srt, ps = self.tconsts['K_' + self.ir.T(ty).get('name', '?')]
        return srt.mk(*[getleaf(v, p) for p in ps])

    def unkey(self, k, ty):
        ls = self.leafsort(ty)
        if ls is not None:
            return k
        ty = self.strip(ty)
        proto = self.fresh(ty, 'uk')
        srt, ps = self.tconsts['K_' + self.ir.T(ty).get('name', '?')]
        for i, p in enumerate(ps):
            proto = setleaf(proto, p, srt.accessor(0, i)(k))
        return proto

    def zero(self, ty):
        """value-initialised"""
        ty = self.strip(ty)
        v = self.fresh(ty, 'z')

        def zr(a):
            s = a.sort()
            if s == IntS:
                return z3.IntVal(0)
            if s == BoolS:
                return FALSE
            if isinstance(s, z3.BitVecSortRef):
                return z3.BitVecVal(0, s.size())
            if isinstance(s, z3.ArraySortRef):
                d, r = s.domain(), s.range()
                return z3.K(d, zr(z3.Const('z', r)))
            if s == BytesS and self.shape(ty) == 'str':
                return self.strconst('')
            if s == BytesS:
                z = z3.Const('zero_bytes_%d' % (self.arr_n(ty) if self.shape(ty) == 'arr' else 0), BytesS)
                return z
            return a
        if self.shape(ty) in ('ptr', 'uptr'):
            return Ptr(None)
        return vmap(v, zr)

    # ------------------------------------------------------- state access
    def read(self, st, loc):
        v = st.roots[loc.root]
        idxs = []
        for p in loc.path:
            if p[0] == 'f':
                if not isinstance(v, Node) or p[1] not in v.ch:
                    raise Unsupported('field %s of %r' % (p[1], v))
                v = v.ch[p[1]]
            elif p[0] == 'b':
                v = vsel(v, idxs)
                if isz(v) and z3.is_bv(v):
                    k = bvbyte(v, p[1])
                    return z3.Extract(8 * k + 7, 8 * k, v)
                if not (isz(v) and v.sort() == StrS):
                    raise Unsupported('byte of %r' % (v,))
                return sat(v, p[1])
            else:
                if not isinstance(v, Node) or 'el' not in v.ch:
                    raise Unsupported('element of %r' % (v,))
                v = v.ch['el']
                idxs.append(p[1])
        return vsel(v, idxs)

    def write_byte(self, st, loc, i, x):
        v = self.read(st, loc)
        if isz(v) and z3.is_bv(v):
            k, n = bvbyte(v, i), v.size()
            ps = ([z3.Extract(n - 1, 8 * k + 8, v)] if 8 * k + 8 < n else []) + [x] + ([z3.Extract(8 * k - 1, 0, v)] if k else [])
            return self.write(st, loc, z3.Concat(*ps) if len(ps) > 1 else ps[0])
        t = z3.Const(self.fname('bytes'), StrS)
        k, o, m = z3.Int('k!wb'), z3.Int('o!wb'), z3.Int('m!wb')
        st.assume(slen(t) == slen(v), z3.ForAll([k], sat(t, k) == z3.If(k == i, x, sat(v, k)), patterns=[sat(t, k)]))
        st.assume(z3.ForAll([o, m], z3.Implies(z3.And(m >= 0, z3.Or(o + m <= i, i < o)), ssub(t, o, m) == ssub(v, o, m)), patterns=[ssub(t, o, m)]))
        self.write(st, loc, t)

    def write(self, st, loc, new, hook=True):
        if loc.path and loc.path[-1][0] == 'b':
            return self.write_byte(st, Loc(loc.root, loc.path[:-1]), loc.path[-1][1], new)
        if hook and not self.probing_hooks_off:
            if loc.path and loc.path[-1][0] == 'f':
                h = self.hooks.get(loc.path[-1][1])
                if h:
                    for fn in h:
                        fn(self, st, loc, new)

        def rec(v, path, idxs):
            if not path:
                return vstore(v, idxs, new)
            p = path[0]
            c = dict(v.ch)
            if p[0] == 'f':
                if p[1] not in c:
                    raise Unsupported('field %s' % p[1])
                c[p[1]] = rec(c[p[1]], path[1:], idxs)
            else:
                c['el'] = rec(c['el'], path[1:], idxs + [p[1]])
            return Node(v.kind, v.ty, c)
        r = st.roots[loc.root]
        if not loc.path:
            if isinstance(r, Node) and isinstance(new, Node):
                st.roots[loc.root] = vstore(r, [], new)
            else:
                st.roots[loc.root] = new
        else:
            st.roots[loc.root] = rec(r, list(loc.path), [])

    probing_hooks_off = False

    def new_root(self, st, val, name='tmp'):
        r = self.fname(name)
        st.roots[r] = val
        return Loc(r)

    def type_facts(self, st, ty, v):
        """range facts of a value just read or created"""
        ty = self.strip(ty)
        s = self.shape(ty)
        if s == 'int' and not self.bv and isz(v) and v.sort() == IntS:
            if z3.is_int_value(v):
                return
            lo, hi = self.irange(ty)
            st.assume(v >= lo, v <= hi)
        elif s == 'atomic':
            self.type_facts(st, self.elem_ty(ty), v)
        elif s == 'arr' and isz(v) and v.sort() == StrS:
            st.assume(slen(v) == self.arr_n(ty))
        elif s == 'str' and isz(v) and v.sort() == StrS:
            st.assume(slen(v) >= 0, slen(v) <= 2 ** 60)
        elif s == 'seq' and isinstance(v, Node) and v['n'].sort() == IntS:
            if not z3.is_int_value(v['n']):
                st.assume(v['n'] >= 0, v['n'] <= 2 ** 60)
        elif s in ('map', 'set') and isinstance(v, Node) and v['n'].sort() == IntS:
            st.assume(v['n'] >= 0, v['n'] <= 2 ** 60)
        elif s == 'rec' and isinstance(v, Node):
            rr = self.ir.records[self.ir.T(ty)['name']]
            for f in rr['fields']:
                if f['n'] in v.ch:
                    x = v.ch[f['n']]
                    if 'bits' in f and isz(x) and x.sort() == IntS:
                        st.assume(x >= 0, x < 2 ** f['bits'])
                    else:
                        self.type_facts(st, f['t'], x)

    def irange(self, ty):
        t = self.ir.T(self.strip(ty))
        if t['k'] == 'bool':
            return 0, 1
        if t['sg']:
            return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
        return 0, (1 << t['bits']) - 1

    # ------------------------------------------------------------- solving
    def quick(self, st, f, timeout=400):
        """is f implied by the quantifier-free path facts?"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = (f.get_id(), tuple(p.get_id() for p in st.pc))
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        s = z3.SimpleSolver()
        s.set('timeout', timeout)
        for p in st.pc:
            if not has_quant(p):
                s.add(p)
        s.add(z3.Not(f))
        r = s.check() == z3.unsat
        self.feas_cache[key] = (r, f, list(st.pc))   # keeps the ids alive
        return r

    def feasible(self, st, f):
        return not self.quick(st, z3.Not(f))

    def oblige(self, st, goal, name, line=0):
        if self.probing:
            return
        fn = self.fnstack[0]['q'] if self.fnstack else ''
        if z3.is_and(goal):
            for i, g in enumerate(goal.children()):
                self.oblige(st, g, name if i == 0 else '%s.%d' % (name, i), line)
            return
        self.obls.append(Obl(name, list(st.pc), goal, line, fn))

    def tlist(self, f):
        return f if isinstance(f, (list, tuple)) else [f]

    # ------------------------------------------------------------ integers
    def wrap(self, st, v, ty):
        if self.bv:
            return v
        lo, hi = self.irange(ty)
        v = z3.simplify(v) if not z3.is_int_value(v) else v
        if z3.is_int_value(v):
            x = v.as_long()
            m = hi - lo + 1
            return z3.IntVal((x - lo) % m + lo)
        if self.quick(st, z3.And(v >= lo, v <= hi)):
            return v
        m = hi - lo + 1
        if self.quick(st, z3.And(v >= lo - m, v <= hi)):
            return self.named(st, z3.If(v < lo, v + m, v), 'w')
        if self.quick(st, z3.And(v >= lo, v <= hi + m)):
            return self.named(st, z3.If(v > hi, v - m, v), 'w')
        if lo == 0:
            return v % m
        return (v - lo) % m + lo

    def named(self, st, t, nm='t'):
        c = z3.Const(self.fname(nm), t.sort())
        st.assume(c == t)
        return c

    def convert(self, st, v, fty, tty):
        f, t = self.ir.T(self.strip(fty)), self.ir.T(self.strip(tty))
        if f['k'] == 'bool' and t['k'] == 'bool':
            return v
        if t['k'] == 'bool':
            if self.bv:
                return v != 0
            return v != 0
        if f['k'] == 'bool':
            if self.bv:
                return z3.If(v, z3.BitVecVal(1, t['bits']), z3.BitVecVal(0, t['bits']))
            if z3.is_true(v):
                return z3.IntVal(1)
            if z3.is_false(v):
                return z3.IntVal(0)
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if self.bv:
            if t['bits'] == f['bits']:
                return v
            if t['bits'] < f['bits']:
                return z3.Extract(t['bits'] - 1, 0, v)
            return z3.SignExt(t['bits'] - f['bits'], v) if f['sg'] else z3.ZeroExt(t['bits'] - f['bits'], v)
        lo1, hi1 = self.irange(fty)
        lo2, hi2 = self.irange(tty)
        if lo1 >= lo2 and hi1 <= hi2:
            return v
        return self.wrap(st, v, tty)

    def num(self, v, ty):
        t = self.ir.T(self.strip(ty))
        if t['k'] == 'bool':
            return z3.BoolVal(bool(v))
        if self.bv:
            return z3.BitVecVal(v, t['bits'])
        return z3.IntVal(v)

    divU = z3.Function('divU', IntS, IntS, IntS)
    modU = z3.Function('modU', IntS, IntS, IntS)
    mulU = z3.Function('mulU', IntS, IntS, IntS)
    xorU = z3.Function('xorU', IntS, IntS, IntS)
    andU = z3.Function('andU', IntS, IntS, IntS)
    orU = z3.Function('orU', IntS, IntS, IntS)

    def arith(self, st, op, a, b, ty, line):
        t = self.ir.T(self.strip(ty))
        if t['k'] == 'float':
            return self.farith(op, a, b)
        if self.bv:
            sg = t.get('sg', 0)
            if op in ('<<', '>>') and a.size() != b.size():
                b = z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else z3.Extract(a.size() - 1, 0, b)
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                    '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                    '<<': lambda: a << b, '>>': lambda: (a >> b) if sg else z3.LShR(a, b),
                    '/': lambda: a / b if sg else z3.UDiv(a, b),
                    '%': lambda: z3.SRem(a, b) if sg else z3.URem(a, b)}[op]()
        if op == '+':
            return self.wrap(st, a + b, ty)
        if op == '-':
            return self.wrap(st, a - b, ty)
        if op == '*':
            if z3.is_int_value(a) or z3.is_int_value(b):
                return self.wrap(st, a * b, ty)
            return self.nlmul(st, a, b, ty)
        if op in '/%':
            if z3.is_int_value(b):
                c = b.as_long()
                if c == 0:
                    raise Unsupported('division by zero')
                if t.get('sg') and not self.quick(st, a >= 0):
                    if c < 0:
                        raise Unsupported('division by a negative number')
                    return z3.If(a >= 0, a / b, -((-a) / b)) if op == '/' else z3.If(a >= 0, a % b, -((-a) % b))
                return a / b if op == '/' else a % b
            if self.check_bounds:
                self.oblige(st, b != 0, 'division by non-zero', line)
            return self.nldiv(st, op, a, b)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y):
                    m = y.as_long()
                    if m == 0:
                        return z3.IntVal(0)
                    if m > 0 and (m & (m + 1)) == 0:
                        if self.quick(st, z3.And(x >= 0, x <= m)):
                            return x
                        return x % (m + 1)
            r = self.andU(a, b)
            st.assume(r >= 0, z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r <= a, r <= b)))
            return r
        if op == '<<':
            if z3.is_int_value(b):
                return self.wrap(st, a * (1 << b.as_long()), ty)
        if op == '>>':
            if z3.is_int_value(b) and self.quick(st, a >= 0):
                return a / (1 << b.as_long())
        if op == '^':
            r = self.xorU(a, b)
            st.assume(self.xorU(b, a) == r)
            st.assume(z3.Implies(z3.And(a >= 0, a <= 255, b >= 0, b <= 255), z3.And(r >= 0, r <= 255)))
            lo, hi = self.irange(ty)
            st.assume(r >= lo, r <= hi)
            return r
        if op == '|':
            r = self.orU(a, b)
            lo, hi = self.irange(ty)
            st.assume(r >= lo, r <= hi)
            return r
        raise Unsupported('operator %s' % op)

    def farith(self, op, a, b):
        return {'+': a + b, '-': a - b, '*': a * b, '/': a / b}[op]

    def nlmul(self, st, a, b, ty):
        return self.wrap(st, a * b, ty)

    def nldiv(self, st, op, a, b):
        q, r = self.divU(a, b), self.modU(a, b)
        st.assume(z3.Implies(z3.And(a >= 0, b > 0),
                             z3.And(a == b * q + r, r >= 0, r < b, q >= 0, q <= a)))
        return q if op == '/' else r

    def compare(self, op, a, b, sg=1):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if z3.is_bool(a) and z3.is_bool(b):
            one, zr = z3.IntVal(1), z3.IntVal(0)
            a, b = z3.If(a, one, zr), z3.If(b, one, zr)
        if self.bv and not sg and z3.is_bv(a):
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    # ---------------------------------------------------------- evaluation
    # eval returns [(state, x)], x = Loc for glvalues, value for prvalues
    def rv(self, e, st):
        """evaluate to a value (load glvalues)"""
        out = []
        for s, x in self.eval(e, st):
            if isinstance(x, Loc):
                x = self.load(s, x, e['t'])
            out.append((s, x))
        return out

    def load(self, st, loc, ty=None):
        v = self.read(st, loc)
        if isinstance(v, Opaque) and v.tag == 'unkptr':
            v = self.materialise(st, loc, v)
        if ty is not None:
            self.type_facts(st, ty, v)
        return v

    def materialise(self, st, loc, v):
        return v

    def evals(self, es, st):
        """evaluate a list left to right -> [(st, [x...])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, xs in acc:
                for s2, x in self.eval(e, s):
                    nxt.append((s2, xs + [x]))
            acc = nxt
        return acc

    def branch(self, st, c):
        """[(state,bool)] feasible sides of boolean term c"""
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        c = z3.simplify(c) if False else c
        r = []
        tf = self.quick(st, c)
        ff = False if tf else self.quick(st, z3.Not(c))
        if tf:
            return [(st, True)]
        if ff:
            return [(st, False)]
        a = st.copy()
        a.assume(c)
        b = st.copy()
        b.assume(z3.Not(c))
        return [(a, True), (b, False)]

    def boolval(self, v):
        if isinstance(v, Ptr):
            return z3.BoolVal(v.loc is not None)
        if isinstance(v, Opaque) and v.tag == 'unkptr':
            raise Unsupported('truth of unknown pointer')
        if z3.is_bool(v):
            return v
        return v != 0

    def eval(self, e, st):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expr %s %s line %s' % (e['k'], e.get('w', ''), e.get('line')))
        return m(e, st)

    def e_unsup(self, e, st):
        raise Unsupported('expression %s at line %s' % (e.get('w'), e.get('line')))

    def e_int(self, e, st):
        return [(st, self.num(int(e['v']), e['t']))]

    def e_null(self, e, st):
        return [(st, Ptr(None))]

    def e_float(self, e, st):
        return [(st, z3.RealVal(repr(e['v'])))]

    strconsts = {}

    def strconst(self, s):
        if s not in self.strconsts:
            self.strconsts[s] = z3.Const('str_%d_%s' % (len(self.strconsts), ''.join(c if c.isalnum() else '_' for c in s[:20])), StrS)
        return self.strconsts[s]

    def e_str(self, e, st):
        l = self.new_root(st, Opaque('cstr', self.strconst(e['v'])))
        return [(st, l)]

    def e_zero(self, e, st):
        return [(st, self.zero(e['t']))]

    def e_var(self, e, st):
        if e['id'] not in st.env:
            raise Unsupported('variable %s not in scope' % e['n'])
        x = st.env[e['id']]
        if isinstance(x, Loc) and isinstance(st.roots.get(x.root), Opaque) and not x.path \
                and st.roots[x.root].tag == 'refcell':
            return [(st, st.roots[x.root].data)]
        return [(st, x)]

    def e_gvar(self, e, st):
        r = 'g:' + e['q']
        if r not in st.roots:
            g = self.ir.globals.get(e['q'])
            if g and 'i' in g:
                gt = self.ir.T(g['t'])
                out = []
                for s, x in self.rv(g['i'], st):
                    s.roots[r] = x
                    out.append((s, Loc(r)))
                return out
            st.roots[r] = self.fresh(e['t'], 'g_' + e['n'])
        return [(st, Loc(r))]

    def e_this(self, e, st):
        return [(st, Ptr(st.env['this']))]

    def e_mem(self, e, st):
        out = []
        for s, x in self.eval(e['e'], st):
            if e['arrow']:
                if isinstance(x, Loc):
                    x = self.load(s, x)
                for s2, l in self.deref(s, x, e):
                    out.append((s2, self.member(s2, l, e['f'])))
            elif isinstance(x, Loc):
                out.append((s, self.member(s, self.handle_target(s, x, e['e']['t']), e['f'])))
            else:
                l = self.new_root(s, x)
                out.append((s, self.member(s, l, e['f'])))
        return out

    member_hook = None
    # objects reached by handle: {class: heap root}; pointers to them are
    # integers.  handle_values: classes whose *values* are held as handles too
    handle_ptr = {}
    handle_values = set()

    def handle_heap(self, ty, values=False):
        t = self.ir.T(self.strip(ty))
        if t['k'] != 'rec':
            return None
        if values and t['q'] not in self.handle_values:
            return None
        return self.handle_ptr.get(t['q'])

    def handle_target(self, st, l, ty):
        h = self.handle_heap(ty, True) if self.handle_values else None
        if h is None or l.root == h:
            return l
        return Loc(h).e(self.read(st, l))

    def member(self, st, l, f):
        if self.member_hook:
            self.member_hook(self, st, l, f)
        return l.f(f)

    def deref(self, st, p, e=None):
        if isinstance(p, Opaque) and p.tag == 'unkptr':
            raise Unsupported('dereference of unknown pointer (line %s)' % (e or {}).get('line'))
        if isinstance(p, Iter):
            return [(st, self.iter_loc(st, p))]
        if isz(p) and self.handle_ptr and e is not None:
            t = self.ir.T(self.strip(e['e']['t']))
            h = self.handle_heap(t['to']) if t['k'] == 'ptr' else None
            if h:
                return [(st, Loc(h).e(p))]
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.loc is None:
            self.oblige(st, FALSE, 'null dereference', (e or {}).get('line', 0))
            st2 = st
            return []
        if self.byte_elems and p.off is not None:
            v = self.read(st, p.loc)
            if isz(v) and v.sort() == StrS:
                self.oblige(st, z3.And(p.off >= 0, p.off < slen(v)), 'dereference in bounds', (e or {}).get('line', 0))
                return [(st, p.loc.b(p.off))]
        return [(st, p.loc)]

    def iter_loc(self, st, it):
        if it.kind == 'seq':
            return it.loc.e(it.idx)
        if it.kind == 'enum':      # set / map iteration
            return it.aux(self, st, it)
        raise Unsupported('iterator kind %s' % it.kind)

    def e_un(self, e, st):
        op = e['op']
        out = []
        if op == '&':
            for s, x in self.eval(e['e'], st):
                if isinstance(x, Opaque) and x.tag == 'fref':
                    out.append((s, x))
                    continue
                if not isinstance(x, Loc):
                    raise Unsupported('address of value')
                h = self.handle_heap(e['e']['t']) if self.handle_ptr else None
                if h and x.root == h and len(x.path) == 1:
                    out.append((s, x.path[0][1]))
                elif h and self.handle_heap(e['e']['t'], True):
                    out.append((s, self.read(s, x)))
                else:
                    out.append((s, Ptr(x)))
            return out
        if op == '*':
            for s, x in self.rv(e['e'], st):
                out += self.deref(s, x, e)
            return out
        if op in ('++', '--'):
            for s, l in self.eval(e['e'], st):
                old = self.load(s, l, e['t'])
                if isinstance(old, Ptr):
                    new = self.ptradd(s, old, 1 if op == '++' else -1)
                else:
                    one = self.num(1, e['t'])
                    new = self.arith(s, '+' if op == '++' else '-', old, one, e['t'], e['line'])
                self.write(s, l, new)
                out.append((s, old if e['post'] else l))
            return out
        for s, x in self.rv(e['e'], st):
            if op == '!':
                out.append((s, z3.Not(self.boolval(x))))
            elif op == '-':
                if self.ir.T(e['t'])['k'] == 'float':
                    out.append((s, -x))
                else:
                    out.append((s, self.wrap(s, -x, e['t'])))
            elif op == '+':
                out.append((s, x))
            elif op == '~':
                if self.bv:
                    out.append((s, ~x))
                else:
                    lo, hi = self.irange(e['t'])
                    out.append((s, (hi - x) if lo == 0 else -x - 1))
            else:
                raise Unsupported('unary ' + op)
        return out

    def ptradd(self, st, p, n):
        if p.off is not None:
            return Ptr(p.loc, z3.simplify(p.off + n), p.pty)
        raise Unsupported('pointer arithmetic')

    def e_bin(self, e, st):
        op = e['op']
        out = []
        if op in ('&&', '||'):
            for s, a in self.rv(e['a'], st):
                a = self.boolval(a)
                for s2, side in self.branch(s, a):
                    if op == '&&' and not side:
                        out.append((s2, FALSE))
                    elif op == '||' and side:
                        out.append((s2, TRUE))
                    else:
                        for s3, b in self.rv(e['b'], s2):
                            out.append((s3, self.boolval(b)))
            return out
        if op == ',':
            for s, _ in self.eval(e['a'], st):
                out += self.eval(e['b'], s)
            return out
        for s, a in self.rv(e['a'], st):
            for s2, b in self.rv(e['b'], s):
                out.append((s2, self.binop(s2, op, a, b, e)))
        return out

    def binop(self, st, op, a, b, e):
        if isinstance(a, (Ptr, Iter, Opaque)) or isinstance(b, (Ptr, Iter, Opaque)):
            return self.ptrop(st, op, a, b, e)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            t = self.ir.T(self.strip(e['a']['t']))
            return self.compare(op, a, b, t.get('sg', 0))
        return self.arith(st, op, a, b, e['t'], e['line'])

    def ptrop(self, st, op, a, b, e):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('opaque pointer operation %s line %s' % (op, e.get('line')))
        if op in ('==', '!=') and isz(a) != isz(b):
            x, y = (a, b) if isz(a) else (b, a)
            if isinstance(y, Ptr) and y.loc is None:
                return x == 0 if op == '==' else x != 0
        if op in ('==', '!='):
            r = self.ptreq(a, b)
            return r if op == '==' else z3.Not(r)
        if op in ('+', '-') and isinstance(a, Ptr) and isz(b):
            return self.ptradd(st, a, b if op == '+' else -b)
        if op == '+' and isinstance(b, Ptr) and isz(a):
            return self.ptradd(st, b, a)
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and same(a.loc, b.loc) and a.off is not None:
            return a.off - b.off
        raise Unsupported('pointer operation ' + op)

    def ptreq(self, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if same(a.loc, b.loc):
                return a.idx == b.idx
            if a.loc.root == b.loc.root and len(a.loc.path) == len(b.loc.path):
                cs = [a.idx == b.idx]
                for p, q in zip(a.loc.path, b.loc.path):
                    if p[0] != q[0]:
                        return FALSE
                    if p[0] == 'f':
                        if p[1] != q[1]:
                            return FALSE
                    elif not p[1].eq(q[1]):
                        cs.append(p[1] == q[1])
                return z3.And(*cs)
            return FALSE
        if a.loc is None or b.loc is None:
            return z3.BoolVal(a.loc is None and b.loc is None)
        if a.loc.root != b.loc.root or len(a.loc.path) != len(b.loc.path):
            return FALSE
        cs = []
        for p, q in zip(a.loc.path, b.loc.path):
            if p[0] != q[0]:
                return FALSE
            if p[0] == 'f':
                if p[1] != q[1]:
                    return FALSE
            elif not p[1].eq(q[1]):
                cs.append(p[1] == q[1])
        if a.off is not None or b.off is not None:
            cs.append((a.off if a.off is not None else z3.IntVal(0)) == (b.off if b.off is not None else z3.IntVal(0)))
        return z3.And(*cs) if cs else TRUE

    def e_assign(self, e, st):
        out = []
        # C++17: right operand sequenced before left
        for s, v in self.rv(e['b'], st):
            for s2, l in self.eval(e['a'], s):
                if not isinstance(l, Loc):
                    raise Unsupported('assignment to value')
                self.write(s2, l, v)
                out.append((s2, l))
        return out

    def e_cassign(self, e, st):
        out = []
        op = e['op'][:-1]
        for s, v in self.rv(e['b'], st):
            for s2, l in self.eval(e['a'], s):
                old = self.load(s2, l, e['a']['t'])
                if isinstance(old, Ptr):
                    self.write(s2, l, self.ptradd(s2, old, v if op == '+' else -v))
                    out.append((s2, l))
                    continue
                ct = e['ct']
                lt = e['a']['t']
                a = self.convert(s2, old, lt, ct) if self.strip(ct) != self.strip(lt) and self.ir.T(ct)['k'] != 'float' else old
                b = v
                r = self.arith(s2, op, a, b, ct, e['line'])
                r = self.convert(s2, r, ct, lt) if self.strip(ct) != self.strip(lt) and self.ir.T(ct)['k'] != 'float' else r
                self.write(s2, l, r)
                out.append((s2, l))
        return out

    def e_cond(self, e, st):
        out = []
        for s, c in self.rv(e['c'], st):
            for s2, side in self.branch(s, self.boolval(c)):
                out += self.eval(e['a'] if side else e['b'], s2)
        return out

    def e_temp(self, e, st):
        out = []
        for s, x in self.eval(e['e'], st):
            if isinstance(x, Loc):
                out.append((s, x))
            else:
                out.append((s, self.new_root(s, x)))
        return out

    def e_idx(self, e, st):
        out = []
        for s, a in self.rv(e['a'], st):
            for s2, i in self.rv(e['b'], s):
                if isinstance(a, Ptr) and a.off is not None:
                    pv = self.read(s2, a.loc)
                    if isinstance(pv, Node) and pv.kind == 'parr':
                        out += self.parr_cases(s2, a.loc, a.off + i, e['line'])
                        continue
                    out.append((s2, self.ptr_index(s2, a, i, e)))
                else:
                    raise Unsupported('index of %r' % (a,))
        return out

    def ptr_index(self, st, p, i, e):
        """p[i] where p decays from an array: element location"""
        v = self.read(st, p.loc)
        if z3.is_bv(i):
            i = z3.BV2Int(i)
        idx = z3.simplify(p.off + i)
        if isinstance(v, Node) and v.kind in ('arr', 'dyn'):
            n = self.arr_n(v.ty) if v.kind == 'arr' else v['n']
            if self.check_bounds:
                self.oblige(st, z3.And(idx >= 0, idx < n), 'array index in bounds', e['line'])
            return p.loc.e(idx)
        if self.byte_elems and isz(v) and v.sort() == StrS:
            self.oblige(st, z3.And(idx >= 0, idx < slen(v)), 'array index in bounds', e['line'])
            return p.loc.b(idx)
        if isz(v) and z3.is_bv(v) and v.size() % 8 == 0:
            self.oblige(st, z3.And(idx >= 0, idx < v.size() // 8), 'array index in bounds', e['line'])
            return p.loc.b(idx)
        raise Unsupported('indexing %r' % (v,))

    def e_cast(self, e, st):
        ck = e['ck']
        out = []
        if ck == 'LValueToRValue':
            for s, x in self.eval(e['e'], st):
                out.append((s, self.load(s, x, e['t']) if isinstance(x, Loc) else x))
            return out
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            for s, x in self.rv(e['e'], st):
                if ck == 'PointerToBoolean':
                    out.append((s, self.boolval(x)))
                else:
                    out.append((s, self.convert(s, x, e['e']['t'], e['t'])))
            return out
        if ck == 'ArrayToPointerDecay':
            for s, x in self.eval(e['e'], st):
                if not isinstance(x, Loc):
                    x = self.new_root(s, x)
                v = self.read(s, x)
                if isinstance(v, Opaque) and v.tag == 'cstr':
                    out.append((s, v))
                else:
                    out.append((s, Ptr(x, z3.IntVal(0))))
            return out
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.eval(e['e'], st)
        if ck == 'NullToPointer':
            return [(st, z3.IntVal(0) if self.handle_ptr else Ptr(None))]
        if ck == 'ToVoid':
            for s, x in self.eval(e['e'], st):
                out.append((s, None))
            return out
        if ck == 'BitCast':
            for s, x in self.rv(e['e'], st):
                out.append((s, self.bitcast(s, x, e)))
            return out
        if ck == 'LValueBitCast':
            for s, x in self.eval(e['e'], st):
                out.append((s, x))
            return out
        if ck in ('IntegralToFloating',):
            for s, x in self.rv(e['e'], st):
                out.append((s, self.to_float(s, x)))
            return out
        if ck in ('FloatingToIntegral',):
            for s, x in self.rv(e['e'], st):
                out.append((s, self.from_float(s, x, e)))
            return out
        if ck == 'FloatingCast':
            return self.rv(e['e'], st)
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            raise Unsupported('cast ' + ck)
        raise Unsupported('cast %s line %s' % (ck, e.get('line')))

    def to_float(self, st, x):
        raise Unsupported('floating point')

    def from_float(self, st, x, e):
        raise Unsupported('floating point')

    def bitcast(self, st, x, e):
        """pointer reinterpretation"""
        if isinstance(x, Ptr) and x.loc is not None and x.off is None:
            to = self.ir.T(e['t'])
            if to['k'] == 'ptr':
                pt = self.strip(to['to'])
                pk = self.ir.T(pt)
                v = self.read(st, x.loc)
                if pk['k'] == 'int' and pk['bits'] == 64 and isinstance(v, Node) and v.kind == 'rec':
                    # object representation of a small record read as integer
                    r = self.ir.records[self.ir.T(v.ty)['name']]
                    if r['size'] == 8:
                        tot = z3.IntVal(0)
                        used = 0
                        for f in sorted(r['fields'], key=lambda f: f['off']):
                            w = f.get('bits') or self.ir.T(f['t']).get('bits', 8)
                            x0 = v.ch[f['n']]
                            if z3.is_bool(x0):
                                x0 = z3.If(x0, z3.IntVal(1), z3.IntVal(0))
                            tot = tot + x0 * (1 << f['off'])
                            used += w
                        if used != 64:
                            raise Unsupported('padding in reinterpreted record')
                        l = self.new_root(st, tot)
                        self.assumptions.add('bit-field layout of 8-byte records as laid out by clang for x86-64 (reinterpret_cast reads)')
                        return Ptr(l)
                if pk['k'] == 'int' and pk['bits'] == 8 or pk['k'] == 'void':
                    return self.byteptr(st, x, e)
        if isinstance(x, Ptr) and x.off is not None:
            return x
        if isinstance(x, Opaque) and x.tag == 'cstr':
            return x
        if isinstance(x, Ptr) and x.loc is None:
            return x
        if isz(x) and self.handle_ptr:
            return x
        if self.bitcast_hook:
            r = self.bitcast_hook(self, st, x, e)
            if r is not None:
                return r
        raise Unsupported('reinterpret cast line %s' % e.get('line'))

    bitcast_hook = None

    def byteptr(self, st, x, e):
        return Ptr(x.loc, z3.IntVal(0), self.strip(self.ir.T(self.strip(e['e']['t']))['to']))

    def sizeof(self, ty):
        ty = self.strip(ty)
        t = self.ir.T(ty)
        k = t['k']
        if k in ('int', 'float'):
            return t['bits'] // 8
        if k == 'bool':
            return 1
        if k == 'ptr':
            return 8
        if self.shape(ty) == 'arr':
            return self.arr_n(ty) * self.sizeof(self.elem_ty(ty))
        r = self.ir.records.get(t.get('name'))
        if r and 'size' in r:
            return r['size']
        raise Unsupported('size of ' + t['s'])

    def e_lambda(self, e, st):
        caps = {}
        this = st.env.get('this')
        sts = [(st, {})]
        for c in e['caps']:
            if c.get('this'):
                if not c['byref']:
                    raise Unsupported('capture *this by copy')
                continue
            nxt = []
            for s, m in sts:
                if 'initcap' in c and not c['byref']:
                    for s2, v in self.rv(c['initcap'], s):
                        nxt.append((s2, dict(m, **{str(c['id']): self.new_root(s2, v, 'cap_' + c['n'])})))
                elif c['byref']:
                    l = s.env.get(c['id'])
                    if l is None:
                        raise Unsupported('capture')
                    nxt.append((s, dict(m, **{str(c['id']): l})))
                else:
                    l = s.env.get(c['id'])
                    v = self.read(s, l)
                    nxt.append((s, dict(m, **{str(c['id']): self.new_root(s, v, 'cap_' + c['n'])})))
            sts = nxt
        return [(s, Closure(e['f'], m, this, e)) for s, m in sts]

    def e_init(self, e, st):
        ty = self.strip(e['t'])
        s = self.shape(ty)
        out = []
        if s == 'arr' or s == 'arr':
            es = e['es']
            # std::array<T,N>{{...}} has one nested init list
            for st2, vs in self.rvs(es, st):
                out.append((st2, self.build_arr(st2, ty, vs)))
            return out
        if s == 'rec':
            r = self.ir.records[self.ir.T(ty)['name']]
            for st2, vs in self.rvs(e['es'], st):
                v = self.fresh(ty, 'agg')
                ch = dict(v.ch)
                nb = len(r['bases'])
                for f, x in zip([f for f in r['fields']], vs[nb:]):
                    ch[f['n']] = x
                out.append((st2, Node('rec', ty, ch)))
            return out
        if len(e['es']) == 1:
            return self.eval(e['es'][0], st)
        if not e['es']:
            return [(st, self.zero(ty))]
        raise Unsupported('init list of ' + self.ir.T(ty)['s'])

    def rvs(self, es, st):
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, xs in acc:
                for s2, x in self.rv(e, s):
                    nxt.append((s2, xs + [x]))
            acc = nxt
        return acc

    def build_arr(self, st, ty, vs):
        if len(vs) == 1 and isinstance(vs[0], Node) and vs[0].kind == 'arr':
            return Node('arr', ty, vs[0].ch)
        v = self.fresh(ty, 'arr')
        if not isinstance(v, Node):
            if len(vs) == 1 and isz(vs[0]) and vs[0].sort() == BytesS:
                return vs[0]
            if not vs:
                return self.zero(ty)
            return v if not vs else self.bytes_literal(st, ty, vs)
        if len(vs) == 1 and isinstance(vs[0], Node) and vs[0].kind == 'parr':
            return vs[0]
        el = v['el']
        if isinstance(el, Opaque) and vs and all(isinstance(x, Ptr) for x in vs):
            return Node('parr', ty, {'p%d' % i: x for i, x in enumerate(vs)})
        for i, x in enumerate(vs):
            el = vstore(el, [z3.IntVal(i)], x)
        return Node('arr', ty, {'el': el})

    def parr_cases(self, st, loc, i, line):
        """element i of an array of known pointers: one state per element"""
        v = self.read(st, loc)
        n = len(v.ch)
        i = z3.simplify(i)
        if z3.is_int_value(i) and 0 <= i.as_long() < n:
            return [(st, loc.f('p%d' % i.as_long()))]
        self.oblige(st, z3.And(i >= 0, i < n), 'array index in bounds', line)
        out = []
        for k in range(n):
            if k == n - 1:
                st.assume(i == k)
                out.append((st, loc.f('p%d' % k)))
                break
            t = None
            for b, y in self.branch(st, i == k):
                if y:
                    out.append((b, loc.f('p%d' % k)))
                else:
                    t = b
            if t is None:
                break
            st = t
        return out

    def bytes_literal(self, st, ty, vs):
        raise Unsupported('byte array literal')

    def e_stdinit(self, e, st):
        out = []
        for s, x in self.rv(e['e'], st):
            if isinstance(x, Node) and x.kind == 'arr':
                n = self.arr_n(x.ty)
                out.append((s, Node('seq', self.strip(e['t']), {'n': z3.IntVal(n), 'el': x['el']})))
            else:
                raise Unsupported('initializer_list')
        return out

    def e_throw(self, e, st):
        if e.get('e'):
            for s, x in self.eval(e['e'], st):
                self.sinks[-1].append((s, Opaque('exc', self.ir.T(self.strip(e['tt'])).get('q', '?'))))
        else:
            self.sinks[-1].append((st, Opaque('exc', 'rethrow')))
        return []

    def e_new(self, e, st):
        out = []
        if 'n' in e and e['n'] is not None:
            if self.array_new is None:
                raise Unsupported('array new')
            for s, n in self.rv(e['n'], st):
                out.append((s, self.array_new(self, s, e['nt'], n)))
            return out
        h = self.handle_heap(e['nt']) if self.handle_ptr else None
        if e.get('i'):
            for s, x in self.rv(e['i'], st):
                if h:
                    out.append((s, self.new_handle(self, s, h, x, e)))
                    continue
                out.append((s, Ptr(self.new_root(s, x, 'heap'))))
            return out
        return [(st, Ptr(self.new_root(st, self.fresh(e['nt'], 'heap'), 'heap')))]

    def e_delete(self, e, st):
        out = []
        for s, x in self.rv(e['e'], st):
            if isz(x) and self.delete_handle:
                self.delete_handle(self, s, x, e)
            elif isinstance(x, Ptr) and x.loc is not None and not x.loc.path and x.loc.root.startswith('heap'):
                if isinstance(s.roots[x.loc.root], Opaque) and s.roots[x.loc.root].tag == 'freed':
                    self.oblige(s, FALSE, 'an object is deleted once', e.get('line', 0))
                s.roots[x.loc.root] = Opaque('freed')
            out.append((s, None))
        return out

    array_new = new_handle = delete_handle = None
    byte_elems = False      # byte strings: facts about single bytes and parts

    def no_local_refs(self, st, clo, line):
        """a function that runs after this call returned must not refer to
        this call's variables"""
        if isinstance(clo, Loc):
            clo = self.read(st, clo)
        if isinstance(clo, Closure):
            for c in clo.node['caps']:
                if c.get('this') or not c['byref'] and 'initcap' not in c:
                    continue
                if c['byref'] and clo.caps[str(c['id'])].root != 'this':
                    self.oblige(st, FALSE, 'a function that runs later refers to variables of the call that made it', line)

    def e_stmtexpr(self, e, st):
        raise Unsupported('statement expression')

    def e_arrcopy(self, e, st):
        return self.rv(e['e'], st)

    def e_fref(self, e, st):
        return [(st, Opaque('fref', e.get('f')))]

    # --------------------------------------------------------------- calls
    def normq(self, q):
        return normq(q)

    def e_icall(self, e, st):
        out = []
        for s, f in self.rv(e['e'], st):
            for s2, xs in self.evals(e['args'], s):
                out += self.call_value(s2, f, xs, e)
        return out

    def e_call(self, e, st):
        q = self.normq(e['q'])
        if e.get('noret') or q in ('__assert_fail', 'abort', 'std::terminate', '__assert'):
            self.oblige(st, FALSE, 'assertion cannot fail', e['line'])
            return []
        out = []
        has_obj = 'obj' in e
        es = ([e['obj']] if has_obj else []) + e['args']
        for s, xs in self.evals(es, st):
            obj = None
            args = xs
            if has_obj:
                obj, args = xs[0], xs[1:]
                if e.get('arrow') or isinstance(obj, Ptr):
                    if isinstance(obj, Loc):
                        obj = self.load(s, obj)
                    if isinstance(obj, Ptr):
                        if obj.loc is None:
                            self.oblige(s, FALSE, 'null dereference', e['line'])
                            continue
                        obj = obj.loc
                    elif isz(obj) and self.handle_ptr and e['obj'].get('t') is not None:
                        t = self.ir.T(self.strip(e['obj']['t']))
                        h = self.handle_heap(t['to'] if t['k'] == 'ptr' else e['obj']['t'])
                        if h is None:
                            raise Unsupported('method of an unknown pointer')
                        obj = Loc(h).e(obj)
                    elif isinstance(obj, Opaque):
                        obj = self.new_root(s, obj)
                elif not isinstance(obj, Loc):
                    obj = self.new_root(s, obj)
            out += self.dispatch(s, e, q, obj, args)
        return out

    def dispatch(self, s, e, q, obj, args):
        mdl = self.overrides.get(q)
        if mdl:
            r = mdl(self, s, e, obj, args)
            if r is not NotImplemented:
                return r
        c = self.contracts.get(q)
        if c is not None and 'f' in e and not (self.fnstack and len(self.fnstack) == 0):
            if c.applies(self, e, obj, args):
                return self.call_contract(s, c, e, obj, args)
        if 'f' in e and e['f'] in self.ir.funcs:
            f = self.ir.funcs[e['f']]
            if f.get('lambda') and obj is not None:
                clo = self.read(s, obj)
                return self.call_value(s, clo, args, e)
            if f.get('deflt') and e.get('oper') == '=':
                return self.default_assign(s, obj, args)
            if e.get('virt'):
                f = self.resolve_virtual(s, e, obj, f)
            return self.inline(s, f, obj, args, e)
        if e.get('deflt') and e.get('oper') == '=':
            return self.default_assign(s, obj, args)
        m = self.models.get(q)
        if m is None and '::' in q:
            m = self.models.get(q.rsplit('::', 1)[0] + '::*')
        if m is None:
            for pre, mm in self.model_prefixes:
                if q.startswith(pre):
                    m = mm
                    break
        if m is None:
            raise Unsupported('no model for %s (line %s)' % (q, e.get('line')))
        r = m(self, s, e, obj, args)
        return r

    model_prefixes = []

    def resolve_virtual(self, s, e, obj, f):
        return f

    def default_assign(self, s, obj, args):
        v = self.read(s, args[0]) if isinstance(args[0], Loc) else args[0]
        self.write(s, obj, v)
        return [(s, obj)]

    def call_value(self, s, f, args, e):
        if isinstance(f, Loc):
            f = self.read(s, f)
        if isinstance(f, Closure):
            fn = self.ir.funcs[f.f]
            env = {int(k): v for k, v in f.caps.items()}
            if f.this is not None:
                env['this'] = f.this
            return self.inline(s, fn, f.this, args, e, env=env)
        if isinstance(f, Opaque) and f.tag == 'fref' and f.data in self.ir.funcs:
            return self.inline(s, self.ir.funcs[f.data], None, args, e)
        if isinstance(f, Opaque) and f.tag == 'specfn':
            return f.data(self, s, args, e)
        raise Unsupported('call of unknown function value %r (line %s)' % (f, e.get('line')))

    def bind_params(self, s, f, args, env):
        for p, a in zip(f['params'], args):
            t = self.ir.T(p['t'])
            if t['k'] == 'ref':
                if not isinstance(a, Loc):
                    a = self.new_root(s, a, 'arg')
                env[p['id']] = a
            else:
                if isinstance(a, Loc):
                    a = self.load(s, a, p['t'])
                env[p['id']] = self.new_root(s, a, p['n'] or 'p')

    def inline(self, s, f, obj, args, e, env=None, raw=False):
        if len(self.fnstack) > self.maxdepth or sum(1 for g in self.fnstack if g['key'] == f['key']) > 2:
            raise Unsupported('recursion in ' + f['q'])
        self.inlined.add(f['q'])
        saved = s.env
        env = dict(env or {})
        if obj is not None and 'this' not in env:
            env['this'] = obj
        self.bind_params(s, f, args, env)
        s.env = env
        self.fnstack.append(f)
        try:
            outs = self.run_body(f, s)
        finally:
            self.fnstack.pop()
        res = []
        for kind, st, v in outs:
            st.env = saved
            if kind in ('return', 'normal'):
                rt = self.ir.T(f['ret'])
                if kind == 'return' and rt['k'] != 'ref' and isinstance(v, Loc):
                    v = self.load(st, v, f['ret'])
                res.append((st, v))
            elif kind == 'throw':
                self.sinks[-1].append((st, v))
            else:
                raise Unsupported('stray ' + kind)
        return res

    def run_body(self, f, s):
        """execute initialisers and body; returns outcomes"""
        self.sinks.append([])
        try:
            sts = [s]
            if f.get('ctor'):
                sts = self.ctor_inits(f, sts)
            outs = []
            for st in sts:
                outs += self.exec(f['body'], st) if f['body'] else [('normal', st, None)]
        finally:
            sink = self.sinks.pop()
        return outs + [('throw', st, x) for st, x in sink]

    def ctor_inits(self, f, sts):
        for i in f['inits']:
            nxt = []
            for st in sts:
                if 'base' in i:
                    for s2, v in self.rv(i['e'], st):
                        # copy base fields into this
                        if isinstance(v, Node) and v.kind == 'rec':
                            for k, c in v.ch.items():
                                self.write(s2, s2.env['this'].f(k), c, hook=False)
                        nxt.append(s2)
                    continue
                if 'deleg' in i:
                    for s2, v in self.rv(i['e'], st):
                        self.write(s2, s2.env['this'], v, hook=False)
                        nxt.append(s2)
                    continue
                ft = self.field_type(f, i['f'])
                for s2, v in (self.eval(i['e'], st) if ft is not None and self.ir.T(ft)['k'] == 'ref' else self.rv(i['e'], st)):
                    if isinstance(v, Loc):
                        v = Opaque('refcell', v)
                    tl = s2.env['this'].f(i['f'])
                    self.write_init(s2, tl, v)
                    nxt.append(s2)
            sts = nxt
        return sts

    def field_type(self, f, name):
        r = self.ir.records.get(self.ir.T(f['cls'])['name'])
        if not r:
            return None
        for x in r['fields']:
            if x['n'] == name:
                return x['t']
        return None

    def write_init(self, st, loc, v):
        self.write(st, loc, v, hook=False)

    def e_ctor(self, e, st):
        ty = self.strip(e['t'])
        q = self.normq(e['q'])
        cls = q.rsplit('::', 1)[0]
        sh = self.shape(ty)
        out = []
        if (e.get('copy') or e.get('move')) and len(e['args']) >= 1 and 'f' not in e or \
                (e.get('copy') or e.get('move')) and e.get('deflt'):
            if sh != 'uptr' or e.get('copy'):
                for s, x in self.evals(e['args'][:1], st):
                    v = x[0]
                    if isinstance(v, Loc):
                        v = self.load(s, v, ty)
                    out.append((s, v))
                return out
        m = self.models.get(cls + '::(ctor)')
        if m is not None:
            for s, xs in self.evals(e['args'], st):
                out += m(self, s, e, ty, xs)
            return out
        c = self.contracts.get(q)
        if sh == 'rec':
            if 'f' in e and e['f'] in self.ir.funcs:
                f = self.ir.funcs[e['f']]
                for s, xs in self.evals(e['args'], st):
                    l = self.new_root(s, self.zero(ty) if e.get('zero') else self.fresh(ty, 'obj'), 'obj')
                    if c is not None and c.applies(self, e, l, xs):
                        for s2, _ in self.call_contract(s, c, e, l, xs):
                            out.append((s2, self.read(s2, l)))
                        continue
                    for s2, _ in self.inline(s, f, l, xs, e):
                        out.append((s2, self.read(s2, l)))
                return out
            if e.get('zero'):
                return [(st, self.zero(ty))]
            if not e['args']:
                return [(st, self.fresh(ty, 'obj'))]
            raise Unsupported('constructor %s' % q)
        for pre, mm in self.ctor_prefixes:
            if q.startswith(pre):
                for s, xs in self.evals(e['args'], st):
                    out += mm(self, s, e, ty, xs)
                return out
        if sh == 'arr' and not e['args']:
            return [(st, self.zero(ty) if e.get('zero') else self.fresh_of(st, ty))]
        if sh == 'opaque':
            for s, xs in self.evals(e['args'], st):
                out.append((s, Opaque('obj:' + cls, tuple(xs) if xs else None)))
            return out
        raise Unsupported('constructor of %s line %s' % (self.ir.T(ty)['s'], e.get('line')))

    ctor_prefixes = []

    def fresh_of(self, st, ty):
        v = self.fresh(ty, 'obj')
        self.type_facts(st, ty, v)
        return v

    # ---------------------------------------------------- modular contracts
    def call_contract(self, s, c, e, obj, args):
        self.used_contracts.add(c.name)
        f = self.ir.funcs.get(e.get('f'))
        pre = s.copy()
        ctx = Ctx(self, pre, s, obj, args, fn=f)
        for n, g in c.requires(ctx):
            self.oblige(s, g, 'precondition of %s: %s' % (c.name, n), e['line'])
            if not self.probing:
                s.assume(g)
        outs = []
        # exceptional exits
        thr = c.throws_when(ctx) if hasattr(c, 'throws_when') else None
        branches = [(s, False)]
        if thr is not None:
            branches = self.branch(s, thr)
        for b, th in branches:
            if thr is not None and th:
                self.sinks[-1].append((b, Opaque('exc', c.name)))
                continue
            if getattr(c, 'may_throw', False):
                x = b.copy()
                ctx3 = Ctx(self, pre, x, obj, args, fn=f)
                c.havoc(self, ctx3)
                th = c.ensures_throw(ctx3, Opaque('exc', c.name))
                if th is not None:
                    for n, g in th:
                        x.assume(g)
                    if self.feasible(x, TRUE):
                        self.sinks[-1].append((x, Opaque('exc', c.name)))
            ctx2 = Ctx(self, pre, b, obj, args, fn=f)
            c.havoc(self, ctx2)
            rt = e['rt'] if 'rt' in e else f['ret']
            if self.ir.T(rt)['k'] != 'void' and e['k'] != 'ctor':
                r = self.fresh(rt, 'ret_' + c.name.split('::')[-1])
                self.type_facts(b, rt, r)
                ctx2.res = r
            for n, g in c.ensures(ctx2):
                b.assume(g)
            outs.append((b, ctx2.res))
        return outs

    # ---------------------------------------------------------- statements
    # outcome: (kind, state, value)
    def exec(self, n, st):
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            raise Unsupported('statement %s %s line %s' % (n['k'], n.get('w', ''), n.get('line')))
        return m(n, st)

    def s_unsup(self, n, st):
        raise Unsupported('statement ' + n.get('w', ''))

    dtor_models = {}      # qualified class name -> f(eng, st, loc), run when a local leaves its scope

    def scoped(self, n):
        if not self.dtor_models:
            return []
        out = []
        for x in n['b']:
            if x['k'] == 'decl':
                for v in x['vars']:
                    t = self.ir.T(v['t'])
                    if not v.get('bad') and t['k'] == 'rec' and self.normq(t.get('q', '')) in self.dtor_models:
                        out.append((v['id'], self.dtor_models[self.normq(t['q'])]))
        return out

    def s_block(self, n, st):
        env = st.env
        sc = self.scoped(n)
        if sc:
            self.sinks.append([])
        try:
            outs = self.seq(n['b'], [st])
        finally:
            if sc:
                thrown = self.sinks.pop()
        if sc:
            for s in [o[1] for o in outs] + [x[0] for x in thrown]:
                for vid, d in reversed(sc):
                    if vid in s.env and s.env[vid] is not env.get(vid):
                        d(self, s, s.env[vid])
            self.sinks[-1].extend(thrown)
        for o in outs:
            if o[0] in ('normal', 'break', 'continue'):
                o[1].env = env
        return outs

    def seq(self, ss, sts):
        done = []
        cur = sts
        for x in ss:
            nxt = []
            for s in cur:
                for o in self.exec(x, s):
                    if o[0] == 'normal':
                        nxt.append(o[1])
                    else:
                        done.append(o)
            cur = self.merge(nxt)
            if not cur:
                break
        return done + [('normal', s, None) for s in cur]

    def merge(self, sts):
        """join states that differ only in path conditions (sound: keeps the
        common prefix of the facts)"""
        if len(sts) < 2:
            return sts
        out = []
        for s in sts:
            for t in out:
                if self.same_state(s, t):
                    n = 0
                    for a, b in zip(s.pc, t.pc):
                        if not a.eq(b):
                            break
                        n += 1
                    ra, rb = s.pc[n:], t.pc[n:]
                    t.pc = s.pc[:n]
                    if ra and rb:
                        t.pc.append(z3.Or(z3.And(*ra), z3.And(*rb)))
                    break
            else:
                out.append(s)
        return out

    def same_state(self, s, t):
        if s.env is not t.env and s.env != t.env:
            if s.env.keys() != t.env.keys() or any(not same(s.env[k], t.env[k]) for k in s.env):
                return False
        live = set(s.roots) & set(t.roots)
        refd = {v.root for v in s.env.values() if isinstance(v, Loc)}
        for r in refd:
            if (r in s.roots) != (r in t.roots):
                return False
        for r in live:
            if s.roots[r] is not t.roots[r] and not same(s.roots[r], t.roots[r]):
                return False
        if s.ghost.keys() != t.ghost.keys():
            return False
        return all(same(s.ghost[k], t.ghost[k]) for k in s.ghost)

    def s_expr(self, n, st):
        return [('normal', s, None) for s, _ in self.eval(n['e'], st)]

    def declare(self, st, vid, loc):
        st.env = dict(st.env)
        st.env[vid] = loc

    def s_decl(self, n, st):
        sts = [st]
        for v in n['vars']:
            if v.get('bad'):
                raise Unsupported('structured binding')
            nxt = []
            for s in sts:
                nxt += self.declvar(v, s)
            sts = nxt
        return [('normal', s, None) for s in sts]

    def declvar(self, v, s):
        t = self.ir.T(v['t'])
        out = []
        if t['k'] == 'ref':
            for s2, x in self.eval(v['i'], s):
                if not isinstance(x, Loc):
                    x = self.new_root(s2, x, v['n'])
                self.declare(s2, v['id'], x)
                out.append(s2)
            return out
        if v.get('i'):
            for s2, x in self.rv(v['i'], s):
                l = self.new_root(s2, x, v['n'])
                self.declare(s2, v['id'], l)
                self.type_facts(s2, v['t'], x) if isinstance(x, Node) and not self.probing else None
                out.append(s2)
            return out
        x = self.fresh(v['t'], v['n'])
        l = self.new_root(s, x, v['n'])
        self.type_facts(s, v['t'], x)
        self.declare(s, v['id'], l)
        return [s]

    def s_if(self, n, st):
        env = st.env
        outs = []
        pres = [('normal', st, None)]
        if n.get('init'):
            pres = self.exec(n['init'], st)
        for k, s, v in pres:
            if k != 'normal':
                outs.append((k, s, v))
                continue
            ss = [s]
            if n.get('cvar'):
                ss = self.declvar(n['cvar'], s)
            for s1 in ss:
                for s2, c in self.rv(n['c'], s1):
                    for s3, side in self.branch(s2, self.boolval(c)):
                        if side:
                            outs += self.exec(n['t'], s3)
                        elif n.get('e'):
                            outs += self.exec(n['e'], s3)
                        else:
                            outs.append(('normal', s3, None))
        for o in outs:
            if o[0] in ('normal', 'break', 'continue'):
                o[1].env = env
        norm = [o[1] for o in outs if o[0] == 'normal']
        rest = [o for o in outs if o[0] != 'normal']
        return rest + [('normal', s, None) for s in self.merge(norm)]

    def s_return(self, n, st):
        if n.get('e') is None:
            return [('return', st, None)]
        rt = self.ir.T(self.fnstack[-1]['ret'])
        out = []
        for s, x in self.eval(n['e'], st):
            if isinstance(x, Loc) and rt['k'] != 'ref':
                x = self.load(s, x, n['e']['t'])
            out.append(('return', s, x))
        return out

    def s_break(self, n, st):
        return [('break', st, None)]

    def s_continue(self, n, st):
        return [('continue', st, None)]

    def s_switch(self, n, st):
        out = []
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        flat = []   # (label value|None|'default', stmt)
        for x in body:
            labels = []
            while x['k'] in ('case', 'default'):
                labels.append('default' if x['k'] == 'default' else int(x['v']['v']))
                x = x['s']
            flat.append((labels, x))
        for s, c in self.rv(n['c'], st):
            vals = [l for ls, _ in flat for l in ls if l != 'default']
            starts = []
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    if l == 'default':
                        starts.append((i, z3.And(*[c != v for v in vals]) if vals else TRUE))
                    else:
                        starts.append((i, c == l))
            if not any('default' in ls for ls, _ in flat):
                starts.append((len(flat), z3.And(*[c != v for v in vals]) if vals else TRUE))
            for i, cond in starts:
                if not self.feasible(s, cond):
                    continue
                b = s.copy()
                b.assume(cond)
                env = b.env
                for o in self.seq([x for _, x in flat[i:]], [b]):
                    o[1].env = env if o[0] in ('normal', 'break') else o[1].env
                    out.append(('normal' if o[0] == 'break' else o[0], o[1], o[2]))
        return out

    # what the standard exceptions derive from
    EXC = {'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::out_of_range': 'std::logic_error',
           'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::future_error': 'std::logic_error',
           'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error'}

    def catches(self, h, x):
        """does the handler catch the exception: True, False, None (either)"""
        if 'var' not in h:
            return True
        q = self.ir.T(self.strip(h['t'])).get('q', '?')
        if q == 'std::exception':
            return True
        t = x.data
        if not isinstance(t, str) or not t.startswith('std::'):
            return None
        while t is not None:
            if t == q:
                return True
            t = self.EXC.get(t)
        return False

    def s_try(self, n, st):
        env = st.env
        self.sinks.append([])
        try:
            outs = self.exec(n['b'], st)
        finally:
            sink = self.sinks.pop()
        for s, x in sink:
            for h in n['h']:
                hit = self.catches(h, x)
                if hit is False:
                    continue
                b = s if hit else s.copy()
                b.env = env
                if 'var' in h:
                    self.declare(b, h['var'], self.new_root(b, x, 'exc'))
                outs += self.exec(h['b'], b)
                if hit:
                    break
            else:
                self.sinks[-1].append((s, x))
        for o in outs:
            if o[0] in ('normal', 'break', 'continue'):
                o[1].env = env
        return outs

    # --------------------------------------------------------------- loops
    def s_while(self, n, st):
        if n.get('cvar'):
            raise Unsupported('while with declaration')
        return self.loop(n, st, 'while', lambda s: self.rv(n['c'], s),
                         lambda s: self.exec(n['b'], s), None)

    def s_do(self, n, st):
        # do B while(c)  ==  first = true; while(first || c) { first=false; B }
        outs = []
        first = self.exec(n['b'], st)
        env = st.env
        for k, s, v in first:
            if k in ('normal', 'continue'):
                s.env = env
                outs += self.loop(n, s, 'do', lambda s: self.rv(n['c'], s),
                                  lambda s: self.exec(n['b'], s), None)
            elif k == 'break':
                s.env = env
                outs.append(('normal', s, None))
            else:
                outs.append((k, s, v))
        return outs

    def s_for(self, n, st):
        env = st.env
        outs = []
        pres = [('normal', st, None)] if not n.get('init') else self.exec(n['init'], st)
        for k, s, v in pres:
            if k != 'normal':
                outs.append((k, s, v))
                continue
            outs += self.loop(n, s, 'for',
                              (lambda s: self.rv(n['c'], s)) if n.get('c') else (lambda s: [(s, TRUE)]),
                              lambda s: self.exec(n['b'], s),
                              (lambda s: [x for x, _ in self.eval(n['inc'], s)]) if n.get('inc') else None)
        for o in outs:
            if o[0] == 'normal':
                o[1].env = env
        return outs

    def s_forrange(self, n, st):
        env = st.env
        outs = []
        sts = [st]
        for part in ('range', 'begin', 'end'):
            nxt = []
            for s in sts:
                for o in self.exec(n[part], s):
                    if o[0] != 'normal':
                        outs.append(o)
                    else:
                        nxt.append(o[1])
            sts = nxt

        def body(s):
            r = []
            for o in self.exec(n['var'], s):
                if o[0] != 'normal':
                    r.append(o)
                else:
                    r += self.exec(n['b'], o[1])
            return r
        for s in sts:
            outs += self.loop(n, s, 'forrange', lambda s: self.rv(n['c'], s), body,
                              lambda s: [x for x, _ in self.eval(n['inc'], s)])
        for o in outs:
            if o[0] == 'normal':
                o[1].env = env
        return outs

    def loop_id(self, n):
        return (id(n), tuple(f['key'] for f in self.fnstack))

    def diff(self, a, b):
        """modified leaves between two states, over roots of a"""
        mods = {}
        for r, va in a.roots.items():
            vb = b.roots.get(r)
            if vb is None or va is vb:
                continue
            self.diffv(r, va, vb, (), mods)
        for g, va in a.ghost.items():
            vb = b.ghost.get(g)
            if vb is not va and not same(va, vb):
                mods[('ghost', g)] = None
        return mods

    def diffv(self, r, va, vb, path, mods):
        if isinstance(va, Node) and isinstance(vb, Node) and va.ch.keys() == vb.ch.keys():
            for k in va.ch:
                if va.ch[k] is not vb.ch[k]:
                    self.diffv(r, va.ch[k], vb.ch[k], path + (k,), mods)
            return
        if not same(va, vb):
            if isz(va) and isz(vb):
                mods[(r, path)] = None
            elif isinstance(va, Iter) and isinstance(vb, Iter) and same(va.loc, vb.loc):
                mods[(r, path)] = None
            elif isinstance(va, (Ptr, Opaque)) and isinstance(vb, Ptr):
                mods.setdefault((r, path), {})[self.pshape(vb)] = vb
            elif isinstance(va, Opaque) and isinstance(vb, Opaque):
                mods[(r, path)] = None
            elif isinstance(vb, Opaque):
                mods[(r, path)] = None
            else:
                raise Unsupported('loop changes a value of unsupported kind: %r -> %r' % (va, vb))

    def pshape(self, p):
        if p.loc is None:
            return ('null',)
        return (p.loc.root,) + tuple((x[0], x[1] if x[0] == 'f' else '*') for x in p.loc.path) + (p.off is not None,)

    def fresh_like(self, v, name='h'):
        return z3.Const(self.fname(name), v.sort())

    def havoc_heads(self, st0, mods):
        heads = [st0.copy()]
        for key, shapes in sorted(mods.items(), key=lambda kv: str(kv[0])):
            if key[0] == 'ghost':
                for h in heads:
                    h.ghost[key[1]] = self.fresh_like(h.ghost[key[1]], 'gh_' + key[1])
                continue
            r, path = key
            nxt = []
            for h in heads:
                old = getleaf(h.roots[r], path)
                if isz(old):
                    nm = r.split('!')[0] + ''.join('.' + p for p in path)
                    new = self.fresh_like(old, nm)
                    h.roots[r] = setleaf(h.roots[r], path, new)
                    nxt.append(h)
                    if len(path) and path[-1] == 'n' and new.sort() == IntS:
                        h.assume(new >= 0, new <= 2 ** 60)
                elif isinstance(old, Iter):
                    new = Iter(old.loc, z3.Const(self.fname(r.split('!')[0] + '.it'), IntS), old.kind, old.aux)
                    h.roots[r] = setleaf(h.roots[r], path, new)
                    h.assume(new.idx >= -2 ** 62, new.idx <= 2 ** 62)
                    nxt.append(h)
                elif shapes:
                    allsh = dict(shapes)
                    if isinstance(old, Ptr):
                        allsh.setdefault(self.pshape(old), old)
                    for sh, p in allsh.items():
                        h2 = h.copy()
                        if p.loc is None:
                            np = Ptr(None)
                        else:
                            np = Ptr(Loc(p.loc.root, [x if x[0] == 'f' else ('e', z3.Const(self.fname('pidx'), x[1].sort())) for x in p.loc.path]),
                                     None if p.off is None else z3.Const(self.fname('poff'), IntS))
                        h2.roots[r] = setleaf(h2.roots[r], path, np)
                        nxt.append(h2)
                elif isinstance(old, Opaque):
                    h.roots[r] = setleaf(h.roots[r], path, Opaque(old.tag, None))
                    nxt.append(h)
                else:
                    raise Unsupported('havoc of %r' % (old,))
            heads = nxt
        # type facts of modified scalar variables
        if not self.probing:
            byroot = {}
            for vid, l in st0.env.items():
                if isinstance(l, Loc) and not l.path:
                    byroot[l.root] = vid
        return heads

    def var_types(self, st):
        """name -> (varid, type, loc) of variables in scope of current function"""
        out = {}
        for f in self.fnstack[-1:]:
            self.collect_vars(f)
        vt = self._vt
        for vid, l in st.env.items():
            if vid in vt and isinstance(l, Loc):
                out[vid] = (vt[vid][0], vt[vid][1], l)
        return out

    _vt = {}
    _vtdone = set()

    def collect_vars(self, f):
        if f['key'] in self._vtdone:
            return
        self._vtdone.add(f['key'])
        for p in f['params']:
            self._vt[p['id']] = (p['n'], p['t'])

        def walk(n):
            if isinstance(n, dict):
                if n.get('k') == 'decl':
                    for v in n['vars']:
                        if 'id' in v:
                            self._vt[v['id']] = (v['n'], v['t'])
                for x in n.values():
                    walk(x)
            elif isinstance(n, list):
                for x in n:
                    walk(x)
        walk(f['body'])

    def one_iter(self, heads, cond, body, inc):
        """run one iteration from each head: (ends, exits, others)"""
        ends, exits, others = [], [], []
        for h in heads:
            env = h.env
            for s, c in cond(h):
                for s2, side in self.branch(s, self.boolval(c)):
                    if not side:
                        s2.env = env
                        exits.append(s2)
                        continue
                    for k, s3, v in body(s2):
                        if k in ('normal', 'continue'):
                            s3.env = env
                            for s4 in (inc(s3) if inc else [s3]):
                                s4.env = env
                                ends.append((h, s4))
                        elif k == 'break':
                            s3.env = env
                            exits.append(s3)
                        else:
                            others.append((k, s3, v))
        return ends, exits, others

    def loop_key(self, lid):
        # first-visit order among the loops of the function
        q = self.fnstack[-1]['q']
        if lid not in self.loop_keys:
            k = sum(1 for x in self.loop_keys.values() if x.rsplit('#', 1)[0] == q)
            self.loop_keys[lid] = '%s#%d' % (q, k)
        return self.loop_keys[lid]

    unroll = 0

    def try_unroll(self, st0, cond, body, inc):
        """exact execution of a loop whose trip count is decided by the path facts"""
        mark, sm = len(self.obls), [list(x) for x in self.sinks]
        cur, exits, others = [st0.copy()], [], []
        for _ in range(self.unroll):
            ends, x, o = self.one_iter(cur, cond, body, inc)
            exits += x
            others += o
            cur = [s for _, s in ends]
            if not cur:
                return others + [('normal', s, None) for s in self.merge(exits)]
            if len(cur) + len(exits) > 2:
                break
        del self.obls[mark:]
        for k, x in zip(self.sinks, sm):
            k[:] = x
        return None

    def loop(self, n, st0, kind, cond, body, inc):
        if self.unroll:
            r = self.try_unroll(st0, cond, body, inc)
            if r is not None:
                return r
        lid = self.loop_id(n)
        self.loop_key(lid)
        line = n.get('line', 0)
        # 1. modified leaves (fixpoint by probing)
        mods = {k: v for k, v in self.loop_mods.get(lid, {}).items() if self.mod_alive(k, st0)}
        self.probing += 1
        saved = len(self.obls)
        try:
            for _ in range(12):
                heads = self.havoc_heads(st0, mods)
                self.sinks.append([])
                try:
                    heads0 = [h.copy() for h in heads]
                    ends, _, _ = self.one_iter2(heads, cond, body, inc)
                finally:
                    self.sinks.pop()
                grew = False
                steps = {}
                for h0, e in ends:
                    for k, sh in self.diff(h0, e).items():
                        if k[0] != 'ghost' and not k[1] and k[0] in h0.roots:
                            x, y = h0.roots[k[0]], e.roots[k[0]]
                            if isz(x) and isz(y) and x.sort() == IntS:
                                d = z3.simplify(y - x)
                                d = d.as_long() if z3.is_int_value(d) else None
                                if d is None and self.quick(e, z3.Or([y - x == c for c in (1, -1, 1 - 2**64, 2**64 - 1, 1 - 2**32, 2**32 - 1)])):
                                    d = 1
                                steps.setdefault(k[0], set()).add(d)
                        if k not in mods:
                            mods[k] = sh
                            grew = True
                        elif sh:
                            if mods[k] is None:
                                mods[k] = {}
                            for s_ in sh:
                                if s_ not in mods[k]:
                                    mods[k][s_] = sh[s_]
                                    grew = True
                if not grew:
                    break
            else:
                raise Unsupported('loop modifies fixpoint')
        finally:
            self.probing -= 1
        self.loop_mods[lid] = mods
        if self.probing:
            heads = self.havoc_heads(st0, mods)
            ends, exits, others = self.one_iter(heads, cond, body, inc)
            return others + [('normal', s, None) for s in exits]
        # 2. candidate invariants
        info = LoopInfo(self, st0, self.fnstack, line, kind, self.var_types(st0), n)
        info.mods = mods
        info.steps = {r: ds for r, ds in steps.items()}
        cands = []
        for spec in self.loop_specs:
            cands += spec(info)
        # built-in candidates: iterator bounds, unsigned counters
        cands += self.builtin_cands(info)
        lkey = self.loop_key(lid)
        self.cur_lkey = lkey
        if self.hints is not None:
            keep = {hintname(x) for x in self.hints.get(lkey, ())}
            cands = [x for x in cands if hintname(x[0]) in keep]
        okc = []
        dead = self.loop_dead.setdefault(lid, set())
        qs = []
        for nm, fn in cands:
            if nm in dead:
                continue
            try:
                g = fn(st0)
            except Unsupported:
                raise
            if g is None:
                continue
            qs.append((nm, fn, g))
        res = self.dis.batch([(st0.pc, g) for _, _, g in qs], timeout=self.to_short)
        entry = []
        for (nm, fn, g), r in zip(qs, res):
            if r[0] == 'valid':
                okc.append((nm, fn))
                entry.append((nm, g, r))
            else:
                self.drop(nm, line, 'entry', r, st0.pc, g)
        # 3. houdini
        while True:
            mark = len(self.obls)
            heads = self.havoc_heads(st0, mods)
            for h in heads:
                for nm, fn in okc:
                    h.assume(fn(h))
            heads0 = [h.copy() for h in heads]
            self.sinks.append([])
            try:
                ends, exits, others = self.one_iter2(heads, cond, body, inc)
            finally:
                sink = self.sinks.pop()
            # soundness of the modified set
            grew = False
            for h0, e in ends:
                for k, sh in self.diff(h0, e).items():
                    if k not in mods:
                        mods[k] = sh
                        grew = True
                    elif sh:
                        if mods[k] is None:
                            mods[k] = {}
                        for s_ in sh:
                            if s_ not in mods[k]:
                                mods[k][s_] = sh[s_]
                                grew = True
            if grew:
                del self.obls[mark:]
                continue
            qs = []
            for h0, e in ends:
                for nm, fn in okc:
                    qs.append((nm, e.pc, fn(e)))
            res = self.dis.batch([(pc, g) for _, pc, g in qs], timeout=self.to_short)
            bad = set()
            self.cur_lkey = lkey
            for (nm, pc, g), r in zip(qs, res):
                if r[0] != 'valid':
                    if nm not in bad:
                        self.drop(nm, line, 'preservation', r, pc, g)
                    bad.add(nm)
            if not bad:
                for nm, g, r in entry:
                    if nm in {x for x, _ in okc}:
                        o = Obl('invariant %s holds on entry' % nm, st0.pc, g, line, self.fnstack[0]['q'])
                        o.status, o.backend, o.t = r[0], r[1], r[2]
                        o.inv = (lkey, nm)
                        self.obls.append(o)
                for (nm, pc, g), r in zip(qs, res):
                    o = Obl('invariant %s preserved' % nm, pc, g, line, self.fnstack[0]['q'])
                    o.status, o.backend, o.t = r[0], r[1], r[2]
                    self.obls.append(o)
                break
            del self.obls[mark:]
            okc = [(nm, fn) for nm, fn in okc if nm not in bad]
        self.sinks[-1].extend(sink)
        return others + [('normal', s, None) for s in self.merge(exits)]

    def one_iter2(self, heads, cond, body, inc):
        """as one_iter, but pairs ends with pristine copies of the heads"""
        ends, exits, others = [], [], []
        for h in heads:
            h0 = h.copy()
            e, x, o = self.one_iter([h], cond, body, inc)
            ends += [(h0, s) for _, s in e]
            exits += x
            others += o
        return ends, exits, others

    def mod_alive(self, k, st):
        if k[0] == 'ghost':
            return k[1] in st.ghost
        if k[0] not in st.roots:
            return False
        v = st.roots[k[0]]
        try:
            getleaf(v, k[1])
            return True
        except Exception:
            return False

    def drop(self, nm, line, when, r, pc=None, g=None):
        self.dropped.append((self.fnstack[-1]['q'] if self.fnstack else '', line, nm, when, r[0], self.cur_lkey))
        d = os.environ.get('CPPVC_DUMP')
        if d and re.search(d, nm) and pc is not None and not os.path.exists('/tmp/dump.smt2'):
            sv = z3.Solver()
            sv.add(*pc)
            sv.add(z3.Not(g))
            open('/tmp/dump.smt2', 'w').write(sv.to_smt2())
        if self.verbose:
            print('   drop', nm, 'line', line, when, r[0], '%.1fs' % r[2], r[3][:80] if r[3] else '')

    def builtin_cands(self, info):
        """bounds of iterators and counters modified by the loop"""
        out = []
        mods = info.mods
        rootvar = {}
        for vid, (nm, ty, l) in info.vars.items():
            if not l.path:
                rootvar[l.root] = (nm, ty, l)
        st0 = info.st0
        its = []
        for key in mods:
            if key[0] == 'ghost':
                continue
            r, path = key
            v0 = getleaf(st0.roots[r], path)
            if isinstance(v0, Iter) and v0.kind in ('seq', 'enum'):
                # lower bound: entry value
                def lb(st, r=r, path=path, v0=v0):
                    return getleaf(st.roots[r], path).idx >= v0.idx
                out.append(('%s>=begin' % r.split('!')[0], lb))

                def ub(st, r=r, path=path, v0=v0):
                    e = self.iter_end(st, v0)
                    return None if e is None else getleaf(st.roots[r], path).idx <= e
                out.append(('%s<=end' % r.split('!')[0], ub))
            elif isz(v0) and v0.sort() == IntS and not path and r in rootvar:
                nm, ty, l = rootvar[r]
                t = self.ir.T(self.strip(ty))
                if t['k'] == 'int':
                    lo, hi = self.irange(ty)
                    out.append(('%s in range' % nm, lambda st, r=r, lo=lo, hi=hi: z3.And(st.roots[r] >= lo, st.roots[r] <= hi)))
                    out.append(('%s>=init' % nm, lambda st, r=r, v0=v0: st.roots[r] >= v0))
                    if info.steps.get(r) != {1}:
                        out.append(('%s<=init' % nm, lambda st, r=r, v0=v0: st.roots[r] <= v0))
            elif isz(v0) and v0.sort() == StrS and not path and r in rootvar:
                out.append(('size of %s' % rootvar[r][0], lambda st, r=r, v0=v0: slen(st.roots[r]) == slen(v0)))
        # upper bounds from the loop condition:  i < X  with X unmodified
        out += self.cond_cands(info)
        return out

    def iter_end(self, st, it):
        if it.kind == 'seq':
            c = self.read(st, it.loc)
            if isinstance(c, Node) and c.kind == 'seq':
                return (c['lo'] + c['n']) if 'lo' in c.ch else c['n']
            if isinstance(c, Node) and c.kind == 'arr':
                return z3.IntVal(self.arr_n(c.ty))
            return None
        return it.aux.end(self, st, it) if hasattr(it.aux, 'end') else None

    def cond_cands(self, info):
        n = info.node
        c = n.get('c') if isinstance(n, dict) else None
        out = []

        def walk(e):
            if not isinstance(e, dict):
                return
            if e.get('k') == 'bin' and e.get('op') in ('<', '!=', '<='):
                for a, b, sgn in ((e['a'], e['b'], 1),):
                    out.append((e['op'], a, b))
            for k in ('a', 'b', 'e'):
                if isinstance(e.get(k), dict):
                    walk(e[k])
        if c:
            walk(c)
        res = []
        for op, a, b in out:
            def f(st, a=a, b=b, op=op):
                s = st.copy()
                self.probing += 1
                self.sinks.append([])
                try:
                    ra = self.rv(a, s)
                    rb = self.rv(b, s.copy())
                    if len(ra) != 1 or len(rb) != 1:
                        return None
                    x, y = ra[0][1], rb[0][1]
                    if not (isz(x) and isz(y) and x.sort() == IntS):
                        return None
                    return x <= (y + 1 if op == '<=' else y)
                except Unsupported:
                    return None
                finally:
                    self.sinks.pop()
                    self.probing -= 1
            res.append(('cond bound line %s %s' % (n.get('line'), op), f))
        return res

    # --------------------------------------------------------- verification
    def verify(self, f, contract):
        """generate all obligations of function f against its contract"""
        st = State()
        self.fnstack = [f]
        env = {}
        this = None
        if 'cls' in f and not f.get('static') and not f.get('lambda'):
            v = self.fresh(f['cls'], 'this')
            st.roots['this'] = v
            this = Loc('this')
            env['this'] = this
            self.type_facts(st, f['cls'], v)
        args = []
        for p in f['params']:
            t = self.ir.T(p['t'])
            a = contract.make_param(self, st, p, f)
            if isinstance(a, Loc) and t['k'] == 'ref':
                env[p['id']] = a
                args.append(a)
            else:
                l = Loc('p_' + (p['n'] or 'anon%d' % len(args)))
                st.roots[l.root] = a
                self.type_facts(st, p['t'], a)
                env[p['id']] = l
                args.append(a)
        st.env = env
        contract.setup(self, st, this, args)
        results = []
        variants = contract.variants(self, st, this, args, f)
        for vst in variants:
            pre0 = vst.copy()
            ctx = Ctx(self, pre0, vst, this, args, fn=f)
            for nme, g in contract.requires(ctx):
                vst.assume(g)
            pre = vst.copy()
            self.loop_specs = [contract.loops] if contract.loops else []
            self.cover_pre = pre
            contract.pre_state = pre
            contract.cur_args, contract.cur_this = args, this
            outs = self.run_body(f, vst)
            nret = nthrow = 0
            for k, s, v in outs:
                c2 = Ctx(self, pre, s, this, args, res=v, fn=f)
                if k == 'throw':
                    nthrow += 1
                    contract.post(c2, True)
                    e = contract.ensures_throw(c2, v)
                    if e is None:
                        self.oblige(s, FALSE, 'no exception escapes')
                    else:
                        for nme, g in e:
                            self.oblige(s, g, 'exceptional postcondition: ' + nme)
                else:
                    nret += 1
                    if f.get('ctor') is None and self.ir.T(f['ret'])['k'] != 'void':
                        if isinstance(v, Loc) and self.ir.T(f['ret'])['k'] != 'ref':
                            c2.res = self.read(s, v)
                    contract.post(c2)
                    for nme, g in contract.ensures(c2):
                        self.oblige(s, g, 'postcondition: ' + nme)
                    for nme, g in contract.frame(c2):
                        self.oblige(s, g, 'frame: ' + nme)
            results.append((pre, outs, nret, nthrow))
        self.fnstack = []
        return results


class FnContract:
    """base class for contracts"""
    name = ''
    mod = None               # list of this-leaf prefixes that may be modified (None = all)
    ghosts = ()

    def __init__(self, name=None):
        if name:
            self.name = name

    def applies(self, eng, e, obj, args):
        return True

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def ensures_throw(self, c, exc):
        return None

    def make_param(self, eng, st, p, f):
        t = eng.ir.T(p['t'])
        if t['k'] == 'ref':
            v = eng.fresh(p['t'], p['n'] or 'p')
            eng.type_facts(st, p['t'], v)
            l = Loc('pr_' + (p['n'] or 'anon%d' % next(eng.cnt)))
            st.roots[l.root] = v
            return l
        return eng.fresh(p['t'], p['n'] or 'p')

    def setup(self, eng, st, this, args):
        pass

    def post(self, c, throw=False):
        """choose the ghost state after the call (verification only)"""

    def variants(self, eng, st, this, args, f):
        return [st]

    loops = None

    def leaf_allowed(self, path):
        if self.mod is None:
            return True
        s = '.'.join(p for p in path if p != 'el')
        return any(s == m or s.startswith(m + '.') for m in self.mod)

    def frame(self, c):
        out = []
        if c.thisloc is None or self.mod is None:
            return out
        a, b = c.pre.roots.get('this'), c.st.roots.get('this')
        if a is None:
            return out
        mods = {}
        c.eng.diffv('this', a, b, (), mods)
        for (r, path) in mods:
            if not self.leaf_allowed(path):
                x, y = getleaf(a, path), getleaf(b, path)
                if isz(x) and isz(y):
                    out.append(('%s unchanged' % '.'.join(path), x == y))
                else:
                    out.append(('%s unchanged' % '.'.join(path), FALSE))
        return out

    def havoc(self, eng, c):
        """called at call sites: havoc what may be modified"""
        if c.thisloc is not None and (self.mod is None or self.mod):
            v = eng.read(c.st, c.thisloc)

            def go(v, path):
                if isinstance(v, Node):
                    return Node(v.kind, v.ty, {k: go(x, path + (k,)) for k, x in v.ch.items()})
                if isz(v) and self.leaf_allowed(path):
                    return eng.fresh_like(v, 'hv_' + '_'.join(path))
                return v
            eng.write(c.st, c.thisloc, go(v, ()), hook=False)
        for g in self.ghosts:
            if g in c.st.ghost:
                c.st.ghost[g] = eng.fresh_like(c.st.ghost[g], 'gh_' + g)
        self.havoc_extra(eng, c)

    def havoc_extra(self, eng, c):
        pass
