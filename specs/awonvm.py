"""contracts: append-only file vector (P14)

Ghost state of the one file behind the vector: f_val (byte offset -> the
element stored there), f_wr (offset -> has an element been stored there),
f_len, fd_live (descriptor -> open), pend_w / pend_r (asynchronous writes /
reads accepted and not waited for), live (heap buffer -> allocated), nlive."""
import z3
from cppvc import *
from unit import Unit
from models import M, val, ignore, simp
import bytesm
from bytesm import bytes_of, store_bytes, enc
I = z3.IntVal
AI, AB, AS = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, StrS)
reqidx = z3.Function('reqidx', IntS, IntS)       # callback -> index it asked for
SCHED = Loc('sched')
TSIZE = {8: 8, 512: 512}
G = lambda st, n: st.ghost[n]


def setup_ghosts(eng, st):
    g = st.ghost
    g['f_val'] = z3.Const('f_val', AS)
    g['f_wr'] = z3.Const('f_wr', AB)
    g['f_len'] = z3.Const('f_len', IntS)
    g['fd_live'] = z3.Const('fd_live', AB)
    g['pend_w'] = z3.Const('pend_w', BoolS)
    g['pend_r'] = z3.Const('pend_r', BoolS)
    g['live'] = z3.K(IntS, FALSE)
    g['nlive'] = I(0)
    g['wfail'] = FALSE           # some write or resize of the file failed during the call
    g['called'] = I(0)           # callbacks made
    g['lastcb'] = I(-1)
    g['submits'] = I(0)
    g['accepted'] = I(0)
    g['complete'] = FALSE
    st.assume(g['f_len'] >= 0, g['f_len'] < 2 ** 60)
    st.roots['sched'] = Opaque('scheduler')


def S(eng):
    return eng.elemsize


def bufid(eng, p, line):
    if isz(p) and p.sort() == IntS:
        return p
    if isinstance(p, Ptr) and p.loc is not None and p.loc.root.startswith('hbuf') and not p.loc.path:
        return z3.Int('id_' + p.loc.root)
    raise Unsupported('buffer %r (line %s)' % (p, line))


def errno_result(eng, st, nm, lo=-1, hi=None):
    r = z3.Const(eng.fname(nm), IntS)
    st.assume(r >= lo)
    if hi is not None:
        st.assume(r <= hi)
    return r


def posix_memalign(eng, st, e, o, a):
    p, n = val(eng, st, a[0]), val(eng, st, a[2])
    out = []
    b = st.copy()
    r = z3.Const(eng.fname('memalign'), IntS)
    b.assume(r != 0)
    out.append((b, r))
    b = st
    i = next(eng.cnt)
    root = 'hbuf%d' % i
    s = z3.Const(eng.fname('buf'), StrS)
    b.assume(slen(s) == n)
    b.roots[root] = s
    i = z3.Int('id_' + root)
    b.assume(i >= 0, z3.Not(Sel(b.ghost['live'], i)))
    b.ghost['live'] = z3.Store(b.ghost['live'], i, TRUE)
    b.ghost['nlive'] = simp(b.ghost['nlive'] + 1)
    eng.write(b, p.loc, Ptr(Loc(root), I(0)))
    out.append((b, I(0)))
    return out


def free(eng, st, e, o, a):
    p = val(eng, st, a[0])
    if isinstance(p, Ptr) and p.loc is None:
        return [(st, None)]
    i = bufid(eng, p, e['line'])
    eng.oblige(st, Sel(st.ghost['live'], i), 'a buffer is freed once', e['line'])
    st.ghost['live'] = z3.Store(st.ghost['live'], i, FALSE)
    st.ghost['nlive'] = simp(st.ghost['nlive'] - 1)
    return [(st, None)]


def io_common(eng, st, fd, ln, off, e):
    eng.oblige(st, z3.And(fd >= 0, Sel(st.ghost['fd_live'], fd)), 'the file descriptor is open', e['line'])
    eng.oblige(st, ln == S(eng), 'a whole element is transferred', e['line'])
    eng.oblige(st, z3.And(off >= 0, off % S(eng) == 0), 'the offset is that of an element', e['line'])


def do_write(eng, st, b, off, ln):
    g = st.ghost
    g['f_val'] = z3.Store(g['f_val'], off, b)
    g['f_wr'] = z3.Store(g['f_wr'], off, TRUE)
    g['f_len'] = z3.If(g['f_len'] >= off + ln, g['f_len'], off + ln)


def pwrite(eng, st, e, o, a):
    fd, ln, off = (val(eng, st, a[i]) for i in (0, 2, 3))
    b = bytes_of(eng, st, val(eng, st, a[1]), ln, e, 'pwrite')
    io_common(eng, st, fd, ln, off, e)
    eng.oblige(st, z3.Not(Sel(st.ghost['f_wr'], off)), 'no element is overwritten', e['line'])
    out = []
    s = st.copy()
    r = errno_result(eng, s, 'pwrite', -1)
    s.assume(r < ln)
    s.ghost['wfail'] = TRUE
    out.append((s, r))
    do_write(eng, st, b, off, ln)
    out.append((st, ln))
    return out


def pread(eng, st, e, o, a):
    fd, ln, off = (val(eng, st, a[i]) for i in (0, 2, 3))
    io_common(eng, st, fd, ln, off, e)
    eng.oblige(st, z3.Not(st.ghost['pend_w']), 'nothing is read while writes are under way', e['line'])
    p = val(eng, st, a[1])
    out = []
    s = st.copy()
    r = errno_result(eng, s, 'pread', -1)
    s.assume(r < ln)
    out.append((s, r))
    b = Sel(st.ghost['f_val'], off)
    st.assume(slen(b) == S(eng), st.ghost['f_len'] >= off + ln)
    store_bytes(eng, st, p, b, ln, e)
    out.append((st, ln))
    return out


def ftruncate(eng, st, e, o, a):
    fd, n = val(eng, st, a[0]), val(eng, st, a[1])
    eng.oblige(st, z3.And(fd >= 0, Sel(st.ghost['fd_live'], fd)), 'the file descriptor is open', e['line'])
    out = []
    s = st.copy()
    r = errno_result(eng, s, 'ftruncate', -1)
    s.assume(r != 0)
    s.ghost['wfail'] = TRUE
    out.append((s, r))
    x = z3.Int('x!tr')
    eng.oblige(st, z3.ForAll([x], z3.Implies(Sel(st.ghost['f_wr'], x), x + S(eng) <= n)), 'resizing the file keeps every element', e['line'])
    st.ghost['f_len'] = n
    out.append((st, I(0)))
    return out


def close(eng, st, e, o, a):
    fd = val(eng, st, a[0])
    eng.oblige(st, Sel(st.ghost['fd_live'], fd), 'a file descriptor is closed once', e['line'])
    eng.oblige(st, z3.And(z3.Not(st.ghost['pend_w']), z3.Not(st.ghost['pend_r'])), 'the file is closed when no request is under way', e['line'])
    st.ghost['fd_live'] = z3.Store(st.ghost['fd_live'], fd, FALSE)
    return [(st, errno_result(eng, st, 'close'))]


def fsync(eng, st, e, o, a):
    return [(st, errno_result(eng, st, 'fsync'))]


def open_fd(eng, st, e, o, a):
    eng.assumptions.add('file system contract: open_fd throws or returns an unused descriptor of the file; pread/pwrite transfer whole elements or report less; ftruncate sets the length or fails')
    s = st.copy()
    eng.sinks[-1].append((s, Opaque('exc', 'open_fd')))
    fd = z3.Const(eng.fname('fd'), IntS)
    st.assume(fd >= 0, fd < 2 ** 31, z3.Not(Sel(st.ghost['fd_live'], fd)))
    st.ghost['fd_live'] = z3.Store(st.ghost['fd_live'], fd, TRUE)
    return [(st, fd)]


def file_size(eng, st, e, o, a):
    fd = val(eng, st, a[0])
    eng.oblige(st, z3.And(fd >= 0, Sel(st.ghost['fd_live'], fd)), 'the file descriptor is open', e['line'])
    s = st.copy()
    eng.sinks[-1].append((s, Opaque('exc', 'file_size')))
    return [(st, st.ghost['f_len'])]


def page_size(eng, st, e, o, a):
    r = z3.Const(eng.fname('page'), IntS)
    st.assume(r >= 0, r < 2 ** 32)
    return [(st, r)]


def new_sched(eng, st, e, o, a):
    return [(st, Ptr(SCHED))]


def wait(eng, st, e, o, a):
    eng.assumptions.add('I/O scheduler contract (P23): an accepted request calls back once with the number of bytes transferred, a rejected one never; wait_completions returns when all accepted requests have called back; an accepted write stores its buffer')
    st.ghost['pend_w'] = FALSE
    st.ghost['pend_r'] = FALSE
    return [(st, None)]


def callback(eng, st, cb, data, res, e):
    c0 = st.ghost['called']
    return eng.call_value(st, cb, [data, res], e)


def submit_pwrite(eng, st, e, o, a):
    fd, ln, off = (val(eng, st, a[i]) for i in (0, 2, 3))
    buf, data, cb = val(eng, st, a[1]), val(eng, st, a[4]), val(eng, st, a[5])
    b = bytes_of(eng, st, buf, ln, e, 'pwrite')
    io_common(eng, st, fd, ln, off, e)
    eng.oblige(st, z3.Not(Sel(st.ghost['f_wr'], off)), 'no element is overwritten', e['line'])
    eng.oblige(st, Sel(st.ghost['live'], bufid(eng, buf, e['line'])), 'the buffer written is allocated', e['line'])
    s = st.copy()
    r = z3.Const(eng.fname('submit'), IntS)
    s.assume(r != 1)
    s.ghost['wfail'] = TRUE
    out = [(s, r)]
    do_write(eng, st, b, off, ln)
    st.ghost['pend_w'] = TRUE
    r = z3.Const(eng.fname('wres'), IntS)
    for s2, _ in callback(eng, st, cb, data, r, e):
        out.append((s2, I(1)))
    return out


def completion(eng, st, buf, ln, off, data, cb, e):
    """both ways an accepted read can complete"""
    out = []
    for full in (True, False):
        s = st.copy()
        r = z3.Const(eng.fname('rres'), IntS)
        if full:
            s.assume(r == ln)
            b = Sel(s.ghost['f_val'], off)
            s.assume(slen(b) == S(eng))
        else:
            s.assume(r != ln, r >= -2 ** 31, r < 2 ** 62)
            b = z3.Const(eng.fname('junk'), StrS)
            s.assume(slen(b) == S(eng))
        eng.write(s, buf.loc, b)
        s.ghost['complete'] = z3.BoolVal(full)
        c0 = s.ghost['called']
        for s2, _ in callback(eng, s, cb, data, r, e):
            eng.oblige(s2, s2.ghost['called'] == c0 + 1, 'a completed read calls the user back exactly once', e['line'])
            out.append(s2)
    return out


def submit_pread(eng, st, e, o, a):
    fd, ln, off = (val(eng, st, a[i]) for i in (0, 2, 3))
    buf, data, cb = val(eng, st, a[1]), val(eng, st, a[4]), val(eng, st, a[5])
    io_common(eng, st, fd, ln, off, e)
    eng.oblige(st, z3.Not(st.ghost['pend_w']), 'nothing is read while writes are under way', e['line'])
    eng.oblige(st, Sel(st.ghost['live'], bufid(eng, buf, e['line'])), 'the buffer read into is allocated', e['line'])
    s = st.copy()
    r = z3.Const(eng.fname('submit'), IntS)
    s.assume(r != 1)
    out = [(s, r)]
    st.ghost['pend_r'] = TRUE
    for s2 in completion(eng, st, buf, ln, off, data, cb, e):
        out.append((s2, I(1)))
    return out


# a batch of reads: the completion of every request is examined when it is
# prepared; PReadSumission stands for (buffer, user callback)
SUB = 'sse::abstractio::Scheduler::PReadSumission'


def presub_fresh(eng, ty, name, dims):
    return Node('rec', ty, {k: z3.Const(eng.fname(name + '.' + k), eng.arrsort(dims, IntS)) for k in ('buf', 'cb')})


def presub_ctor(eng, st, e, ty, a):
    if len(a) == 1:
        return [(st, val(eng, st, a[0]))]
    fd, buf, ln, off, data, cb = [val(eng, st, x) for x in a]
    io_common(eng, st, fd, ln, off, e)
    eng.oblige(st, Sel(st.ghost['live'], bufid(eng, buf, e['line'])), 'the buffer read into is allocated', e['line'])
    who = None
    for s in completion(eng, st.copy(), buf, ln, off, data, cb, e):
        if who is None:
            who = s.ghost['lastcb']
        eng.oblige(s, s.ghost['lastcb'] == who, 'one user callback per request', e['line'])
    return [(st, Node('rec', ty, {'buf': bufid(eng, buf, e['line']), 'cb': who}))]


def submit_preads(eng, st, e, o, a):
    eng.assumptions.add('Scheduler::submit_preads accepts the first r requests and returns r, or none and returns a negative code (base class under contract in P23)')
    subs = eng.read(st, a[0])
    reqs = eng.read(eng.con_pre, Loc('pr_requests'))
    n = subs['n']
    j = z3.Int('j!sp')
    eng.oblige(st, z3.Not(st.ghost['pend_w']), 'nothing is read while writes are under way', e['line'])
    eng.oblige(st, n == reqs['n'], 'every request is submitted', e['line'])
    eng.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(Sel(subs['el']['cb'], j) == Sel(reqs['el']['callback'], j), Sel(st.ghost['live'], Sel(subs['el']['buf'], j))))),
               'requests are submitted once, each with its own callback and a buffer', e['line'])
    r = z3.Const(eng.fname('submit'), IntS)
    st.assume(r >= -2 ** 31, r < 2 ** 31, r <= n)
    live = z3.Const(eng.fname('live'), AB)
    k = z3.Int('k!sp')
    acc = z3.If(r < 0, I(0), r)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= acc, j < n), Sel(live, Sel(subs['el']['buf'], j))), patterns=[Sel(subs['el']['buf'], j)]),
              z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < acc), z3.Not(Sel(live, Sel(subs['el']['buf'], j)))), patterns=[Sel(subs['el']['buf'], j)]))
    st.ghost['live'] = live
    st.ghost['nlive'] = st.ghost['nlive'] - acc
    st.ghost['pend_r'] = TRUE
    st.ghost['submits'] = st.ghost['submits'] + 1
    st.ghost['accepted'] = acc
    return [(st, r)]


def user_callback(eng, st, e, f, args):
    """call of the callback f (an identifier) with a unique_ptr to the element"""
    p = val(eng, st, args[0])
    ix = reqidx(f)
    full = st.ghost['complete']
    if isinstance(p, Ptr) and p.loc is None:
        eng.oblige(st, z3.Not(full), 'a complete read delivers the element', e['line'])
    else:
        i = bufid(eng, p, e['line'])
        eng.oblige(st, Sel(st.ghost['live'], i), 'the element delivered is allocated', e['line'])
        eng.oblige(st, full, 'only complete reads deliver an element', e['line'])
        eng.oblige(st, eng.read(st, p.loc) == Sel(st.ghost['f_val'], ix * S(eng)), 'the element delivered is the one at the index asked for', e['line'])
        st.ghost['live'] = z3.Store(st.ghost['live'], i, FALSE)     # owned by the user now
        st.ghost['nlive'] = simp(st.ghost['nlive'] - 1)
    st.ghost['called'] = simp(st.ghost['called'] + 1)
    st.ghost['lastcb'] = f
    return [(st, None)]


def fn_call(eng, st, e, o, a):
    f = eng.read(st, o)
    if isz(f):
        return user_callback(eng, st, e, f, a)
    return eng.call_value(st, f, a, e)


def fn_ctor(eng, st, e, ty, a):
    return [(st, val(eng, st, a[0]))]


def capture_ok(eng, st, e, o, a):
    return ignore(eng, st, e, o, a)


# unique_ptr
def up_ctor(eng, st, e, ty, a):
    if not a:
        return [(st, Ptr(None))]
    v = val(eng, st, a[0])
    if isinstance(v, (Ptr,)):
        if isinstance(a[0], Loc) and eng.shape(e['t']) == 'uptr' and (e.get('move') or movefrom(eng, e)):
            eng.write(st, a[0], Ptr(None))
        return [(st, v)]
    if v is None or isinstance(v, Opaque) and 'null' in v.tag:
        return [(st, Ptr(None))]
    raise Unsupported('unique_ptr constructor')


def movefrom(eng, e):
    """is the constructor argument itself a unique_ptr (move construction)?"""
    t = eng.ir.T(eng.strip(e['args'][0]['t'])) if e['args'] and 't' in e['args'][0] else None
    return t is not None and t.get('q') == 'std::unique_ptr'


def up_reset(eng, st, e, o, a):
    old = eng.read(st, o)
    if eng.ir.T(eng.strip(e['cls']))['args'][0]['t'] is not None and isinstance(old, Ptr) and old.loc is not None:
        if same(old.loc, SCHED):
            wait(eng, st, e, o, a)       # the scheduler's destructor waits
        else:
            free(eng, st, e, None, [old])
    eng.write(st, o, val(eng, st, a[0]) if a else Ptr(None))
    return [(st, None)]


def up_release(eng, st, e, o, a):
    v = eng.read(st, o)
    eng.write(st, o, Ptr(None))
    return [(st, v)]


def up_get(eng, st, e, o, a):
    v = eng.read(st, o)
    if isinstance(v, Ptr) and v.loc is None and normq(e['q']).endswith('->'):
        eng.oblige(st, FALSE, 'null dereference', e['line'])
        return []
    return [(st, v)]


def up_bool(eng, st, e, o, a):
    v = eng.read(st, o)
    if not isinstance(v, Ptr):
        raise Unsupported('unique_ptr test')
    return [(st, z3.BoolVal(v.loc is not None))]


def up_assign(eng, st, e, o, a):
    v = val(eng, st, a[0])
    old = eng.read(st, o)
    if isinstance(old, Ptr) and old.loc is not None and same(old.loc, SCHED):
        wait(eng, st, e, o, a)
    if isinstance(a[0], Loc):
        eng.write(st, a[0], Ptr(None))
    eng.write(st, o, v if isinstance(v, Ptr) else Ptr(None))
    return [(st, o)]


def boolres(eng, st, e, o, a):
    return [(st, z3.Const(eng.fname('aligned'), BoolS))]


OV = {
    'posix_memalign': posix_memalign, 'free': free, 'std::free': free, 'pwrite': pwrite, 'pread': pread, 'ftruncate': ftruncate, 'close': close, 'fsync': fsync,
    'sse::utility::open_fd': open_fd, 'sse::utility::file_size': file_size, 'sse::utility::is_aligned': boolres,
    'sse::abstractio::Scheduler::async_io_page_size': page_size, 'sse::abstractio::make_default_aio_scheduler': new_sched,
    'sse::abstractio::Scheduler::duplicate': new_sched, 'sse::abstractio::Scheduler::wait_completions': wait,
    'sse::abstractio::Scheduler::submit_pwrite': submit_pwrite, 'sse::abstractio::Scheduler::submit_pread': submit_pread,
    'sse::abstractio::Scheduler::submit_preads': submit_preads,
    'std::function::operator()': fn_call,
    'std::unique_ptr::operator->': up_get, 'std::unique_ptr::operator*': up_get, 'std::unique_ptr::get': up_get, 'std::unique_ptr::reset': up_reset,
    'std::unique_ptr::release': up_release, 'std::unique_ptr::operator bool': up_bool, 'std::unique_ptr::operator=': up_assign,
    '__errno_location': lambda eng, st, e, o, a: [(st, Ptr(eng.new_root(st, z3.Const(eng.fname('errno'), IntS), 'errno')))],
    'strerror': ignore,
}


def conf(big):
    def go(eng):
        eng.elemsize = 512 if big else 8
        eng.special_types = {'std::function': 'fnid', SUB: 'presub'}
        eng.special_sorts = {'fnid': IntS}
        eng.special_fresh = {'presub': presub_fresh}
        eng.models = dict(eng.models)
        eng.models['std::function::(ctor)'] = fn_ctor
        eng.models['std::unique_ptr::(ctor)'] = up_ctor
        eng.models[SUB + '::(ctor)'] = presub_ctor
        eng.overrides.update(OV)
    return go


# ---------------------------------------------------------------- contracts
def fields(eng, st, l):
    v = eng.read(st, l)
    return v['m_size'], v['m_is_committed'], v['m_fd'], v['m_io_scheduler']


class Vec(FnContract):
    mod = None
    throws = True

    def __init__(self, fn, big):
        self.fn, self.big = fn, big
        self.name = 'sse::abstractio::awonvm_vector::' + fn

    def inv(self, eng, st, l):
        sz, com, fd, sch = fields(eng, st, l)
        g = st.ghost
        x = z3.Int('x!iv')
        nosch = isinstance(sch, Ptr) and sch.loc is None
        out = [('the size is that of a file', z3.And(sz >= 0, sz < 2 ** 50)),
               ('a committed vector has no write under way', z3.Implies(com, z3.Not(g['pend_w']))),
               ('the vector owns its file descriptor', z3.And(fd >= 0, Sel(g['fd_live'], fd))),
               ('nothing is stored at or beyond the size', z3.ForAll([x], z3.Implies(x >= sz * S(eng), z3.Not(Sel(g['f_wr'], x))))),
               ('elements are stored at element offsets', z3.ForAll([x], z3.Implies(Sel(g['f_wr'], x), z3.And(x >= 0, x % S(eng) == 0))))]
        if nosch:
            out.append(('no request is under way without a scheduler', z3.And(z3.Not(g['pend_w']), z3.Not(g['pend_r']))))
        return out

    def setup(self, eng, st, this, args):
        setup_ghosts(eng, st)

    def variants(self, eng, st, this, args, f):
        out = []
        for sch in (SCHED, None):
            s = st.copy()
            self.set_sched(eng, s, this, args, Ptr(sch))
            out.append(s)
        return out

    def set_sched(self, eng, s, this, args, p):
        eng.write(s, this.f('m_io_scheduler'), p, hook=False)

    def requires(self, c):
        sz = fields(c.eng, c.pre, c.thisloc)[0]
        out = self.inv(c.eng, c.pre, c.thisloc) + [('', sz < 2 ** 49)]
        if self.fn == 'reserve':
            out.append(('the size reserved is that of a file', c.arg(0) < 2 ** 49))
        return out

    def same_file(self, c, but=None):
        g, h = c.pre.ghost, c.st.ghost
        x = z3.Int('x!sf')
        cond = z3.BoolVal(True) if but is None else x != but
        return z3.ForAll([x], z3.Implies(cond, z3.And(Sel(h['f_val'], x) == Sel(g['f_val'], x), Sel(h['f_wr'], x) == Sel(g['f_wr'], x))))

    def noleak(self, c):
        return ('no buffer is leaked', c.st.ghost['nlive'] == 0)

    def ensures(self, c):
        eng, st = c.eng, c.st
        sz, com, fd, sch = fields(eng, st, c.thisloc)
        sz0, com0, fd0, sch0 = fields(eng, c.pre, c.thisloc)
        h = st.ghost
        fn = self.fn
        out = self.inv(eng, st, c.thisloc)
        same = ('the elements stored do not change', self.same_file(c))
        if fn in ('push_back', 'async_push_back'):
            v = c.args[0]
            b = enc(eng, st, c.fn['params'][0]['t'], eng.read(c.pre, v))
            return out + [('positions are consecutive', z3.And(c.res == sz0, sz == sz0 + 1)), ('appended before commit only', z3.And(z3.Not(com0), z3.Not(com))),
                          ('the element is stored at its position', z3.And(Sel(h['f_wr'], sz0 * S(eng)), Sel(h['f_val'], sz0 * S(eng)) == b)),
                          ('no other element changes', self.same_file(c, sz0 * S(eng))), self.noleak(c)]
        if fn == 'get':
            b = enc(eng, st, c.fn['ret'], c.res if not isinstance(c.res, Loc) else eng.read(st, c.res))
            i = c.arg(0)
            return out + [same, ('only positions below the size are read', i < sz0), ('only committed vectors are read', com0),
                          ('the element read is the one stored', b == Sel(h['f_val'], i * S(eng))), ('size and state unchanged', z3.And(sz == sz0, com == com0))]
        if fn == 'async_get':
            i = c.arg(0)
            return out + [same, ('only positions below the size are read', i < sz0), ('only committed vectors are read', com0),
                          ('the callback given is called exactly once', z3.And(h['called'] == 1, h['lastcb'] == c.arg(1))),
                          self.noleak(c), ('size and state unchanged', z3.And(sz == sz0, com == com0))]
        if fn == 'commit':
            return out + [same, ('the vector is committed', com), ('the size is unchanged', sz == sz0),
                          ('the length of the file is that of the elements', z3.Implies(z3.And(z3.Not(com0), z3.Not(h['wfail'])), h['f_len'] == sz * S(eng)))]
        if fn == 'reserve':
            return out + [same, ('size and state unchanged', z3.And(sz == sz0, com == com0))]
        if fn == 'set_use_direct_access':
            return out + [same, ('size and state unchanged', z3.And(sz == sz0, com == com0)),
                          ('the flag is set', eng.read(st, c.thisloc)['m_use_direct_io'] == c.arg(0)),
                          ('a scheduler stays a scheduler', z3.BoolVal((sch.loc is None) == (sch0.loc is None)))]
        raise Unsupported(fn)

    def ensures_throw(self, c, exc):
        """a rejected or failed call stores nothing"""
        eng, st = c.eng, c.st
        sz, com, fd, sch = fields(eng, st, c.thisloc)
        sz0, com0, fd0, sch0 = fields(eng, c.pre, c.thisloc)
        h = st.ghost
        fn = self.fn
        if fn == 'set_use_direct_access':
            return [('the elements stored do not change', self.same_file(c))]
        if fn in ('commit', 'reserve'):
            return None
        nosch = sch0.loc is None
        out = self.inv(eng, st, c.thisloc) + [('the elements stored do not change', self.same_file(c)), self.noleak(c), ('the state is unchanged', com == com0)]
        if fn in ('push_back', 'async_push_back'):
            out += [('a rejected append leaves the size alone', z3.Implies(com0, sz == sz0)), ('a failed append uses up at most one position', z3.And(sz >= sz0, sz <= sz0 + 1))]
        else:
            out += [('the size is unchanged', sz == sz0), ('no callback is made', h['called'] == 0)]
        return out


class AppendRejected(Vec):
    pass


class Ctor(Vec):
    def set_sched(self, eng, s, this, args, p):
        if len(args) == 3:
            eng.write(s, args[1], p, hook=False)

    def variants(self, eng, st, this, args, f):
        return super().variants(eng, st, this, args, f) if len(args) == 3 else [st]

    def requires(self, c):
        g = c.pre.ghost
        x = z3.Int('x!c')
        return [('no request is under way', z3.And(z3.Not(g['pend_w']), z3.Not(g['pend_r']))),
                ('the file holds what a vector stored in it', z3.ForAll([x], z3.Implies(Sel(g['f_wr'], x), z3.And(x >= 0, x + S(c.eng) <= g['f_len'], x % S(c.eng) == 0)))),
                ('the file is a whole number of elements', z3.And(g['f_len'] % S(c.eng) == 0, g['f_len'] < 2 ** 52))]

    def ensures(self, c):
        eng, st = c.eng, c.st
        sz, com, fd, sch = fields(eng, st, c.thisloc)
        g = c.pre.ghost
        return self.inv(eng, st, c.thisloc) + [
            ('the elements stored do not change', self.same_file(c)), ('the file does not change', st.ghost['f_len'] == g['f_len']),
            ('a file with elements opens committed, an empty one does not', com == (g['f_len'] > 0)),
            ('the size is the number of elements in the file', sz * S(eng) == g['f_len'])]

    def ensures_throw(self, c, exc):
        return [('the elements stored do not change', self.same_file(c))]


class Move(Vec):
    def src(self, c):
        return c.args[0]

    def set_sched(self, eng, s, this, args, p):
        eng.write(s, args[0].f('m_io_scheduler'), p, hook=False)

    def requires(self, c):
        return self.inv(c.eng, c.pre, c.args[0])

    def ensures(self, c):
        eng, st = c.eng, c.st
        a, b, s = c.cur(), c.old(c.args[0]), c.cur(c.args[0])
        out = self.inv(eng, st, c.thisloc)
        for k in ('m_size', 'm_is_committed', 'm_fd', 'm_use_direct_io', 'm_filename', 'm_device_page_size'):
            out.append(('moved: ' + k, a[k] == b[k]))
        p, q = a['m_io_scheduler'], b['m_io_scheduler']
        out.append(('the scheduler is moved', z3.BoolVal(isinstance(p, Ptr) and (p.loc is None) == (q.loc is None))))
        z = s['m_io_scheduler']
        out += [('the source gives up the file', s['m_fd'] < 0), ('the source is empty', s['m_size'] == 0), ('the source refuses appends', s['m_is_committed']),
                ('the source gives up the scheduler', z3.BoolVal(isinstance(z, Ptr) and z.loc is None)), ('the elements stored do not change', self.same_file(c))]
        return out


class Dtor(Vec):
    """of a vector that owns a file, or of one that was moved from"""
    def variants(self, eng, st, this, args, f):
        out = super().variants(eng, st, this, args, f)
        s = st.copy()
        self.set_sched(eng, s, this, args, Ptr(None))
        s.ghost['moved'] = TRUE
        return out + [s]

    def requires(self, c):
        if 'moved' in c.pre.ghost:
            sz, com, fd, sch = fields(c.eng, c.pre, c.thisloc)
            return [('moved from', z3.And(sz == 0, com, fd < 0))]
        return super().requires(c)

    def ensures(self, c):
        g, h = c.pre.ghost, c.st.ghost
        sz0, com0, fd0, sch0 = fields(c.eng, c.pre, c.thisloc)
        x = z3.Int('x!d')
        out = [('the elements stored do not change', self.same_file(c))]
        if 'moved' in g:
            return out + [('no file is touched', z3.And(h['fd_live'] == g['fd_live'], h['f_len'] == g['f_len']))]
        return out + [('the file is closed, no other file is', h['fd_live'] == z3.Store(g['fd_live'], fd0, FALSE)),
                      ('the length of the file is that of the elements', z3.Implies(z3.And(z3.Not(com0), z3.Not(h['wfail'])), h['f_len'] == sz0 * S(c.eng)))]

    def ensures_throw(self, c, exc):
        return None


class AGet(Vec):
    def requires(self, c):
        return super().requires(c) + [('', z3.And(c.arg(0) >= 0, reqidx(c.arg(1)) == c.arg(0)))]


class AGets(Vec):
    def requires(self, c):
        j = z3.Int('j!ag')
        r = c.old(c.args[0])
        c.eng.con_pre = c.pre
        return super().requires(c) + [('', z3.ForAll([j], z3.And(reqidx(Sel(r['el']['callback'], j)) == Sel(r['el']['index'], j), Sel(r['el']['index'], j) >= 0))),
                                      ('a batch has fewer than 2^31 requests', r['n'] < 2 ** 31)]

    def ensures(self, c):
        st, g, h = c.st, c.pre.ghost, c.st.ghost
        sz0, com0, fd0, sch0 = fields(c.eng, c.pre, c.thisloc)
        r = c.old(c.args[0])
        j = z3.Int('j!ag')
        sz, com, fd, sch = fields(c.eng, st, c.thisloc)
        return self.inv(c.eng, st, c.thisloc) + [
            ('the elements stored do not change', self.same_file(c)), ('only committed vectors are read', com0), ('size and state unchanged', z3.And(sz == sz0, com == com0)),
            ('only positions below the size are read', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < r['n']), Sel(r['el']['index'], j) < sz0))),
            ('the batch is submitted once, and all of it is accepted', z3.And(h['submits'] == 1, h['accepted'] == r['n'])), self.noleak(c)]

    def ensures_throw(self, c, exc):
        st, h = c.st, c.st.ghost
        sz0, com0, fd0, sch0 = fields(c.eng, c.pre, c.thisloc)
        sz, com, fd, sch = fields(c.eng, st, c.thisloc)
        return self.inv(c.eng, st, c.thisloc) + [('the elements stored do not change', self.same_file(c)), ('size and state unchanged', z3.And(sz == sz0, com == com0)),
                ('buffers of a failed submission are not leaked', z3.Implies(h['submits'] > 0, h['nlive'] == 0))]

    def loops(self, info):
        eng = info.eng
        reqs = eng.read(eng.con_pre, Loc('pr_requests'))
        subs = [Loc(r) for r, v in info.st0.roots.items() if isinstance(v, Node) and v.kind == 'seq' and isinstance(v.ch.get('el'), Node) and set(v['el'].ch) == {'buf', 'cb'}]
        sz0 = fields(eng, eng.con_pre, Loc('this'))[0]
        if len(subs) != 1:
            return []
        j, k = z3.Int('j!lp'), z3.Int('k!lp')
        S0 = lambda st: eng.read(st, subs[0])
        L = lambda st: st.ghost['live']
        out = [('prepared', lambda st: z3.And(S0(st)['n'] == st.ghost['nlive'], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S0(st)['n']),
                  z3.And(Sel(S0(st)['el']['cb'], j) == Sel(reqs['el']['callback'], j), Sel(reqs['el']['index'], j) < sz0, Sel(L(st), Sel(S0(st)['el']['buf'], j))))))),
               ('distinct', lambda st: z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < S0(st)['n']), Sel(S0(st)['el']['buf'], j) != Sel(S0(st)['el']['buf'], k)))),
               ('open', lambda st: z3.And(st.ghost['called'] == 0))]
        for key in info.mods:
            if key[0] == 'ghost':
                continue
            v0 = getleaf(info.st0.roots[key[0]], key[1])
            if isinstance(v0, Iter):
                idx = lambda st, key=key: getleaf(st.roots[key[0]], key[1]).idx
            elif isz(v0) and v0.sort() == IntS and not key[1]:
                idx = lambda st, key=key: st.roots[key[0]]
            else:
                continue
            out += [('count %s' % key[0], lambda st, idx=idx: S0(st)['n'] == idx(st)),
                    ('rest %s' % key[0], lambda st, idx=idx: z3.And(st.ghost['nlive'] == S0(st)['n'] - idx(st), idx(st) <= S0(st)['n'], idx(st) >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= idx(st), j < S0(st)['n']), Sel(L(st), Sel(S0(st)['el']['buf'], j))))))]
        return out


def fnd(big, np):
    return dict(nparams=np, pred=lambda f: ('Lm512' in f['key']) == big)


def units():
    out = []
    for big in (False, True):
        t = 'array512' if big else 'u64'
        for fn, np, k in (('push_back', 1, Vec), ('async_push_back', 1, Vec), ('get', 1, Vec), ('async_get', 2, AGet), ('async_gets', 1, AGets), ('commit', 0, Vec), ('reserve', 1, Vec),
                          ('set_use_direct_access', 1, Vec), ('awonvm_vector', 3, Ctor), ('awonvm_vector', 2, Ctor), ('awonvm_vector', 1, Move), ('~awonvm_vector', 0, Dtor)):
            c = k(fn, big)
            lab = {('awonvm_vector', 3): 'open(scheduler)', ('awonvm_vector', 2): 'open', ('awonvm_vector', 1): 'move', ('~awonvm_vector', 0): 'destroy'}.get((fn, np), fn)
            out.append(Unit('awonvm', c.name, c, conf=conf(big), find=fnd(big, np), label='awonvm_vector<%s>::%s' % (t, lab)))
    return out


class Getter(Vec):
    F = {'size': 'm_size', 'is_committed': 'm_is_committed', 'use_direct_access': 'm_use_direct_io'}

    def requires(self, c):
        return []

    def ensures(self, c):
        return [('the value of the field', c.res == c.old()[self.F[self.fn]])]

    def ensures_throw(self, c, exc):
        return None


def getters():
    return [Unit('awonvm', Getter(f, False).name, Getter(f, b), conf=conf(b), find=fnd(b, 0), label='awonvm_vector<%s>::%s' % ('array512' if b else 'u64', f))
            for b in (False, True) for f in Getter.F]
