"""contracts: asynchronous I/O schedulers (P23)

Both schedulers are read as monitors: fields guarded by a mutex are forgotten
when the mutex is taken; atomic counters are only ever changed by atomic
read-modify-write, whose total effect in this call is a ghost (d_<field>);
reading one gives any value the other threads may have left.

Kernel (libaio) contract: io_submit accepts a prefix of the batch or returns a
negative code; every accepted operation is executed with the arguments its
control block held at that moment and yields one event, which io_getevents
delivers once with the result of that operation and the data pointer of the
control block."""
import z3
from cppvc import *
from unit import Unit
from models import M, val, ignore, simp
import pool
I = z3.IntVal
AI, AB = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, BoolS)
THIS = Loc('this')
N = 'sse::abstractio::'
L = N + 'LinuxAIOScheduler::'
T = N + 'ThreadPoolAIOScheduler::'
REQ = L + 'LinuxAIORequest'
BIG = 2 ** 62

reqpos = z3.Function('reqpos', IntS, IntS)      # request -> its index in the batch given to the kernel
evpos = z3.Function('evpos', IntS, IntS)        # request -> number of its event
evid = z3.Function('evid', IntS, IntS)          # number of an event -> its request
evres = z3.Function('evres', IntS, IntS)        # number of an event -> result of its operation

COUNTERS = ('m_running_queries', 'm_submitted_queries_count', 'm_failed_queries_count')


def setup_ghosts(eng, st):
    g = st.ghost
    for c in COUNTERS:
        g['d_' + c] = I(0)
    g['held'] = FALSE
    g['stopped'] = FALSE             # the stop flag is known to be set
    g['late'] = FALSE                # the submission counter was read after the stop flag was seen set
    g['lastsub'] = g['lastfail'] = I(0)
    # requests created in this call, by their index in the batch: 1 created, 2 accepted by the kernel, 4 deleted
    g['bst'] = z3.K(IntS, I(0))
    g['nreq'] = I(0)
    g['acc'] = I(0)                  # accepted by the kernel in this call
    # events: 0 not called back, 1 called back, 2 called back and deleted
    g['cst'] = z3.K(IntS, I(0))
    g['reaped'] = I(0)
    g['calls'] = I(0)
    g['joined'] = FALSE
    g['destroyed'] = FALSE
    g['setup'] = I(0)                # 0 not called, 1 succeeded, 2 failed
    g['threads'] = I(0)
    # operation performed by a pool task
    g['op'] = g['opfd'] = g['opbuf'] = g['oplen'] = g['opoff'] = I(0)
    g['opres'] = I(0)
    g['ops'] = I(0)
    g['cbok'] = TRUE
    g['enq'] = I(0)
    g['note'] = I(2)


def heaps(eng, st):
    def rec(name, fs):
        return Node('dyn', None, {'n': I(2 ** 62), 'el': Node('rec', None, {f: z3.Const(name + '.' + f, AI) for f in fs})})
    st.roots['reqheap'] = rec('req', ('m_id', 'm_user_data', 'm_callback'))
    st.roots['cbheap'] = rec('iocb', ('data', 'op', 'fd', 'buf', 'len', 'off'))


def field(o):
    return o.path[-1][1] if isinstance(o, Loc) and o.path and o.path[-1][0] == 'f' else None


def is_counter(o):
    return isinstance(o, Loc) and o.root == 'this' and field(o) in COUNTERS


# atomics ---------------------------------------------------------------
def rmw(sign, ret):
    def f(eng, st, e, o, a):
        if not is_counter(o) or eng.aio_exclusive:
            return NotImplemented
        d = val(eng, st, a[0]) if a and e.get('oper') not in ('++', '--') else I(1)
        k = 'd_' + field(o)
        if field(o) == 'm_running_queries' and sign < 0:
            eng.oblige(st, st.ghost['held'], 'a request is signed off under the lock', e['line'])
            eng.oblige(st, st.ghost['calls'] == 1, 'a request is signed off after its callback returned', e['line'])
            st.ghost['note'] = I(0)
        st.ghost[k] = simp(st.ghost[k] + sign * d)
        r = z3.Const(eng.fname(field(o)), IntS)
        st.assume(r >= 0, r < BIG)
        return [(st, r)]
    return f


def at_load(eng, st, e, o, a):
    f = field(o)
    if not (isinstance(o, Loc) and o.root == 'this') or eng.aio_exclusive:
        return NotImplemented
    if f == 'm_stop_flag':
        r = z3.Const(eng.fname(f), BoolS)
        st.assume(z3.Implies(st.ghost['stopped'], r))
        st.ghost['stopped'] = z3.Or(st.ghost['stopped'], r)
        return [(st, r)]
    if not is_counter(o):
        return NotImplemented
    r = z3.Const(eng.fname(f), IntS)
    st.assume(r >= 0, r < BIG)
    if f == 'm_running_queries':
        # under the lock, zero means that nothing accepted is left: requests
        # are counted before they are accepted and signed off under the lock
        st.ghost['lastsub'] = r
        st.ghost['late'] = st.ghost['held']
    elif f == 'm_submitted_queries_count':
        st.ghost['lastsub'] = r
        st.ghost['late'] = st.ghost['stopped']
    else:
        st.ghost['lastfail'] = r
    return [(st, r)]


def at_store(eng, st, e, o, a):
    f = field(o)
    if not (isinstance(o, Loc) and o.root == 'this') or eng.aio_exclusive:
        return NotImplemented
    if f == 'm_stop_flag':
        v = val(eng, st, a[0])
        eng.oblige(st, v, 'a stopped scheduler stays stopped', e['line'])
        st.ghost['stopped'] = TRUE
        return [(st, v)]
    if is_counter(o):
        eng.oblige(st, FALSE, 'counters shared by threads are changed by atomic increments only', e['line'])
        return [(st, val(eng, st, a[0]))]
    return NotImplemented


# locks -----------------------------------------------------------------
def acquire(eng, st, line):
    eng.oblige(st, z3.Not(st.ghost['held']), 'the lock is not taken twice', line)
    st.ghost['held'] = TRUE
    v = eng.read(st, THIS)
    if 'm_waiting_submissions' in v.ch:
        eng.write(st, THIS.f('m_waiting_submissions'), z3.Const(eng.fname('waiting'), BoolS), hook=False)


def release(eng, st, line):
    eng.oblige(st, st.ghost['held'], 'the lock given back is held', line)
    st.ghost['held'] = FALSE


def lock_ctor(eng, st, e, ty, a):
    if len(a) != 1 or field(a[0]) != 'm_cv_lock':
        raise Unsupported('lock of another mutex')
    acquire(eng, st, e['line'])
    return [(st, TRUE)]


def lock_dtor(eng, st, l):
    v = simp(eng.read(st, l))
    if z3.is_true(v):
        release(eng, st, 0)
        eng.write(st, l, FALSE)
    elif not z3.is_false(v):
        raise Unsupported('conditionally owned lock')


def lock_unlock(eng, st, e, o, a):
    release(eng, st, e['line'])
    eng.write(st, o, FALSE)
    return [(st, None)]


def lock_lock(eng, st, e, o, a):
    acquire(eng, st, e['line'])
    eng.write(st, o, TRUE)
    return [(st, None)]


def cv_wait(timed):
    def f(eng, st, e, o, a):
        eng.oblige(st, eng.read(st, a[0]), 'waiting needs the lock', e['line'])
        release(eng, st, e['line'])
        acquire(eng, st, e['line'])
        i = 2 if timed else 1
        if len(a) <= i:
            return [(st, z3.Const(eng.fname('timeout'), BoolS) if timed else None)]
        out = []
        for s, r in eng.call_value(st, a[i], [], e):
            r = eng.boolval(r)
            if not timed:
                s.assume(r)
            out.append((s, r if timed else None))
        return out
    return f


def notify(k):
    def f(eng, st, e, o, a):
        st.ghost['note'] = I(2) if k == 2 else z3.If(st.ghost['note'] >= 1, st.ghost['note'], I(1))
        return [(st, None)]
    return f


def access(eng, st, l, f):
    if f == 'm_waiting_submissions' and isinstance(l, Loc) and l.root == 'this' and not eng.aio_exclusive:
        eng.oblige(st, st.ghost['held'], 'shared fields are used under the lock', 0)


# callbacks -------------------------------------------------------------
def fn_call(eng, st, e, o, a):
    data, res = (val(eng, st, x) for x in a)
    if isinstance(o, Loc) and o.root == 'reqheap':
        rid = o.path[0][1]
        k = evpos(rid)
        g = st.ghost
        eng.oblige(st, z3.And(k >= 0, k < g['reaped'], evid(k) == rid), 'only completed requests are called back', e['line'])
        eng.oblige(st, Sel(g['cst'], k) == 0, 'a request is called back once, before it is deleted', e['line'])
        eng.oblige(st, data == eng.read(st, Loc('reqheap').e(rid).f('m_user_data')), 'the callback gets the data of its own request', e['line'])
        eng.oblige(st, res == evres(k), 'the callback gets the result of its own operation', e['line'])
        g['cst'] = z3.Store(g['cst'], k, I(1))
        g['calls'] = simp(g['calls'] + 1)
        return [(st, None)]
    f = eng.read(st, o)
    if not isz(f) or 'callback' not in eng.aio_args:
        raise Unsupported('call of %r' % (f,))
    g = st.ghost
    eng.oblige(st, g['ops'] == 1, 'the callback is made after the operation', e['line'])
    eng.oblige(st, g['calls'] == 0, 'a request is called back once', e['line'])
    eng.oblige(st, z3.Not(g['held']), 'callbacks are made without the lock', e['line'])
    eng.oblige(st, z3.And(f == eng.aio_args['callback'], data == eng.aio_args['data']), 'the callback is that of the request, with its data', e['line'])
    eng.oblige(st, res == g['opres'], 'the callback gets the result of the operation', e['line'])
    g['calls'] = simp(g['calls'] + 1)
    return [(st, None)]


def sysio(kind):
    def f(eng, st, e, o, a):
        fd, buf, ln, off = (val(eng, st, x) for x in a)
        g = st.ghost
        A = eng.aio_args
        eng.oblige(st, g['ops'] == 0, 'the operation is performed once', e['line'])
        eng.oblige(st, z3.BoolVal(A.get('kind') == kind), 'the operation is the one asked for', e['line'])
        eng.oblige(st, z3.And(fd == A['fd'], buf == A['buf'], ln == A['len'], off == A['offset']), 'the operation has the arguments asked for', e['line'])
        r = z3.Const(eng.fname('io'), IntS)
        st.assume(r >= -1, r <= ln)
        g['ops'] = simp(g['ops'] + 1)
        g['opres'] = r
        return [(st, r)]
    return f


def enqueue(eng, st, e, o, a):
    """ThreadPool::enqueue (P22): runs the function once, later, in another thread"""
    eng.assumptions.add('thread pool contract (P22): an accepted function runs exactly once in a worker; the shared pool is never stopped')
    g = st.ghost
    eng.oblige(st, g['enq'] == 0, 'a request is handed to the pool once', e['line'])
    eng.oblige(st, g['d_m_running_queries'] == 1, 'a request is counted before a worker can complete it', e['line'])
    eng.no_local_refs(st, a[0], e['line'])
    s = st.copy()
    s.ghost['held'] = FALSE
    for s2, _ in eng.call_value(s, val(eng, st, a[0]), [], e):
        h = s2.ghost
        eng.oblige(s2, z3.And(h['ops'] == 1, h['calls'] == 1), 'the request is performed and called back exactly once', e['line'])
        eng.oblige(s2, h['d_m_running_queries'] == 0, 'the request is signed off exactly once', e['line'])
        eng.oblige(s2, z3.Not(h['held']), 'the lock has been given back', e['line'])
        eng.oblige(s2, h['note'] >= 1, 'the waiting thread is notified', e['line'])
    g['enq'] = I(1)
    return [(st, Opaque('future'))]


# libaio ----------------------------------------------------------------
def new_handle(eng, st, h, x, e):
    g = st.ghost
    i = z3.Const(eng.fname('newreq'), IntS)
    k = g['nreq']
    st.assume(i != 0, reqpos(i) == k, Sel(g['bst'], k) == 0)
    g['bst'] = z3.Store(g['bst'], k, I(1))
    g['nreq'] = simp(k + 1)
    if h != 'reqheap' or not (isinstance(x, Node) and x.kind == 'rec'):
        raise Unsupported('new request')
    for f in ('m_id', 'm_user_data', 'm_callback'):
        eng.write(st, Loc('reqheap').e(i).f(f), x[f], hook=False)
    return i


def delete_handle(eng, st, x, e):
    g = st.ghost
    t = eng.ir.T(eng.strip(e['e']['t']))
    if t['k'] != 'ptr' or eng.handle_heap(t['to']) != 'reqheap':
        raise Unsupported('delete of a handle')
    if eng.aio_mode == 'reap':
        k = evpos(x)
        eng.oblige(st, z3.And(k >= 0, k < g['reaped'], evid(k) == x, Sel(g['cst'], k) == 1), 'a request is deleted once, after it has been called back', e['line'])
        g['cst'] = z3.Store(g['cst'], k, I(2))
    else:
        k = reqpos(x)
        eng.oblige(st, z3.And(k >= 0, k < g['nreq'], Sel(g['bst'], k) == 1), 'only requests the kernel does not hold are deleted, once', e['line'])
        g['bst'] = z3.Store(g['bst'], k, I(4))


def prep(op):
    def f(eng, st, e, o, a):
        cb, fd, buf, ln, off = (val(eng, st, x) for x in a)
        h = Loc('cbheap').e(cb)
        for k, v in (('op', I(op)), ('fd', fd), ('buf', buf), ('len', ln), ('off', off), ('data', I(0))):
            eng.write(st, h.f(k), v, hook=False)
        return [(st, None)]
    return f


def cb_at(eng, st, p, k):
    """(control block fields, handle) of the k-th entry of a pointer to control-block pointers"""
    if not isinstance(p, Ptr):
        raise Unsupported('control block array %r' % (p,))
    v = eng.read(st, p.loc)
    h = v if isz(v) else Sel(v['el'], simp(p.off + k))
    c = eng.read(st, Loc('cbheap'))['el']
    return {f: Sel(c[f], h) for f in ('data', 'op', 'fd', 'buf', 'len', 'off')}


def room(eng, st, p):
    v = eng.read(st, p.loc)
    return I(1) if isz(v) else v['n'] - p.off


def io_submit(eng, st, e, o, a):
    ctx, nr, p = (val(eng, st, x) for x in a)
    g = st.ghost
    i, j = z3.Int('i!ios'), z3.Int('j!ios')
    eng.oblige(st, z3.And(nr >= 0, nr <= room(eng, st, p)), 'the batch lies within its array', e['line'])
    b = g['bst']
    pos = lambda k: reqpos(cb_at(eng, st, p, k)['data'])
    eng.oblige(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nr), z3.And(Sel(b, pos(i)) == 1, pos(i) >= 0, pos(i) < g['nreq']))), 'every control block submitted has a request the kernel does not hold', e['line'])
    eng.oblige(st, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < nr), pos(i) != pos(j))), 'no request is submitted twice', e['line'])
    eng.oblige(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nr), pos(i) == pos(0) + i)), 'requests are submitted in order', e['line'])
    r = z3.Const(eng.fname('io_submit'), IntS)
    st.assume(r >= -4096, r <= nr)
    b2 = z3.Const(eng.fname('bst'), AI)
    p0 = pos(0)
    x = z3.Int('x!ios')
    st.assume(z3.ForAll([x], Sel(b2, x) == z3.If(z3.And(p0 <= x, x < p0 + r), I(2), Sel(b, x)), patterns=[Sel(b2, x)]))
    st.ghost['bst'] = b2
    st.ghost['acc'] = simp(g['acc'] + z3.If(r > 0, r, I(0)))
    eng.assumptions.add('libaio contract: io_submit accepts a prefix of the batch or returns a negative error code; each accepted operation is performed with the arguments of its control block and gives exactly one event; io_getevents delivers each event once, with the result of the operation and the data of its control block, or returns a negative error code')
    return [(st, r)]


def io_getevents(eng, st, e, o, a):
    ctx, mn, nr, ev, tmo = (val(eng, st, x) for x in a)
    g = st.ghost
    if not isinstance(ev, Ptr):
        raise Unsupported('event array')
    v = eng.read(st, ev.loc)
    if z3.simplify(ev.off).as_long() != 0 if z3.is_int_value(z3.simplify(ev.off)) else True:
        raise Unsupported('event array offset')
    eng.oblige(st, z3.And(nr >= 0, nr <= v['n']), 'events are written within their array', e['line'])
    r = z3.Const(eng.fname('io_getevents'), IntS)
    st.assume(r >= -4096, r <= nr)
    el = v['el']
    d, rs = z3.Const(eng.fname('ev.data'), AI), z3.Const(eng.fname('ev.res'), AI)
    i = z3.Int('i!gev')
    R = g['reaped']
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), z3.And(Sel(d, i) == evid(R + i), evpos(Sel(d, i)) == R + i, Sel(d, i) != 0)), patterns=[Sel(d, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), z3.And(evres(R + i) >= -2 ** 63, evres(R + i) < 2 ** 63, Sel(rs, i) == z3.If(evres(R + i) >= 0, evres(R + i), evres(R + i) + 2 ** 64))), patterns=[Sel(rs, i)]))
    eng.write(st, ev.loc, v.with_(el=el.with_(data=d, res=rs)), hook=False)
    g['reaped'] = simp(R + z3.If(r > 0, r, I(0)))
    st.assume(g['reaped'] < BIG)
    return [(st, r)]


def io_setup(eng, st, e, o, a):
    n = val(eng, st, a[0])
    r = z3.Const(eng.fname('io_setup'), IntS)
    st.ghost['setup'] = z3.If(r == 0, I(1), I(2))
    p = val(eng, st, a[1])
    eng.write(st, p.loc, z3.Const(eng.fname('ioctx'), IntS))
    return [(st, r)]


def io_destroy(eng, st, e, o, a):
    eng.oblige(st, z3.Not(eng.read(st, THIS)['m_notify_thread']), 'the kernel queue is destroyed after all requests have completed', e['line'])
    st.ghost['destroyed'] = TRUE
    return [(st, I(0))]


def calloc(eng, st, e, o, a):
    return [(st, Opaque('calloc', (val(eng, st, a[0]), val(eng, st, a[1]))))]


def dyn(eng, st, ty, n, name, zero=False):
    el = eng.fresh(ty, name, (IntS,))
    if eng.handle_heap(ty, True):
        i = z3.Int('i!dyn')
        base = z3.Const(eng.fname(name + '.base'), IntS)
        st.assume(z3.ForAll([i], Sel(el, i) == base + i, patterns=[Sel(el, i)]))
    return Ptr(eng.new_root(st, Node('dyn', ty, {'n': n, 'el': el}), 'dyn'), I(0))


def bitcast(eng, st, x, e):
    if isinstance(x, Opaque) and x.tag == 'calloc':
        to = eng.strip(eng.ir.T(eng.strip(e['t']))['to'])
        return dyn(eng, st, to, x.data[0], 'calloc')
    return None


def array_new(eng, st, ty, n):
    return dyn(eng, st, ty, n, 'newarr')


# threads ---------------------------------------------------------------
def thr_ctor(eng, st, e, ty, a):
    if not a:
        return [(st, FALSE)]
    ok = len(a) == 2
    f = val(eng, st, a[0])
    if isinstance(f, Ptr) and f.loc is not None:
        f = eng.read(st, f.loc)
    q = eng.ir.funcs.get(f.data, {}).get('q', '') if isinstance(f, Opaque) and f.tag == 'fref' else ''
    obj = val(eng, st, a[1]) if ok else None
    if not isinstance(f, Opaque) or f.tag != 'fref' or not ok:
        raise Unsupported('thread function %r' % (f,))
    eng.oblige(st, z3.BoolVal(q == L + 'notify_loop' and isinstance(obj, Ptr) and obj.loc is not None and same(obj.loc, THIS)), 'the thread reaps the events of this scheduler', e['line'])
    eng.oblige(st, st.ghost['setup'] == 1, 'the thread is started with a kernel queue', e['line'])
    v = eng.read(st, THIS)
    eng.oblige(st, z3.And(z3.Not(v['m_stop_flag']), v['m_submitted_queries_count'] == 0, v['m_completed_queries_count'] == 0, v['m_failed_queries_count'] == 0),
               'the thread starts with an initialised scheduler', e['line'])
    st.ghost['threads'] = simp(st.ghost['threads'] + 1)
    return [(st, TRUE)]


def thr_assign(eng, st, e, o, a):
    v = eng.read(st, o)
    eng.oblige(st, z3.Not(v), 'a running thread is not forgotten', e['line'])
    eng.write(st, o, val(eng, st, a[0]))
    return [(st, o)]


def thr_joinable(eng, st, e, o, a):
    return [(st, eng.read(st, o))]


def thr_join(eng, st, e, o, a):
    eng.oblige(st, eng.read(st, o), 'a thread is joined once', e['line'])
    eng.oblige(st, st.ghost['stopped'], 'the scheduler is stopped before its thread is joined', e['line'])
    eng.oblige(st, z3.Not(st.ghost['held']), 'threads are joined without the lock', e['line'])
    eng.write(st, o, FALSE)
    return [(st, None)]


def thr_detach(eng, st, e, o, a):
    eng.oblige(st, FALSE, 'the thread is joined', e['line'])
    return [(st, None)]


def is_aligned(eng, st, e, o, a):
    r = z3.Const(eng.fname('aligned'), BoolS)
    return [(st, r)]


def shared_pool(eng, st, e, o, a):
    return [(st, eng.new_root(st, Opaque('pool'), 'iopool'))]


def ret_int(nm):
    return lambda eng, st, e, o, a: [(st, z3.Const(eng.fname(nm), IntS))]


def move(eng, st, e, o, a):
    return [(st, a[0])]


def dur(eng, st, e, ty, a):
    return [(st, Opaque('duration'))]


def chunk(eng, st, e, o, a):
    return [(st, None)]


def memset(eng, st, e, o, a):
    p = val(eng, st, a[0])
    if isinstance(p, Ptr) and p.loc is not None:
        v = eng.read(st, p.loc)
        if isz(v):
            eng.write(st, p.loc, I(0))
            return [(st, p)]
        v2 = eng.fresh(v.ty, 'memset') if isinstance(v, Node) and v.ty is not None else None
        if v2 is not None:
            eng.write(st, p.loc, v2)
            return [(st, p)]
    raise Unsupported('memset')


OV = {}
for _c in ('std::atomic', 'std::__atomic_base'):
    OV.update({_c + '::fetch_add': rmw(1, 0), _c + '::fetch_sub': rmw(-1, 0), _c + '::operator++': rmw(1, 0), _c + '::operator--': rmw(-1, 0),
               _c + '::operator+=': rmw(1, 0), _c + '::operator-=': rmw(-1, 0), _c + '::load': at_load, _c + '::store': at_store, _c + '::operator=': at_store})
    for _t in ('unsigned long', 'bool', 'unsigned int', 'int'):
        OV[_c + '::operator ' + _t] = at_load
def errno(eng, st, e, o, a):
    r = z3.Const(eng.fname('errno'), IntS)
    st.assume(r >= 0, r < 4096)
    return [(st, Ptr(eng.new_root(st, r, 'errno')))]


OV.update({
    '__errno_location': errno,
    'std::condition_variable::wait': cv_wait(False), 'std::condition_variable::wait_for': cv_wait(True), 'std::condition_variable::notify_one': notify(1), 'std::condition_variable::notify_all': notify(2),
    'std::unique_lock::unlock': lock_unlock, 'std::unique_lock::lock': lock_lock,
    'std::function::operator()': fn_call, 'std::function::operator=': pool.fn_assign,
    'pread': sysio('read'), 'pwrite': sysio('write'), 'ThreadPool::enqueue': enqueue, N + 'get_shared_io_pool': shared_pool,
    'io_submit': io_submit, 'io_getevents': io_getevents, 'io_setup': io_setup, 'io_destroy': io_destroy,
    'io_prep_pread': prep(1), 'io_prep_pwrite': prep(2), 'calloc': calloc, 'free': chunk, 'perror': chunk, 'memset': memset,
    'std::thread::joinable': thr_joinable, 'std::thread::join': thr_join, 'std::thread::detach': thr_detach, 'std::thread::operator=': thr_assign,
    'sse::utility::is_aligned': is_aligned,
})


def conf(eng):
    eng.special_types = {'std::function': 'fnid', 'std::thread': 'thr', 'std::unique_lock': 'lock', 'std::lock_guard': 'lock', 'iocb': 'iocb', 'std::chrono::duration': 'dur', 'timespec': 'timespec'}
    eng.special_types['io_event'] = 'io_event'
    ints = lambda *fs: lambda eng, ty, name, dims: Node('rec', ty, {k: z3.Const(eng.fname(name + '.' + k), eng.arrsort(dims, IntS)) for k in fs})
    eng.special_fresh = {'timespec': ints('tv_sec', 'tv_nsec'), 'io_event': ints('data', 'obj', 'res', 'res2')}
    eng.special_sorts = {'fnid': IntS, 'thr': BoolS, 'lock': BoolS, 'iocb': IntS, 'ptr': IntS}
    eng.handle_ptr = {'iocb': 'cbheap', REQ: 'reqheap'}
    eng.handle_values = {'iocb'}
    eng.new_handle, eng.delete_handle, eng.array_new, eng.bitcast_hook = new_handle, delete_handle, array_new, bitcast
    eng.models = dict(eng.models)
    for c in ('unique_lock', 'lock_guard'):
        eng.models['std::%s::(ctor)' % c] = lock_ctor
    eng.models['std::function::(ctor)'] = pool.fn_ctor
    eng.models['std::thread::(ctor)'] = thr_ctor
    for c in ('iocb', 'timespec', 'io_event'):
        eng.models[c + '::(ctor)'] = lambda eng, st, e, ty, a: [(st, eng.fresh(ty, 'local') if not a else val(eng, st, a[0]))]
    eng.models['std::chrono::duration::(ctor)'] = dur
    eng.dtor_models = {'std::unique_lock': lock_dtor, 'std::lock_guard': lock_dtor}
    eng.member_hook = access
    eng.overrides.update(OV)
    eng.aio_exclusive = False
    eng.aio_args = {}
    eng.aio_mode = 'submit'


class Aio(FnContract):
    mod = None
    mode = 'submit'
    exclusive = False

    def setup(self, eng, st, this, args):
        setup_ghosts(eng, st)
        heaps(eng, st)
        eng.aio_mode = self.mode
        eng.aio_exclusive = self.exclusive
        eng.aio_args = {}

    def make_param(self, eng, st, p, f):
        if eng.ir.T(eng.strip(p['t']))['k'] == 'ptr':
            v = z3.Const(p['n'], IntS)
            return v
        return super().make_param(eng, st, p, f)


ARGS = ('fd', 'buf', 'len', 'offset', 'data', 'callback')


class PoolSubmit(Aio):
    def __init__(self, kind):
        self.kind = kind
        self.name = T + 'submit_p' + kind

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        eng.aio_args = {k: (eng.read(st, a) if isinstance(a, Loc) else a) for k, a in zip(ARGS, args)}
        eng.aio_args['kind'] = self.kind

    def ensures(self, c):
        g = c.st.ghost
        return [('an accepted request is handed to the pool once', z3.And(c.res == 1, g['enq'] == 1)),
                ('an accepted request is counted once', g['d_m_running_queries'] == 1),
                ('the lock has been given back', z3.Not(g['held']))]


class PoolWait(Aio):
    def __init__(self, n):
        self.name = T + n

    def ensures(self, c):
        g = c.st.ghost
        return [('waiting ends when, under the lock, no request is running', z3.And(g['late'], g['lastsub'] == 0)),
                ('the lock has been given back', z3.Not(g['held'])), ('nothing is signed off', g['d_m_running_queries'] == 0)]


def units_pool():
    return [Unit('aio', c.name, c, conf=conf, label=c.name[len(N):]) for c in (PoolSubmit('read'), PoolSubmit('write'), PoolWait('wait_completions'), PoolWait('~ThreadPoolAIOScheduler'))]


# ------------------------------------------------------------- Linux AIO
class SubmitIocbs(Aio):
    """the batch is iocbs[0..n): control blocks whose requests, in order, are
    the n requests this call stands for; they were counted as submitted"""
    name = L + 'submit_iocbs'
    ghosts = ('bst', 'acc', 'd_m_failed_queries_count')
    mod = ['m_waiting_submissions']

    def make_param(self, eng, st, p, f):
        if eng.ir.T(eng.strip(p['t']))['k'] == 'ptr':
            st.roots['batch'] = Node('dyn', None, {'n': z3.Int('batch.n'), 'el': z3.Const('batch.el', AI)})
            return Ptr(Loc('batch'), I(0))
        return FnContract.make_param(self, eng, st, p, f)

    def batch(self, eng, st, p, n):
        i = z3.Int('i!b')
        cb = cb_at(eng, st, p, i)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(reqpos(cb['data']) == i, Sel(st.ghost['bst'], i) == 1)))

    def requires(self, c):
        eng, st, g = c.eng, c.pre, c.pre.ghost
        p, n = c.arg(0), c.arg(1)
        out = [('the batch lies within its array', z3.And(n >= 0, n <= room(eng, st, p))),
               ('one request per control block, in order', self.batch(eng, st, p, n)),
               ('all requests are in the batch', g['nreq'] == n),
               ('requests are counted before the kernel gets them', g['d_m_submitted_queries_count'] == n),
               ('a batch is submitted once', g['acc'] == 0)]
        if eng.aio_args:
            out += caller_reqs(eng, st, p, n)
        return out

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        n = eng.read(st, args[1]) if isinstance(args[1], Loc) else args[1]
        st.ghost['nreq'] = n
        st.ghost['d_m_submitted_queries_count'] = n
        st.ghost['bst'] = z3.Const('bst0', AI)
        st.assume(n < 2 ** 30, eng.read(st, Loc('batch'))['n'] < 2 ** 60)

    def ensures(self, c):
        g, g0 = c.st.ghost, c.pre.ghost
        i = z3.Int('i!sp')
        n, acc = c.arg(1), g['acc']
        x = z3.Int('x!sp')
        return [('the result is the number of accepted requests, or an error if there are none', z3.Or(c.res == acc, z3.And(c.res == 2 ** 64 - 1, acc == 0, n > 0))),
                ('no more requests are accepted than submitted', z3.And(acc >= 0, acc <= n)),
                ('the first requests are accepted', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < acc), Sel(g['bst'], i) == 2))),
                ('the other requests are deleted', z3.ForAll([i], z3.Implies(z3.And(i >= acc, i < n), Sel(g['bst'], i) == 4))),
                ('rejected requests are counted as failed', g['d_m_failed_queries_count'] - g0['d_m_failed_queries_count'] == n - acc),
                ('the lock has been given back', z3.Not(g['held']))]

    def loops(self, info):
        eng, st0 = info.eng, info.st0
        out = [('unlocked', lambda st: z3.Not(st.ghost['held'])), ('bounds', lambda st: z3.And(st.ghost['acc'] >= 0, st.ghost['acc'] <= st.ghost['nreq']))]
        i = z3.Int('i!li')
        stat = lambda st, lo, hi, v: z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), Sel(st.ghost['bst'], i) == v))
        n = st0.ghost['nreq']
        out.append(('accepted prefix', lambda st: stat(st, I(0), st.ghost['acc'], 2)))
        out.append(('rest kept', lambda st: stat(st, st.ghost['acc'], n, 1)))
        ints, ptrs = [], []
        for vid, (nm, ty, loc) in info.vars.items():
            if loc.root not in st0.roots or loc.path:
                continue
            v = st0.roots[loc.root]
            if isz(v) and v.sort() == IntS:
                ints.append((nm, loc.root))
            elif isinstance(v, Ptr) and v.off is not None:
                ptrs.append((nm, loc.root))
        for nm, r in ints:
            out.append(('%s left' % nm, lambda st, r=r: st.roots[r] + st.ghost['acc'] == n))
            out.append(('%s done' % nm, lambda st, r=r: st.roots[r] == st.ghost['acc']))
            out.append(('deleted up to %s' % nm, lambda st, r=r: stat(st, st.ghost['acc'], st.ghost['acc'] + st.roots[r], 4)))
            out.append(('kept from %s' % nm, lambda st, r=r: stat(st, st.ghost['acc'] + st.roots[r], n, 1)))
            out.append(('deleted to %s' % nm, lambda st, r=r: stat(st, st.ghost['acc'], st.roots[r], 4)))
            out.append(('kept up from %s' % nm, lambda st, r=r: stat(st, st.roots[r], n, 1)))
            out.append(('%s nonneg' % nm, lambda st, r=r: st.roots[r] >= 0))
        for nm, r in ptrs:
            out.append(('%s head' % nm, lambda st, r=r: st.roots[r].off == st.ghost['acc']))
        return out


def caller_reqs(eng, st, p, n):
    """every control block asks for what the caller was asked for"""
    A = eng.aio_args
    i = z3.Int('i!cr')
    cb = cb_at(eng, st, p, i)
    rq = eng.read(st, Loc('reqheap'))['el']
    at = (lambda k: A[k]) if not A.get('vec') else (lambda k: Sel(A['vec']['el'][k], i))
    return [('every request has the arguments asked for', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        cb['op'] == (2 if A['kind'] == 'write' else 1), cb['fd'] == at('fd'), cb['buf'] == at('buf'), cb['len'] == at('len'), cb['off'] == at('offset'))))),
        ('every request has the callback and the data asked for', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
            Sel(rq['m_user_data'], cb['data']) == at('data'), Sel(rq['m_callback'], cb['data']) == at('callback'))))),
        ('no request is submitted that was not asked for', n <= (1 if not A.get('vec') else A['vec']['n']))]


def counts(c):
    g = c.st.ghost
    return [('requests counted as submitted are accepted or counted as failed', g['d_m_submitted_queries_count'] - g['d_m_failed_queries_count'] == g['acc'])]


class Submit(Aio):
    def __init__(self, kind):
        self.kind = kind
        self.name = L + 'submit_p' + kind

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        eng.aio_args = {k: (eng.read(st, a) if isinstance(a, Loc) else a) for k, a in zip(ARGS, args)}
        eng.aio_args['kind'] = self.kind

    def ensures(self, c):
        g = c.st.ghost
        return counts(c) + [('the request is accepted exactly when the result is 1', (c.res == 1) == (g['acc'] == 1)), ('at most one request is accepted', g['acc'] <= 1)]


class Submits(Aio):
    name = L + 'submit_preads'

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        v = eng.read(st, args[0])
        st.assume(v['n'] >= 0, v['n'] < 2 ** 30)
        eng.aio_args = {'vec': v, 'kind': 'read'}
        x = z3.Int('x!off')
        st.assume(z3.ForAll([x], z3.And(Sel(v['el']['offset'], x) >= 0, Sel(v['el']['offset'], x) < 2 ** 63, Sel(v['el']['fd'], x) >= -2 ** 31, Sel(v['el']['fd'], x) < 2 ** 31, Sel(v['el']['len'], x) >= 0, Sel(v['el']['len'], x) < 2 ** 64), patterns=[Sel(v['el']['offset'], x)]))
        eng.assumptions.add('file offsets and batch sizes fit off_t and int')

    def ensures(self, c):
        g = c.st.ghost
        return counts(c) + [('the result is the number of accepted requests, or an error code if there are none', z3.Or(c.res == g['acc'], z3.And(c.res < 0, g['acc'] == 0)))]

    def loops(self, info):
        return batch_loops(self, info)


def batch_loops(self, info):
    eng, st0 = info.eng, info.st0
    v = eng.aio_args['vec']
    i = z3.Int('i!bl')
    nq = lambda st: st.ghost['nreq']
    out = [('requests counted', lambda st: st.ghost['d_m_submitted_queries_count'] == nq(st)), ('within', lambda st: z3.And(nq(st) >= 0, nq(st) <= v['n'])),
           ('new requests', lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nq(st)), Sel(st.ghost['bst'], i) == 1))),
           ('no further', lambda st: z3.ForAll([i], z3.Implies(i >= nq(st), Sel(st.ghost['bst'], i) == 0)))]
    for key in info.mods:
        if key[0] == 'ghost' or key[1]:
            continue
        v0 = st0.roots[key[0]]
        if isinstance(v0, Iter):
            out.append(('position %s' % key[0].split('!')[0], lambda st, r=key[0]: st.roots[r].idx == nq(st)))
        elif isz(v0) and v0.sort() == IntS:
            out.append(('counted by %s' % key[0].split('!')[0], lambda st, r=key[0]: st.roots[r] == nq(st)))
    for r, x in st0.roots.items():
        if isinstance(x, Node) and x.kind == 'dyn' and r.startswith('dyn') and isz(x['el']):
            def inv(st, r=r):
                cb = cb_at(eng, st, Ptr(Loc(r), I(0)), i)
                rq = eng.read(st, Loc('reqheap'))['el']
                at = lambda k: Sel(v['el'][k], i)
                return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nq(st)), z3.And(
                    reqpos(cb['data']) == i, cb['op'] == 1, cb['fd'] == at('fd'), cb['buf'] == at('buf'), cb['len'] == at('len'), cb['off'] == at('offset'),
                    Sel(rq['m_user_data'], cb['data']) == at('data'), Sel(rq['m_callback'], cb['data']) == at('callback'))))
            out.append(('batch in %s' % r.split('!')[0], inv))
            for r2, x2 in st0.roots.items():
                if r2 != r and isinstance(x2, Node) and x2.kind == 'dyn' and r2.startswith('dyn') and isz(x2['el']):
                    out.append(('%s points into %s' % (r, r2), lambda st, r=r, r2=r2: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nq(st)), Sel(st.roots[r]['el'], i) == Sel(st.roots[r2]['el'], i)))))
    return out


class Notify(Aio):
    name = L + 'notify_loop'
    mode = 'reap'

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        eng.write(st, THIS.f('m_completed_queries_count'), I(0), hook=False)

    def ensures(self, c):
        g = c.st.ghost
        k = z3.Int('k!nt')
        done = c.cur()['m_completed_queries_count']
        return [('every completed request has been called back once and deleted', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g['reaped']), Sel(g['cst'], k) == 2))),
                ('completed requests are counted', done == g['reaped']),
                ('the thread ends when stopped and every request counted has completed or failed', z3.And(g['late'], done + g['lastfail'] >= g['lastsub'])),
                ('the lock has been given back', z3.Not(g['held']))]

    def loops(self, info):
        eng, st0 = info.eng, info.st0
        k = z3.Int('k!nl')
        R = lambda st: st.ghost['reaped']
        stat = lambda st, lo, hi, v: z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), Sel(st.ghost['cst'], k) == v))
        done = lambda st: eng.read(st, THIS)['m_completed_queries_count']
        out = [('unlocked', lambda st: z3.Not(st.ghost['held'])), ('reaped', lambda st: R(st) >= 0), ('all called', lambda st: stat(st, I(0), R(st), 2)),
               ('new', lambda st: stat(st, R(st), I(2 ** 63), 0)), ('counted', lambda st: done(st) == R(st)),
               ('called before', lambda st: stat(st, I(0), done(st), 2)), ('counting', lambda st: z3.And(done(st) <= R(st), done(st) >= 0))]
        eng.assumptions.add('fewer than 2^62 requests are made of one scheduler')
        for key in info.mods:
            if key[0] == 'ghost' or key[1]:
                continue
            v0 = st0.roots[key[0]]
            if isz(v0) and v0.sort() == IntS:
                nm = key[0].split('!')[0]
                at = lambda st, r=key[0]: done(st) + st.roots[r]
                out.append(('called up to %s' % nm, lambda st, at=at: stat(st, I(0), at(st), 2)))
                out.append(('not called from %s' % nm, lambda st, at=at: stat(st, at(st), R(st), 0)))
                out.append(('%s nonneg' % nm, lambda st, r=key[0]: st.roots[r] >= 0))
        return out


class Wait(Aio):
    def __init__(self, n):
        self.name = L + n

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)

    def ensures(self, c):
        return [('the scheduler is stopped', c.st.ghost['stopped']), ('the thread that completes requests has ended', z3.Not(c.cur()['m_notify_thread']))]


class Dtor(Wait):
    def __init__(self):
        super().__init__('~LinuxAIOScheduler')

    def ensures(self, c):
        return super().ensures(c) + [('the kernel queue is destroyed', c.st.ghost['destroyed'])]


class Ctor(Aio):
    name = L + 'LinuxAIOScheduler'
    exclusive = True

    def ensures(self, c):
        v = c.cur()
        return [('one thread completes requests', z3.And(v['m_notify_thread'], c.st.ghost['threads'] == 1)), ('the kernel queue exists', c.st.ghost['setup'] == 1),
                ('page size kept', v['m_page_size'] == c.arg(0)), ('the scheduler accepts requests', z3.Not(v['m_stop_flag']))]

    def ensures_throw(self, c, exc):
        return [('failure means that there is no kernel queue', c.st.ghost['setup'] == 2), ('no thread is left', c.st.ghost['threads'] == 0)]


# ------------------------------------------------- base class: read batches
def submit_one(eng, st, e, o, a):
    """Scheduler::submit_pread (virtual): accepts (1) or rejects"""
    A = eng.aio_args
    g = st.ghost
    fd, buf, ln, off, data, cb = (val(eng, st, x) for x in a)
    k = g['nreq']
    at = lambda f: Sel(A['vec']['el'][f], k)
    eng.oblige(st, k == g['acc'], 'nothing is submitted after a rejected request', e['line'])
    eng.oblige(st, z3.And(fd == at('fd'), buf == at('buf'), ln == at('len'), off == at('offset'), data == at('data'), cb == at('callback')), 'requests are submitted in order, with their own arguments', e['line'])
    eng.oblige(st, k < A['vec']['n'], 'no request is submitted that was not asked for', e['line'])
    r = z3.Const(eng.fname('submit'), IntS)
    st.assume(r >= -2 ** 31, r < 2 ** 31)
    g['nreq'] = simp(k + 1)
    g['acc'] = simp(g['acc'] + z3.If(r == 1, I(1), I(0)))
    return [(st, r)]


class BaseSubmits(Submits):
    name = N + 'Scheduler::submit_preads'

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        eng.overrides[N + 'Scheduler::submit_pread'] = submit_one

    def ensures(self, c):
        g = c.st.ghost
        return [('the result is the number of accepted requests, or an error code if there are none', z3.Or(c.res == g['acc'], z3.And(c.res < 0, g['acc'] == 0))),
                ('requests are submitted until one is rejected', z3.Or(g['nreq'] == c.eng.aio_args['vec']['n'], g['nreq'] == g['acc'] + 1))]

    def loops(self, info):
        out = [('all accepted', lambda st: z3.And(st.ghost['nreq'] == st.ghost['acc'], st.ghost['acc'] >= 0))]
        for key in info.mods:
            if key[0] == 'ghost' or key[1]:
                continue
            v0 = info.st0.roots[key[0]]
            f = (lambda st, r=key[0]: st.roots[r].idx) if isinstance(v0, Iter) else (lambda st, r=key[0]: st.roots[r]) if isz(v0) and v0.sort() == IntS else None
            if f:
                out.append(('counted by %s' % key[0].split('!')[0], lambda st, f=f: f(st) == st.ghost['acc']))
        return out


def units_linux():
    S = SubmitIocbs()
    cal = {S.name: S}
    u = lambda c, callee=None: Unit('aio', c.name, c, callee or {}, conf=conf, label=c.name[len(N):])
    w = Wait('wait_completions')
    return [u(S), u(Submit('read'), cal), u(Submit('write'), cal), u(Submits(), cal), u(Notify()), u(w), u(Dtor()), u(Ctor()), u(BaseSubmits())]


def units():
    return units_pool() + units_linux()
