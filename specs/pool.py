"""contracts: thread pool (P22)

Monitor reasoning.  The queue, the stop flag and the statistics are guarded by
queue_mutex: every access needs the lock, taking the lock forgets what the
fields held (other threads ran) except for the lock invariant and what other
threads cannot do, giving it back proves the lock invariant.  Task identities
are integers; qst[id] is 0 (not accepted), 1 (queued), 2 (taken by a worker).

lock invariant: the queue holds distinct tasks, exactly those of state 1 that
                appear in it are waiting; stop is never reset."""
import z3
from cppvc import *
from unit import Unit
from models import M, val, ignore, simp
I = z3.IntVal
AI, AB = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, BoolS)
GUARDED = ('tasks', 'stop', 'max_tasks_size_')
THIS = Loc('this')
C = 'ThreadPool::'


def queue_fresh(eng, ty, name, dims):
    return Node('queue', ty, {k: z3.Const(eng.fname(name + '.' + k), eng.arrsort(dims, s)) for k, s in (('n', IntS), ('lo', IntS), ('el', AI))})


def linv(st, q):
    i, j = z3.Int('i!q'), z3.Int('j!q')
    at = lambda k: Sel(q['el'], k)
    inq = lambda k: z3.And(q['lo'] <= k, k < q['lo'] + q['n'])
    return z3.And(q['n'] >= 0,
                  z3.ForAll([i], z3.Implies(inq(i), z3.And(at(i) >= 0, Sel(st.ghost['qst'], at(i)) == 1))),
                  z3.ForAll([i, j], z3.Implies(z3.And(inq(i), inq(j), i < j), at(i) != at(j))))


def setup_ghosts(eng, st):
    g = st.ghost
    g['qst'] = z3.Const('qst', AI)
    g['held'] = FALSE
    g['mytask'] = I(-1)         # task this thread has taken from the queue and not run yet
    g['pushes'] = I(0)          # tasks this call has put into the queue
    g['pushed'] = I(-1)
    g['note'] = I(2)            # 0: a change nobody has been notified of, 1: one waiter notified, 2: all
    g['joined'] = z3.K(IntS, FALSE)
    g['ran'] = I(0)
    g['ranid'] = I(-1)
    g['ptargs'] = TRUE
    g['stopseen'] = FALSE       # value of stop under the last lock


def acquire(eng, st, line):
    eng.oblige(st, z3.Not(st.ghost['held']), 'the lock is not taken twice', line)
    st.ghost['held'] = TRUE
    l = eng.pool_this
    v = eng.read(st, l)
    q = queue_fresh(eng, v['tasks'].ty, 'tasks', ())
    stop = z3.Const(eng.fname('stop'), BoolS)
    mx = z3.Const(eng.fname('max'), IntS)
    q1 = z3.Const(eng.fname('qst'), AI)
    q0 = st.ghost['qst']
    st.assume(z3.Implies(v['stop'], stop), mx >= 0, mx < 2 ** 62, q['n'] < 2 ** 60)
    x = z3.Int('x!a')
    me = st.ghost['mytask']
    st.assume(z3.ForAll([x], Sel(q1, x) >= Sel(q0, x), patterns=[Sel(q1, x)]), z3.Implies(me >= 0, Sel(q1, me) == Sel(q0, me)))
    st.ghost['qst'] = q1
    eng.write(st, l, v.with_(tasks=q, stop=stop, max_tasks_size_=mx), hook=False)
    st.assume(linv(st, q))
    st.ghost['stopseen'] = stop


def release(eng, st, line):
    eng.oblige(st, st.ghost['held'], 'the lock given back is held', line)
    eng.oblige(st, linv(st, eng.read(st, eng.pool_this)['tasks']), 'lock invariant: the queue holds distinct accepted tasks', line)
    st.ghost['held'] = FALSE


def lock_ctor(eng, st, e, ty, a):
    if len(a) != 1 or not (isinstance(a[0], Loc) and a[0].path and a[0].path[-1] == ('f', 'queue_mutex')):
        raise Unsupported('lock of another mutex')
    acquire(eng, st, e['line'])
    return [(st, TRUE)]


def lock_dtor(eng, st, l):
    v = eng.read(st, l)
    if z3.is_true(simp(v)):
        release(eng, st, 0)
        eng.write(st, l, FALSE)
    elif not z3.is_false(simp(v)):
        raise Unsupported('conditionally owned lock')


def lock_unlock(eng, st, e, o, a):
    eng.oblige(st, eng.read(st, o), 'the lock given back is held', e['line'])
    release(eng, st, e['line'])
    eng.write(st, o, FALSE)
    return [(st, None)]


def lock_lock(eng, st, e, o, a):
    acquire(eng, st, e['line'])
    eng.write(st, o, TRUE)
    return [(st, None)]


def cv_wait(eng, st, e, o, a):
    eng.oblige(st, eng.read(st, a[0]), 'waiting needs the lock', e['line'])
    release(eng, st, e['line'])
    acquire(eng, st, e['line'])
    if len(a) == 1:
        return [(st, None)]
    out = []
    for s, r in eng.call_value(st, a[1], [], e):
        s.assume(eng.boolval(r))
        out.append((s, None))
    return out


def notify(k):
    def f(eng, st, e, o, a):
        n = st.ghost['note']
        st.ghost['note'] = I(2) if k == 2 else z3.If(n >= 1, n, I(1))
        return [(st, None)]
    return f


def access(eng, st, l, f):
    if f in GUARDED and isinstance(l, Loc) and same(l, eng.pool_this) and not eng.pool_exclusive:
        ok = st.ghost['held']
        if eng.pool_dtor:       # nobody else may use a pool being destroyed but its workers
            w, k = eng.read(st, l)['workers'], z3.Int('k!acc')
            ok = z3.Or(ok, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < w['n']), Sel(st.ghost['joined'], Sel(w['el'], k)))))
        eng.oblige(st, ok, 'shared fields are used under the lock', 0)


# queue
def q_size(eng, st, e, o, a):
    return [(st, eng.read(st, o)['n'])]


def q_empty(eng, st, e, o, a):
    return [(st, eng.read(st, o)['n'] == 0)]


def q_front(eng, st, e, o, a):
    q = eng.read(st, o)
    eng.oblige(st, q['n'] > 0, 'front of a non-empty queue', e['line'])
    return [(st, o.e(simp(q['lo'])))]


def q_pop(eng, st, e, o, a):
    q = eng.read(st, o)
    eng.oblige(st, q['n'] > 0, 'pop of a non-empty queue', e['line'])
    eng.oblige(st, st.ghost['mytask'] == -1, 'the task taken before has been run', e['line'])
    t = Sel(q['el'], q['lo'])
    st.ghost['mytask'] = t
    st.ghost['qst'] = z3.Store(st.ghost['qst'], t, I(2))
    eng.write(st, o, Node('queue', q.ty, {'n': simp(q['n'] - 1), 'lo': simp(q['lo'] + 1), 'el': q['el']}), hook=False)
    return [(st, None)]


def q_emplace(eng, st, e, o, a):
    q = eng.read(st, o)
    f = val(eng, st, a[0])
    if isz(f):
        t = f
    else:
        # what the queued function does when a worker runs it, later: exactly
        # one run of one packaged task
        t = None
        s = st.copy()
        s.ghost['ran'], s.ghost['ranid'] = I(0), I(-1)
        s.ghost['held'] = FALSE
        for s2, _ in eng.call_value(s, f, [], e):
            eng.oblige(s2, s2.ghost['ran'] == 1, 'the queued function runs the task exactly once', e['line'])
            if t is None:
                t = s2.ghost['ranid']
            eng.oblige(s2, s2.ghost['ranid'] == t, 'the queued function runs one task', e['line'])
        if t is None:
            raise Unsupported('queued function never returns')
    eng.oblige(st, st.ghost['pushes'] == 0, 'a task is queued once', e['line'])
    eng.oblige(st, z3.Not(eng.read(st, eng.pool_this)['stop']), 'nothing is queued after stop', e['line'])
    st.assume(t >= 0, Sel(st.ghost['qst'], t) == 0)       # a new object, known to this thread only
    st.ghost['qst'] = z3.Store(st.ghost['qst'], t, I(1))
    st.ghost['pushes'] = simp(st.ghost['pushes'] + 1)
    st.ghost['pushed'] = t
    st.ghost['note'] = I(0)
    end = simp(q['lo'] + q['n'])
    eng.write(st, o, Node('queue', q.ty, {'n': simp(q['n'] + 1), 'lo': q['lo'], 'el': z3.Store(q['el'], end, t)}), hook=False)
    return [(st, o.e(end))]


# tasks
def fn_call(eng, st, e, o, a):
    f = eng.read(st, o)
    if not isz(f):
        return eng.call_value(st, f, a, e)
    eng.oblige(st, z3.And(f >= 0, f == st.ghost['mytask']), 'the task run is the one taken from the queue, and it is run once', e['line'])
    eng.oblige(st, z3.Not(st.ghost['held']), 'a task runs without the lock', e['line'])
    eng.assumptions.add('a queued function catches the exceptions of its task (std::packaged_task) and returns')
    st.ghost['mytask'] = I(-1)
    return [(st, None)]


def fn_ctor(eng, st, e, ty, a):
    return [(st, val(eng, st, a[0]) if a else I(-7))]


def fn_assign(eng, st, e, o, a):
    eng.write(st, o, val(eng, st, a[0]))
    return [(st, o)]


def bind(eng, st, e, o, a):
    return [(st, Opaque('bound', tuple(a)))]


def make_shared(eng, st, e, o, a):
    v = val(eng, st, a[0]) if a else None
    if not (isinstance(v, Opaque) and v.tag == 'bound'):
        raise Unsupported('shared object of %r' % (v,))
    ok = len(v.data) == len(eng.pool_params) and all(isinstance(x, Loc) and same(x, y) for x, y in zip(v.data, eng.pool_params))
    t = z3.Int(eng.fname('ptask'))
    st.assume(t >= 0)
    st.ghost['ptargs'] = z3.BoolVal(ok)
    return [(st, Ptr(eng.new_root(st, t, 'ptask')))]


def pt_call(eng, st, e, o, a):
    st.ghost['ran'] = simp(st.ghost['ran'] + 1)
    st.ghost['ranid'] = eng.read(st, o)
    return [(st, None)]


def deref(eng, st, e, o, a):
    v = eng.read(st, o)
    if not isinstance(v, Ptr):
        raise Unsupported('shared pointer')
    if normq(e['q']).endswith('->') or normq(e['q']).endswith('get'):
        return [(st, v)]
    return [(st, v.loc)]


def identity(eng, st, e, o, a):
    return [(st, eng.read(st, o))]


def sp_ctor(eng, st, e, ty, a):
    return [(st, val(eng, st, a[0]) if a else Ptr(None))]


# threads
def spawn(eng, st, e, o, a):
    v = eng.read(st, o)
    if eng.ir.T(eng.strip(eng.elem_ty(v.ty)))['q'] != 'std::thread':
        return NotImplemented
    f = val(eng, st, a[0])
    s = st.copy()
    s.ghost['held'], s.ghost['mytask'] = FALSE, I(-1)
    eng.pool_exclusive = False
    for s2, _ in eng.call_value(s, f, [], e):
        eng.oblige(s2, s2.ghost['mytask'] == -1, 'a worker leaves no task behind', e['line'])
        eng.oblige(s2, z3.Not(s2.ghost['held']), 'a worker that ends does not keep the lock', e['line'])
        q = eng.read(s2, eng.pool_this)
        eng.oblige(s2, z3.And(q['stop'], q['tasks']['n'] == 0), 'a worker ends only when the pool is stopped and its queue is empty', e['line'])
    eng.pool_exclusive = True
    t = z3.Int(eng.fname('thread'))
    st.assume(z3.Not(Sel(st.ghost['joined'], t)))
    nv = v.with_(n=simp(v['n'] + 1), el=z3.Store(v['el'], v['n'], t))
    eng.write(st, o, nv, hook=False)
    return [(st, o.e(v['n']))]


def thr_joinable(eng, st, e, o, a):
    return [(st, z3.Not(Sel(st.ghost['joined'], eng.read(st, o))))]


def thr_join(eng, st, e, o, a):
    t = eng.read(st, o)
    eng.oblige(st, z3.Not(Sel(st.ghost['joined'], t)), 'a thread is joined once', e['line'])
    eng.oblige(st, z3.Not(st.ghost['held']), 'threads are joined without the lock', e['line'])
    eng.oblige(st, st.ghost['note'] == 2, 'all workers have been notified before they are joined', e['line'])
    eng.oblige(st, st.ghost['stopseen'], 'the pool is stopped before its workers are joined', e['line'])
    st.ghost['joined'] = z3.Store(st.ghost['joined'], t, TRUE)
    return [(st, None)]


def thr_detach(eng, st, e, o, a):
    eng.oblige(st, FALSE, 'workers are joined', e['line'])
    return [(st, None)]


def stop_write(eng, st, loc, new):
    if not same(Loc(loc.root, loc.path[:-1]), eng.pool_this):
        return
    if not eng.pool_exclusive:
        eng.oblige(st, new if isz(new) else FALSE, 'a stopped pool stays stopped', 0)
    st.ghost['note'] = I(0)
    st.ghost['stopseen'] = TRUE


OV = {
    'std::condition_variable::wait': cv_wait, 'std::condition_variable::notify_one': notify(1), 'std::condition_variable::notify_all': notify(2),
    'std::unique_lock::unlock': lock_unlock, 'std::unique_lock::lock': lock_lock,
    'std::queue::size': q_size, 'std::queue::empty': q_empty, 'std::queue::front': q_front, 'std::queue::pop': q_pop, 'std::queue::emplace': q_emplace, 'std::queue::push': q_emplace,
    'std::function::operator()': fn_call, 'std::function::operator=': fn_assign, 'std::bind': bind, 'std::make_shared': make_shared,
    'std::packaged_task::operator()': pt_call, 'std::packaged_task::get_future': identity,
    'std::__shared_ptr_access::operator->': deref, 'std::__shared_ptr_access::operator*': deref, 'std::__shared_ptr::get': deref,
    'std::vector::emplace_back': spawn, 'std::thread::joinable': thr_joinable, 'std::thread::join': thr_join, 'std::thread::detach': thr_detach,
}


def conf(eng):
    eng.special_types = {'std::function': 'fnid', 'std::queue': 'queue', 'std::thread': 'thr', 'std::unique_lock': 'lock', 'std::lock_guard': 'lock', 'std::future': 'fut', 'std::packaged_task': 'pt'}
    eng.special_sorts = {'fnid': IntS, 'thr': IntS, 'lock': BoolS, 'fut': IntS, 'pt': IntS}
    eng.special_fresh = {'queue': queue_fresh}
    eng.models = dict(eng.models)
    for c in ('unique_lock', 'lock_guard'):
        eng.models['std::%s::(ctor)' % c] = lock_ctor
    eng.models['std::function::(ctor)'] = fn_ctor
    eng.models['std::shared_ptr::(ctor)'] = sp_ctor
    eng.models['std::future::(ctor)'] = sp_ctor
    eng.models['std::queue::(ctor)'] = lambda eng, st, e, ty, a: [(st, Node('queue', ty, {'n': I(0), 'lo': I(0), 'el': z3.Const(eng.fname('q.el'), AI)}))]
    eng.dtor_models = {'std::unique_lock': lock_dtor, 'std::lock_guard': lock_dtor}
    eng.member_hook = access
    eng.hooks = dict(eng.hooks)
    eng.hooks['stop'] = [stop_write]
    eng.overrides.update(OV)
    eng.pool_this = THIS
    eng.pool_exclusive = eng.pool_dtor = False
    eng.pool_params = []


class Pool(FnContract):
    mod = None

    def setup(self, eng, st, this, args):
        setup_ghosts(eng, st)
        eng.pool_params = [eng.read(st, a) if self.ctor and isinstance(a, Loc) else a for a in args]
        v = eng.read(st, this)
        st.assume(linv(st, v['tasks'])) if not self.ctor else None
        st.assume(v['workers']['n'] >= 0)
        for f in ('max_tasks_size_',):
            st.assume(v[f] >= 0)

    ctor = False

    def basic(self, c):
        return [('the lock has been given back', z3.Not(c.st.ghost['held']))]


class Enqueue(Pool):
    name = C + 'enqueue'

    def ensures(self, c):
        g = c.st.ghost
        return self.basic(c) + [
            ('the task is queued exactly once', g['pushes'] == 1), ('a worker is notified of the task', g['note'] >= 1),
            ('a stopped pool accepts nothing', z3.Not(c.old()['stop'])),
            ('the future returned is that of the task queued', c.res == g['pushed']),
            ('the task calls the function given with the arguments given', g['ptargs'])]

    def ensures_throw(self, c, exc):
        g = c.st.ghost
        return self.basic(c) + [('a refused task is not queued', g['pushes'] == 0), ('tasks are refused only after stop', g['stopseen'])]


class Ctor(Pool):
    name = C + 'ThreadPool'
    ctor = True

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        eng.pool_exclusive = True

    def ensures(self, c):
        v = c.cur()
        return [('as many workers as asked for', v['workers']['n'] == c.arg(0)), ('the pool accepts tasks', z3.Not(v['stop'])), ('nothing is queued', v['tasks']['n'] == 0)]

    def loops(self, info):
        out = worker_loops(self, info)
        for key in info.mods:
            if key[0] == 'ghost' or key[1] or key[0] == 'this':
                continue
            v0 = info.st0.roots[key[0]]
            if isz(v0) and v0.sort() == IntS:
                f = lambda st, r=key[0]: info.eng.read(st, THIS)['workers']['n'] == st.roots[r]
                g = lambda st, r=key[0]: info.eng.read(st, THIS)['workers']['n'] + st.roots[r] == info.eng.pool_params[0]
                out += [('workers started %s' % key[0], f), ('workers missing %s' % key[0], g), ('bound %s' % key[0], lambda st, r=key[0]: st.roots[r] <= info.eng.pool_params[0])]
        return out


class Join(Pool):
    def __init__(self, name):
        self.name = C + name

    def setup(self, eng, st, this, args):
        super().setup(eng, st, this, args)
        st.ghost['joined'] = z3.Const('joined0', AB)
        eng.pool_dtor = '~' in self.name
        w = eng.read(st, this)['workers']
        i, j = z3.Int('i!w'), z3.Int('j!w')
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < w['n']), Sel(w['el'], i) != Sel(w['el'], j))))

    def ensures(self, c):
        v = c.cur()
        k = z3.Int('k!j')
        w = v['workers']
        return self.basic(c) + [('the pool is stopped', v['stop']),
                                ('every worker has ended', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < w['n']), Sel(c.st.ghost['joined'], Sel(w['el'], k)))))]

    def loops(self, info):
        eng = info.eng
        out = worker_loops(self, info)
        k = z3.Int('k!jl')
        w = eng.read(info.st0, THIS)['workers']
        for key in info.mods:
            if key[0] == 'ghost':
                continue
            v0 = getleaf(info.st0.roots[key[0]], key[1])
            if isinstance(v0, Iter):
                idx = lambda st, key=key: getleaf(st.roots[key[0]], key[1]).idx
            elif isz(v0) and v0.sort() == IntS and not key[1]:
                idx = lambda st, key=key: st.roots[key[0]]
            else:
                continue
            out.append(('joined up to %s' % key[0], lambda st, idx=idx: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < idx(st)), Sel(st.ghost['joined'], Sel(w['el'], k))))))
        return out


def worker_loops(self, info):
    out = [('nothing taken', lambda st: st.ghost['mytask'] == -1), ('unlocked', lambda st: z3.Not(st.ghost['held'])),
           ('notified', lambda st: st.ghost['note'] == 2), ('stopped', lambda st: st.ghost['stopseen'])]
    return out


def units():
    return [Unit('pool', Enqueue.name, Enqueue(), conf=conf, find=dict(nparams=1), label='ThreadPool::enqueue(f)'),
            Unit('pool', Enqueue.name, Enqueue(), conf=conf, find=dict(nparams=2), label='ThreadPool::enqueue(f,x)'),
            Unit('pool', Ctor.name, Ctor(), conf=conf, find=dict(nparams=1), label='ThreadPool::ThreadPool and worker'),
            Unit('pool', C + 'join', Join('join'), conf=conf, label='ThreadPool::join'),
            Unit('pool', C + '~ThreadPool', Join('~ThreadPool'), conf=conf, label='ThreadPool::~ThreadPool')]
