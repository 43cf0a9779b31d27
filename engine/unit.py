"""A verification unit: one repo function checked against one contract."""
import sys, os, re, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cppvc import *
import models, build, bytesm

_ir = {}


def load_ir(driver):
    if driver not in _ir:
        _ir[driver] = IR(build.ir(driver))
    return _ir[driver]


def engine(driver, verbose=False, jobs=8):
    eng = Engine(load_ir(driver), models.M, Discharger(jobs), verbose)
    eng.model_prefixes = models.PFX
    eng.ctor_prefixes = models.CTORPFX
    return eng


class Unit:
    """driver: IR name; q: qualified function name; con: contract;
    callee: {qname: contract}; conf(eng): extra engine configuration"""

    def __init__(self, driver, q, con, callee=None, conf=None, find=None, timeout=20, label=None):
        self.driver, self.q, self.con = driver, q, con
        self.callee, self.conf, self.findkw, self.timeout = callee or {}, conf, find or {}, timeout
        self.label = label or q.split('::', 2)[-1]

    def run1(self, jobs=8, verbose=False, hardfactor=3, short=2, hints=None):
        t0 = time.time()
        res = {'unit': self.label, 'function': self.q, 'obls': [], 'error': None, 'vacuous': None}
        try:
            eng = engine(self.driver, verbose, jobs)
            if self.conf:
                self.conf(eng)
            eng.contracts = dict(self.callee)
            eng.to_short = short
            eng.hints = hints
            kw = dict(self.findkw)
            f = eng.ir.find(self.q, **kw)
            outs = eng.verify(f, self.con)
            obs = eng.obls
            todo = [o for o in obs if o.status is None]
            rs = eng.dis.batch([(o.pc, o.goal) for o in todo], timeout=self.timeout)
            for o, r in zip(todo, rs):
                o.status, o.backend, o.t, o.model = r
            bad = [o for o in todo if o.status != 'valid']
            if bad and hardfactor:
                rs = eng.dis.batch([(o.pc, o.goal) for o in bad], timeout=self.timeout * hardfactor, hard=True)
                for o, r in zip(bad, rs):
                    if r[0] == 'valid' or o.status == 'unknown':
                        o.status, o.backend, o.t, o.model = r
            # vacuity: entry and exits must not be refutable
            vac = []
            for pre, oo, nr, nt in outs:
                vac.append(('entry', pre.pc))
                for k, s, v in oo:
                    vac.append((k, s.pc))
            rs = eng.dis.batch([(pc, FALSE) for _, pc in vac], timeout=3)
            res['entry_ok'] = all(r[0] != 'valid' for (k, _), r in zip(vac, rs) if k == 'entry')
            live = [k for (k, _), r in zip(vac, rs) if r[0] != 'valid' and k != 'entry']
            res['exits'] = {k: live.count(k) for k in set(live)}
            res['vacuous'] = (not res['entry_ok']) or not live
            res['file'] = f.get('loc')
            res['obls'] = [(o.name, o.line, o.status, o.backend, o.t, o.model) for o in obs]
            kept = {}
            for o in obs:
                iv = o.inv
                if iv and iv[1] not in kept.setdefault(iv[0], []):
                    kept[iv[0]].append(iv[1])
            res['kept'] = kept
            res['used'] = sorted(eng.used_contracts)
            res['inlined'] = sorted(eng.inlined)
            res['assumptions'] = sorted(eng.assumptions)
            res['dropped'] = eng.dropped
            res['solver_time'] = eng.dis.solver_time
            res['eng'] = eng if verbose else None
        except Unsupported as ex:
            res['error'] = 'unsupported: %s' % ex
            if verbose > 1:
                traceback.print_exc()
        except Exception as ex:
            res['error'] = 'internal: %s' % ''.join(traceback.format_exception_only(ex)).strip()
            res['tb'] = traceback.format_exc()
            if verbose:
                traceback.print_exc()
        res['wall'] = time.time() - t0
        return res


def failed(res):
    return res['error'] or any(o[2] != 'valid' for o in res['obls'])


HINTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'hints')


def hintfile(u):
    return os.path.join(HINTS, re.sub(r'[^A-Za-z0-9_]+', '_', u.label) + '.json')


def make_hints(u, jobs=8, short=2):
    """record which candidate invariants survive: only the order of attempts
    on later runs depends on this, never what is proved"""
    r = u.run1(jobs, short=short)
    if failed(r) or not r.get('kept'):
        return r
    h, best = r['kept'], r['wall']
    out = h
    for _ in range(4):
        r2 = u.run1(jobs, short=short, hints=h)
        if failed(r2):
            break
        out = h
        if not r2['dropped']:
            break
        h = {k: [n for n in v if (k, n) not in {(d[5], d[2]) for d in r2['dropped']}] for k, v in r2['kept'].items()}
    os.makedirs(HINTS, exist_ok=True)
    with open(hintfile(u), 'w') as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write('\n')
    return r2


def run_unit(u, jobs=8, verbose=False, deadline=None):
    """hinted candidates first; then all of them with short, then longer
    per-candidate timeouts"""
    plans = []
    if os.path.exists(hintfile(u)) and not os.environ.get("VERIF_NOHINTS"):
        plans.append((3, json.load(open(hintfile(u)))))
    plans += [(2, None), (8, None)]
    r = None
    for i, (s, h) in enumerate(plans):
        last = i == len(plans) - 1
        if r is not None and deadline is not None and time.time() + 2 * r['wall'] > deadline:
            break
        r2 = u.run1(jobs, verbose, 3 if last or h is not None else 0, s, hints=h)
        if r is not None:
            r2['wall'] += r['wall']
        r = r2
        if not failed(r) or r['error'] or r['vacuous']:
            break
    return r


def show(res):
    n = len(res['obls'])
    ok = sum(1 for o in res['obls'] if o[2] == 'valid')
    print('%-60s %d/%d %s exits=%s %.1fs %s' % (res['unit'], ok, n, 'VACUOUS' if res['vacuous'] else '',
                                               res.get('exits'), res['wall'], res['error'] or ''))
    for o in res['obls']:
        if o[2] != 'valid':
            print('    %s  line %s: %s %.1fs' % (o[2], o[1], o[0], o[4]))
