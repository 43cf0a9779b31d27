#!/usr/bin/env python3-vt
"""check.py <property> [--thorough] [--hints] [--show]

Decides one property on /repo's current tree: every function under contract is
re-extracted and every obligation re-discharged; a concrete harness runs the
real code against the same contract as oracle (it produces replayable inputs,
it never proves anything)."""
import sys, os, json, time, subprocess, threading, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'specs')]
sys.setrecursionlimit(20000)
import build, unit
import props

BUDGET = 780


def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                key, _, txt = l[len('finding: property=%s ' % pid):].partition(' ')
                out.append((key, txt))
    return out


class Harness(threading.Thread):
    """compile harness/<name>.cpp against /repo and run it"""

    def __init__(self, pid, name, seed, tier, out):
        super().__init__(daemon=True)
        self.pid_, self.name_, self.seed, self.tier, self.out = pid, name, seed, tier, out
        self.state, self.fails, self.cases, self.log, self.wall, self.samples = 'norun', [], 0, '', 0, []

    def run(self):
        t0 = time.time()
        try:
            self.go()
        except Exception as ex:
            self.state, self.log = 'broken', repr(ex)
        self.wall = time.time() - t0

    def go(self):
        h = props.HARNESS[self.name_]
        try:
            exe = build.harness(self.name_, h)
        except RuntimeError as ex:
            self.state, self.log = 'nobuild', str(ex)[-3000:]
            return
        scratch = os.path.join(build.B, 'scratch', '%s-%s-%d' % (self.pid_, self.name_, os.getpid()))
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=0', UBSAN_OPTIONS='print_stacktrace=1')
        lim = 150 if self.tier == 'quick' else 400
        try:
            p = subprocess.run([exe, self.pid_, str(self.seed), self.tier], cwd=scratch, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=lim)
            rc, o, e = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as ex:
            rc, o, e = 'timeout', (ex.stdout or b'').decode('utf8', 'replace'), ''
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        self.log = ('exit %s\n' % rc) + o[-20000:] + '\n--- stderr\n' + e[-6000:]
        last = ''
        for l in o.split('\n'):
            if l.startswith('FAIL '):
                k, _, m = l[5:].partition(' ')
                self.fails.append((k, m))
            elif l.startswith('CASES '):
                self.cases += int(l.split()[1])
            elif l.startswith('SAMPLE '):
                self.samples.append(l[7:])
            elif l.startswith('AT '):
                last = l[3:]
        self.state = 'ran'
        if rc == 'timeout':
            if not h.get('hang_ok'):
                self.fails.append(('hang', 'no answer within %d s; last case: %s' % (lim, last)))
        elif rc != 0 and not self.fails:
            self.fails.append(('crash', 'harness ended with %s; last case: %s' % (rc, last)))


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in a else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = props.PROPS[pid]
    units = P['units']()
    if (tier == 'thorough' or '--hints' in a) and 'thorough' in P:
        units += P['thorough']()
    if '--hints' in a:
        for u in units:
            if isinstance(u, unit.Unit):
                unit.show(unit.make_hints(u))
        return 0
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    repdir = os.path.join(build.B, 'replay')
    os.makedirs(repdir, exist_ok=True)
    replay = os.path.join(repdir, pid + '.txt')
    if os.path.exists(replay):
        os.unlink(replay)
    hs = [Harness(pid, n, seed, tier, repdir) for n in P.get('harness', [])]
    for h in hs:
        h.start()
        if not P.get('overlap'):
            h.join()
    kn = known(pid)
    viol = []
    knownhit = {}

    def harness_result():
        for h in hs:
            h.join()
            for k, m in h.fails:
                hit = [x for x in kn if x[0] == k]
                if hit:
                    knownhit[k] = hit[0][1]
                else:
                    viol.append((h, k, m))
    harness_result()
    results = []
    # a concrete failing input settles the property: the proof run is then
    # only needed to name the obligation, with a small budget
    dl = t0 + (BUDGET if not viol else min(BUDGET, time.time() - t0 + 150))
    for u in units:
        if results and time.time() > dl:
            results.append({'unit': u.label, 'function': None, 'error': 'not run: time budget', 'obls': [], 'vacuous': None, 'wall': 0,
                            'used': [], 'inlined': [], 'assumptions': [], 'solver_time': 0, 'exits': {}, 'file': None})
            continue
        r = unit.run_unit(u, verbose='--show' in a, deadline=dl) if isinstance(u, unit.Unit) else u.run1()
        unit.show(r)
        results.append(r)
        if viol and unit.failed(r):
            dl = min(dl, time.time())
    known_ob = {x[0] for x in kn if x[0].startswith('obligation:')}
    badobs, errors, vac, knownobs = [], [], [], []
    for r in results:
        if r['error']:
            errors.append('%s: %s' % (r['unit'], r['error']))
        if r['vacuous']:
            vac.append(r['unit'])
        for o in r['obls']:
            if o[2] != 'valid':
                key = 'obligation:' + (r['unit'] + '/' + o[0]).replace(' ', '_')
                (knownobs if key in known_ob else badobs).append((r, o))
    nob = sum(len(r['obls']) for r in results)
    ok = sum(1 for r in results for o in r['obls'] if o[2] == 'valid')
    verdict = 0
    lines = []
    for k, t in knownhit.items():
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, t))
    for r, o in knownobs:
        lines.append('KNOWN-FINDING: property=%s obligation %s of %s' % (pid, o[0], r['unit']))
    if viol:
        verdict = 1
        with open(replay, 'w') as f:
            f.write('property %s: failing input found by harness %s (seed %d, tier %s)\n' % (pid, viol[0][0].name_, seed, tier))
            f.write('rerun: VERIF_SEED=%d python3-vt %s %s\n\n' % (seed, os.path.join(V, 'check.py'), pid))
            for h, k, m in viol[:20]:
                f.write('FAIL %s %s\n' % (k, m))
            for r, o in badobs[:20]:
                f.write('failed obligation: %s line %s: %s (%s)\n' % (r['unit'], o[1], o[0], o[2]))
            for h in hs:
                f.write('\n--- %s\n%s\n' % (h.name_, h.log))
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay))
        for h, k, m in viol[:5]:
            lines.append('  %s: %s' % (k, m[:400]))
    elif badobs or vac:
        verdict = 1
        with open(replay, 'w') as f:
            f.write('property %s: obligations not discharged, no failing input found\n' % pid)
            for r, o in badobs:
                f.write('failed obligation: %s line %s: %s (%s by %s, %.1f s)\n%s\n' % (r['unit'], o[1], o[0], o[2], o[3], o[4], o[5] or ''))
            for v in vac:
                f.write('vacuous unit: %s\n' % v)
        for r, o in badobs[:8]:
            lines.append('  failed obligation: %s line %s: %s (%s)' % (r['unit'], o[1], o[0], o[2]))
        for v in vac:
            lines.append('  vacuous: %s' % v)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    elif errors:
        lines.append('NOTE: outside the extractor\'s reach on this tree, bounded harness only: ' + '; '.join(errors)[:600])
    for h in hs:
        if h.state != 'ran':
            lines.append('NOTE: harness %s: %s %s' % (h.name_, h.state, h.log[-600:]))
    tb = ['clang 18 front end and the extractor engine/cxx2ir.cpp', 'VC generator engine/cppvc.py and library models engine/models.py',
          'z3 4.8/4.13 and cvc5 as back ends (each answer unchecked by a second prover)'] + P.get('trusted', [])
    ass = sorted({x for r in results for x in r['assumptions']} | set(P.get('assumptions', [])))
    be = {}
    for r in results:
        for o in r['obls']:
            if o[2] == 'valid':
                be[o[3]] = be.get(o[3], 0) + 1
    cov = {
        'obligations': nob, 'discharged': ok,
        'checker_cmd': 'python3-vt check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
        'trusted_base': tb,
        'back_ends': be,
        'solver_seconds': round(sum(r['solver_time'] for r in results), 1),
        'functions_under_contract': [{'unit': r['unit'], 'function': r['function'], 'obligations': len(r['obls']),
                                      'discharged': sum(1 for o in r['obls'] if o[2] == 'valid'), 'wall_s': round(r['wall'], 1),
                                      'live_exits': r['exits'], 'callees_by_contract': r['used'], 'callees_inlined': r['inlined'],
                                      'error': r['error']} for r in results],
        'undischarged': ['%s: %s' % (r['unit'], o[0]) for r, o in badobs + knownobs],
        'bounded_harness': [{'harness': h.name_, 'state': h.state, 'cases': h.cases, 'failures': len(h.fails), 'wall_s': round(h.wall, 1),
                             'samples': h.samples[:5], 'note': 'bounded, never counted as proved'} for h in hs],
    }
    if P.get('bounded'):
        cov['bounded_parts'] = P['bounded']
    level = P.get('level', 'proof')
    if level != 'proof':
        cov['explanation'] = P.get('explanation', '')
    if level == 'proof' and errors:
        level = 'other'
        cov['explanation'] = 'bounded fallback: ' + '; '.join(errors)
    if level == 'proof' and ok < nob and not badobs:
        cov['explanation'] = 'undischarged obligations are listed known findings'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ass,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(badobs) + len(vac)}
    tmp = os.path.join(V, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(V, 'evidence', pid + '.json'))
    print('%s: %d/%d obligations discharged, %d harness cases, %.0f s' % (pid, ok, nob, sum(h.cases for h in hs), time.time() - t0))
    for l in lines:
        print(l)
    return verdict


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as ex:      # never an exit status other than 0/1
        import traceback
        traceback.print_exc()
        print('NOTE: the checker itself failed; nothing decided')
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
