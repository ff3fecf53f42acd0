#!/usr/bin/env python3-vt
"""One property: generate every obligation from /repo's current sources, discharge, report."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import glob, json, time, subprocess, tempfile, shutil, importlib, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
from specs import registry

TRUSTED_COMMON = [
    'clang 18 front end: the JSON AST it prints is the meaning of the source text',
    'ccv (the verification-condition generator in /verif/ccv) and its models of std::vector, std::set, std::pair, iterators, std::sort/find/remove/memcpy/min/max/swap and of the bit intrinsics',
    'z3 (python bindings): an "unsat" answer is believed',
    'allocation never fails; a container holds fewer than 2^60 elements',
]

def log(*a): print(*a, flush=True)

def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    return out

def build_driver(d, tmp):
    exe, err = build_driver1(d, tmp)
    if exe is None and d.get('fallback'): return build_driver1(dict(d, flags=d.get('flags', []) + d['fallback']), tmp)
    return exe, err

def build_driver1(d, tmp):
    exe = os.path.join(tmp, 'driver')
    srcs = [os.path.join(HERE, 'drivers', d['src'])] + [f for s in d.get('units', []) for f in sorted(glob.glob(os.path.join(REPO, s)))]
    flags = ['-std=c++20', '-w', '-g', '-O1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
             '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-I', os.path.join(HERE, 'drivers')] + [f.replace('@', HERE).replace('$', REPO) for f in d.get('flags', [])]
    objs, procs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, 'o%d.o' % i); objs.append(o)
        procs.append(subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    err = ''
    for p in procs:
        t, _ = p.communicate()
        if p.returncode != 0: err += t.decode(errors='replace')[:2000]
    if err: return None, err
    p = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + d.get('libs', []) + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0: return None, p.stdout.decode(errors='replace')[:2000]
    return exe, ''

def run_driver(exe, prop, seed, secs, tmp, extra=()):
    """returns (verdict, text): 'ok' / 'fail' / 'error'"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')
    try:
        p = subprocess.run([exe, prop, str(seed), str(secs)] + list(extra), cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs * 4 + 60)
    except subprocess.TimeoutExpired as e:
        return 'fail', 'the driver did not finish: an operation does not terminate\n' + ((e.stdout or b'').decode(errors='replace')[-4000:])
    t = p.stdout.decode(errors='replace')
    if p.returncode == 0 and 'OK evaluations=' in t: return 'ok', t
    if p.returncode == 1 and 'FAIL ' in t: return 'fail', t
    if p.returncode == 77: return 'fail', 'FAIL the sanitizer reports an error\n' + t
    return 'error', 'exit %d\n%s' % (p.returncode, t)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    E = registry.PROPS[prop]
    thorough = tier == 'thorough'
    budget = E.get('budget', 20) * (3 if thorough else 1)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try: rc = run(prop, tier, thorough, seed, t0, E, budget, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def run(prop, tier, thorough, seed, t0, E, budget, tmp):
    from ccv import verify as ve
    undecided, failed, timeouts = [], [], []
    obls, fns, inlined, notes, cmds, vac_bad, nvac = [], {}, set(), set(), set(), [], 0
    assumptions, trusted = list(E.get('assumptions', [])), []
    theory_n = 0
    # driver compiles while the obligations are generated
    drv = E.get('driver')
    import threading
    drvres = {}
    def bd():
        try:
            drvres['exe'], drvres['err'] = build_driver(drv, tmp)
            # a first short search: a failing input found here shortens the search for the failed obligations
            if drvres['exe']: drvres['early'] = run_driver(drvres['exe'], prop, seed, drv.get('secs', 5), tmp)
        except Exception as e: drvres['exe'], drvres['err'] = None, str(e)
    def hurry(os_):
        if drvres.get('early', ('',))[0] != 'fail': return False
        now = time.time()
        drvres.setdefault('t', now)
        if any(o.status == 'failed' for o in os_): return now > max(drvres['t'], t0 + 60) + 20
        return now > max(drvres['t'] + 60, t0 + 240)
    th = None
    if drv: th = threading.Thread(target=bd); th.start()
    for modname, arg in E['specs']:
        try:
            m = importlib.import_module('specs.' + modname)
            V, L = m.build(arg)
            V.run(L, log=log)
            if hasattr(m, 'lemmas'): m.lemmas(V, arg)
        except (ve.extract.ExtractError, ve.Unsupported) as e:
            undecided.append('%s: %s' % (modname, e)); continue
        except Exception as e:
            undecided.append('%s: internal error %s' % (modname, traceback.format_exc()[-1500:])); continue
        for q, e in V.errors.items(): undecided.append('%s: outside the translator\'s reach: %s' % (q, e))
        st = time.time()
        ve.solve_all(V.obls, V.axioms, budget=budget, deadline=t0 + (2400 if thorough else 420), hurry=hurry)
        b, n = ve.solve_vac(V.vac, V.axioms, deadline=time.time() + 60)
        vac_bad += b; nvac += n
        obls += V.obls
        for q, (k, t) in V.report.items(): fns[q] = fns.get(q, 0) + k
        inlined |= V.inlined; notes |= V.notes
        cmds |= set(V.U.cmds)
        assumptions += getattr(V, 'assumptions', [])
        trusted += getattr(V, 'trusted', [])
    ndis = sum(o.status == 'discharged' for o in obls)
    failed = [o for o in obls if o.status == 'failed']
    if E.get('owns'):
        import re as _re
        foreign = [o for o in failed if not _re.search(E['owns'], '%s: %s' % (o.fn, o.name))]
        failed = [o for o in failed if o not in foreign]
        for o in foreign: undecided.append('the proof needs an obligation of another property, which fails: %s: %s (line %s)' % (o.fn, o.name, o.line))
    timeouts = [o for o in obls if o.status == 'timeout']
    stime = sum(o.time for o in obls)
    for b in vac_bad: undecided.append('vacuity: %s: %s fails' % b)
    if not obls and E['specs']: undecided.append('no obligation was generated')
    log('%s: %d obligations, %d discharged, %d failed, %d timed out, %d vacuity probes, %.1fs solver' % (prop, len(obls), ndis, len(failed), len(timeouts), nvac, stime))
    for o in failed: log('  FAILED  %s: %s (line %s) [%s]' % (o.fn, o.name, o.line, o.detail))
    for o in timeouts: log('  UNDECIDED %s: %s (line %s) [%s]' % (o.fn, o.name, o.line, o.detail))
    for u in undecided: log('  UNDECIDED', u)
    # ---- replay against the real code
    dv, dt = 'none', ''
    if th:
        th.join()
        if drvres.get('exe'):
            secs = drv.get('secs', 5)
            if failed or timeouts or undecided: secs = max(secs * 4, 25)
            if thorough: secs = max(secs * 6, 90)
            if drvres.get('early', ('',))[0] in ('fail', 'ok') and (drvres['early'][0] == 'fail' or not (failed or timeouts or undecided or thorough)): dv, dt = drvres['early']
            else: dv, dt = run_driver(drvres['exe'], prop, seed, secs, tmp)
        else: dv, dt = 'error', 'driver does not build: ' + drvres.get('err', '')
        log('driver:', dv, dt.strip().split('\n')[0] if dv != 'fail' else '')
    proved = not failed and not timeouts and not undecided
    rc = 0
    replay = os.path.join(HERE, 'replays', prop + '.txt')
    known = load_known(prop)
    if dv == 'fail' or failed:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, 'w') as f:
            f.write('property %s, tier %s, seed %d\n' % (prop, tier, seed))
            for o in failed: f.write('FAILED OBLIGATION %s: %s (line %s), back end %s: %s\n' % (o.fn, o.name, o.line, o.solver, o.detail))
            if dv == 'fail':
                f.write('\nFailing input on the code in %s (driver %s, seed %d):\n%s\n' % (REPO, drv['src'], seed, dt))
            else:
                f.write('\nThe replay search found no failing input (%s: %s).\n' % (dv, dt[:1500]))
                for o in failed[:6]:
                    f.write('\n==== %s: %s\nfacts:\n' % (o.fn, o.name))
                    for x in o.facts[-40:]: f.write('  %s\n' % x)
                    f.write('goal: %s\nsolver: %s\n' % (o.goal, o.detail))
    if dv == 'fail':
        k = next((k for k in known if k.split(' :: ')[0] in dt), None)
        if k and not failed: log('KNOWN-FINDING: property=%s %s' % (prop, k))
        else: log('VIOLATION property=%s replay=%s' % (prop, replay)); rc = 1
    elif failed:
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)); rc = 1
    for k in known:
        if rc == 0 and dv != 'fail' : log('KNOWN-FINDING: property=%s %s' % (prop, k))
    ev = 0; dist = 0; sample = ''
    import re
    mm = re.search(r'OK evaluations=(\d+) distinct=(\d+)', dt)
    if mm: ev, dist = int(mm.group(1)), int(mm.group(2))
    mm = re.search(r'^SAMPLE (.*)$', dt, re.M)
    if mm: sample = mm.group(1)[:1500]
    backends = {}
    for o in obls:
        if o.status == 'discharged': backends[o.solver] = backends.get(o.solver, 0) + 1
    cov = {
        'obligations': len(obls), 'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s (VC generator ccv, back end z3)' % prop,
        'trusted_base': TRUSTED_COMMON + sorted(set(trusted)),
        'functions_under_contract': {k: v for k, v in sorted(fns.items())},
        'inlined_repository_functions': sorted(inlined),
        'discharged_by': backends, 'solver_seconds': round(stime, 2),
        'failed': ['%s: %s' % (o.fn, o.name) for o in failed],
        'timed_out': ['%s: %s' % (o.fn, o.name) for o in timeouts],
        'undecided': undecided,
        'vacuity_probes': nvac, 'vacuous': ['%s: %s' % b for b in vac_bad],
        'extraction_commands': sorted(cmds),
        'extraction_drops': 'declarations outside the repository (standard headers, replaced by models), comments, access specifiers, arguments of stream output',
        'bounded_replay': {'label': 'BOUNDED, not counted as proved', 'verdict': dv, 'evaluations': ev, 'distinct_nontrivial': dist,
                           'rule': E.get('rule', 'seeded random histories on the compiled code; a case is its full history of calls'), 'samples': [sample]},
    }
    level = 'proof' if proved else 'exploration'
    if level == 'exploration':
        cov.update(evaluations=ev, distinct_nontrivial=dist, rule=E.get('rule', 'seeded random histories on the compiled code'), samples=[sample])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
                   'assumptions': assumptions + sorted(notes), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc else 0}, f, indent=1)
    log('%s %s in %.1fs' % (prop, 'PROVED' if proved and not rc else 'HELD (bounded)' if not rc else 'VIOLATED', time.time() - t0))
    return rc

if __name__ == '__main__':
    main()
