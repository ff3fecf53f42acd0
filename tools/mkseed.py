#!/usr/bin/env python3
"""Make one planted bug: mkseed.py SPECFILE.  SPECFILE is python: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), UNITS.
Confirms in a scratch copy: builds, stable tests pass, demo passes without and fails with the patch."""
import sys, os, subprocess, tempfile, shutil, json
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def one(S):
    HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = os.path.join(HERE, 'seeded', S['ID'])
    tmp = tempfile.mkdtemp(prefix='seed-'); R = os.path.join(tmp, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        for f, old, new in S['EDITS']:
            p = os.path.join(R, f); t = open(p).read()
            if t.count(old) != 1: return 'old text occurs %d times in %s' % (t.count(old), f)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=R, stdout=subprocess.PIPE).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo.cpp'), 'w').write(S['DEMO'].lstrip('\n'))
        for n, t in S.get('FILES', {}).items():
            os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True); open(os.path.join(out, n), 'w').write(t)
        units = ' '.join(S.get('UNITS', []))
        open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd /repo; the program works on its own data only
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -r "$T"' EXIT
g++ -std=c++20 -w -g -O1 %s -I"$D" -Iinclude -Isrc "$D/demo.cpp" %s -o "$T/demo" || exit 2
timeout 60 "$T/demo"
''' % (S.get('FLAGS', ''), units))
        if S.get('PAR'):
            open(os.path.join(out, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd /repo; the program works on its own data only
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -r "$T"' EXIT
export D T
ls "$D/demo.cpp" %s | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -w -O1 %s -I"$D" -Iinclude -Isrc -c {} -o "$T/$(basename {}).o"' || exit 2
g++ "$T"/*.o %s -o "$T/demo" || exit 2
timeout 120 "$T/demo"
''' % (units, S.get('FLAGS', ''), S['PAR']))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': S['PROP'], 'needs': S['NEEDS'], 'what_it_breaks': S['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r = sh('bash %s/demo.sh' % out, '/repo')
        if r.returncode != 0: return 'demo fails on the unchanged tree: ' + r.stdout.decode()[-800:]
        r = sh('bash %s/demo.sh' % out, R)
        if r.returncode in (0, 2): return 'demo exit %d with the patch: %s' % (r.returncode, r.stdout.decode()[-800:])
        msg = r.stdout.decode().strip()[-200:]
        # the stable tests, against the patched copy: same compiler line as the repository's build
        tests = S.get('TESTS', True)
        if tests:
            r = sh('git apply %s/patch.diff && bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; B=$?; bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1; T=$?; git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; exit $((B+10*T))' % (out, tmp), '/repo')
            try:
                o = json.load(open(tmp + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
            except Exception as e: return 'tests did not run: %s rc %d %s' % (e, r.returncode, r.stdout.decode()[-300:])
            bs = json.dumps(o)
            failed = o.get('failed') or []
            if failed or r.returncode % 10: return 'existing tests fail: %s rc %d' % (failed, r.returncode)
        return 'ok   demo says: ' + msg.replace('\n', ' | ')
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    for f in sys.argv[1:]:
        ns = {}; exec(open(f).read(), ns)
        for S in ns['SEEDS']:
            print(S['ID'], one(S), flush=True)
