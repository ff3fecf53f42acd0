#!/usr/bin/env python3
"""Apply each planted bug to a scratch copy and run its property's check against the copy: runseeds.py [ID...]"""
import sys, os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
man = {c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
def one(i):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    p = m['property']
    if p not in man: return i, p, 'not claimed'
    tmp = tempfile.mkdtemp(prefix='rs-')
    try:
        R, W = tmp + '/repo', tmp + '/verif'
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', HERE + '/', W]) if shutil.which('rsync') else subprocess.run('mkdir %s && cd %s && tar cf - --exclude .git --exclude seeded . | tar xf - -C %s' % (W, HERE, W), shell=True, check=True)
        subprocess.run(['git', 'apply', os.path.join(HERE, 'seeded', i, 'patch.diff')], cwd=R, check=True)
        r = subprocess.run(['python3-vt', 'check.py', p], cwd=W, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = r.stdout.decode()
        ob = [l.strip() for l in t.split('\n') if 'FAILED ' in l or 'UNDECIDED' in l]
        v = [l for l in t.split('\n') if l.startswith('VIOLATION')]
        return i, p, 'exit %d %s %s | %s' % (r.returncode, (v or [''])[0].replace(W, ''), t.strip().split('\n')[-1], '; '.join(x[:110] for x in ob[:3]))
    finally: shutil.rmtree(tmp, ignore_errors=True)
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids): print(*r, flush=True)
