"""Differential test of corvc's models of std and ndarray against the real functions (see /verif/modeltest).  Prints the disagreements."""
import os, subprocess, sys, collections, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = os.path.join(V, 'work')
MT, MD = os.path.join(V, 'modeltest'), os.path.join(W, 'mt')
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(W, 'ht'))
subprocess.run(['cargo', '+stable', 'build', '--offline', '--locked', '-q'], cwd=MT, env=env, check=True)
res = os.path.join(W, 'modeltest.txt'); dump = os.path.join(W, 'modeltest.json')
open(res, 'w').write(subprocess.run([os.path.join(W, 'ht/debug/modeltest')], capture_output=True, text=True, check=True).stdout)
sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib', MIRDUMP_CRATE='modeltest', MIRDUMP_OUT=dump, RUSTC_WORKSPACE_WRAPPER=os.path.join(MD, 'debug/mirdump'), CARGO_TARGET_DIR=os.path.join(W, 'dt'))
if os.path.exists(dump): os.unlink(dump)
for sub in ('debug/build', 'debug/.fingerprint', 'check/.fingerprint'):
    p = os.path.join(W, 'dt', sub)
    if os.path.isdir(p):
        for x in os.listdir(p):
            if x.startswith('modeltest'): subprocess.run(['rm', '-rf', os.path.join(p, x)])
subprocess.run(['cargo', '+nightly', 'rustc', '--lib', '--profile=check', '--locked', '--offline', '-q', '--', '-Zmir-opt-level=0'], cwd=MT, env=env, check=True)
import json
names = sys.argv[1:] or sorted({json.loads(l[4:])[1] for l in open(res) if l.startswith('OUT ')})
groups = [names[i::7] for i in range(7)]
go = lambda g: subprocess.run(['python3-vt', '-O', os.path.join(V, 'corvc/modeltest.py'), dump, res] + g, capture_output=True, text=True) if g else None
cnt = collections.Counter(); seen = set()
with cf.ThreadPoolExecutor(7) as ex:
    for p in ex.map(go, groups):
        if p is None: continue
        if p.returncode: print(p.stderr[-2000:])
        for l in p.stdout.splitlines():
            if len(l.split(' ', 4)) < 4: continue
            st, nm, mode, c, *why = l.split(' ', 4)
            cnt[st, mode] += 1
            if st != 'ok' and (st in ('WRONG', 'ERROR') or (st, nm, mode) not in seen): seen.add((st, nm, mode)); print(l)
for k in sorted(cnt): print(*k, cnt[k])
sys.exit(any(k[0] in ('WRONG', 'ERROR') for k in cnt))
