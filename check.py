#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]    decides one property of /repo's current tree
   check.py --setup                               builds the tools
   check.py --units [pattern ...]                 runs verification units and prints their obligations (development)

1. mirdump (a rustc driver) compiles /repo's current source and dumps the MIR of every function.
2. corvc generates the proof obligations of the property's contracts from that MIR and discharges them.
3. the harness crate, compiled against the same tree, runs the property's oracles (bounded; labelled so).
Exit 0: held; exit 1 with a VIOLATION line: broken.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(VERIF, 'work')
REPO = os.environ.get('CORRIES_REPO', '/repo')
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
DUMP = os.path.join(WORK, 'mir.json')


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1')
    e.setdefault('HOME', '/root')
    for k in ('RUSTFLAGS', 'CARGO_PROFILE_DEV_DEBUG', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET_DIR'): e.pop(k, None)
    e.update(kw)
    return e


def sh(cmd, cwd, timeout, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, 'timeout: %s\n%s' % (' '.join(cmd), (x.stdout or b'')[-2000:] if x.stdout else '')
    except OSError as x:
        return 127, str(x)


def build_dump():
    """MIR of the current tree; (ok, message)"""
    md, mt, dt = os.path.join(VERIF, 'mirdump'), os.path.join(WORK, 'mt'), os.path.join(WORK, 'dt')
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--locked'], md, 300, CARGO_TARGET_DIR=mt)
    if rc: return False, 'building mirdump failed:\n' + out[-3000:]
    for sub in ('debug/build', 'debug/.fingerprint', 'check/.fingerprint'):
        fp = os.path.join(dt, sub)
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x == 'corries' or x.startswith('corries-'): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    if os.path.exists(DUMP): os.unlink(DUMP)
    rc, out = sh(['cargo', '+nightly', 'rustc', '--lib', '--profile=check', '--locked', '--offline', '--', '-Zmir-opt-level=0'], REPO, 400,
                 MIRDUMP_CRATE='corries', MIRDUMP_OUT=DUMP, RUSTC_WORKSPACE_WRAPPER=os.path.join(mt, 'debug', 'mirdump'), CARGO_TARGET_DIR=dt)
    if rc or not os.path.exists(DUMP): return False, 'MIR dump failed:\n' + out[-3000:]
    return True, ''


def build_harness():
    rc, out = sh(['cargo', '+stable', 'build', '--offline'], os.path.join(VERIF, 'harness'), 500, CARGO_TARGET_DIR=os.path.join(WORK, 'ht'))
    if rc:
        errs = [l for l in out.splitlines() if l.startswith('error')]
        return False, 'harness does not compile: ' + '; '.join(errs[:5] or [out[-500:]])
    return True, ''


def limit(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


STOP = [float('inf')]  # point in time after which no unit may run any more


def run_unit(uid, budget):
    cmd = [PY, '-O', os.path.join(VERIF, 'corvc', 'run.py'), '--json', DUMP, uid]
    why, t0 = 'time limit', time.time()
    if t0 < STOP[0] - 2:
        with open(os.path.join(WORK, 'unit-%d-%s' % (os.getpid(), uid.replace('/', '_'))), 'w+') as o:
            os.unlink(o.name)
            p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, preexec_fn=limit)
            try:
                while p.poll() is None and time.time() < min(t0 + budget * 1.5 + 30, STOP[0]): time.sleep(0.1)
            finally:
                if p.poll() is None: p.kill()
                else: why = ''
                p.wait()
            o.seek(0)
            out = o.read()
        for l in out.splitlines():
            if l.startswith('UNIT '): return json.loads(l[5:])
        why = why or 'verifier crashed: ' + out[-400:]
    return {'unit': uid, 'title': '', 'status': 'undecided', 'reason': why, 'obligations': [], 'functions': [], 'inlined': [], 'contracts_used': [],
            'models': [], 'assumptions': [], 'time': budget}


def list_units():
    p = subprocess.run([PY, '-O', os.path.join(VERIF, 'corvc', 'run.py'), '--list'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    for l in p.stdout.splitlines():
        if l.startswith('LIST '): return json.loads(l[5:])
    raise RuntimeError('cannot list units: ' + p.stderr[-800:])


def harness(prop, seed, scale, timeout, replay=None):
    scratch = os.path.join(WORK, 'scratch-%d-%d' % (os.getpid(), seed))
    cmd = [os.path.join(WORK, 'ht', 'debug', 'harness'), prop, '--seed', str(seed), '--scale', str(scale), '--scratch', scratch]
    if replay: cmd += ['--replay', replay]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace', cwd=WORK)
        for l in p.stdout.splitlines():
            if l.startswith('RESULT '): return json.loads(l[7:])
        return {'error': 'harness ended with status %s: %s' % (p.returncode, p.stderr[-400:]), 'rc': p.returncode}
    except subprocess.TimeoutExpired:
        return {'error': 'harness exceeded %d s' % timeout, 'timeout': True}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known(prop):
    out = []
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for l in f:
            m = re.match(r'finding: property=(\S+) oracle=(\S+) match=/(.*)/ :: (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    a = sys.argv[1:]
    os.makedirs(WORK, exist_ok=True)
    if a and a[0] == '--setup':
        with cf.ThreadPoolExecutor(2) as ex: r = [f.result() for f in (ex.submit(build_dump), ex.submit(build_harness))]
        for ok, msg in r:
            if not ok: print(msg)
        return 0 if all(ok for ok, _ in r) else 1
    if a and a[0] == '--units':
        ok, msg = build_dump()
        if not ok: print(msg); return 1
        return subprocess.call([PY, '-O', os.path.join(VERIF, 'corvc', 'run.py'), DUMP] + a[1:])
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    left = lambda: (7000 if thorough else 820) - (time.time() - t0)
    notes = []
    with cf.ThreadPoolExecutor(3) as ex:
        fd, fh, fl = ex.submit(build_dump), ex.submit(build_harness), ex.submit(list_units)
        (dok, dmsg), (hok, hmsg), units = fd.result(), fh.result(), fl.result()
    if not dok: notes.append(dmsg)
    if not hok: notes.append(hmsg)
    mine = [u for u in units if prop in u['props'] and (thorough or u['tier'] == 'quick') or thorough and prop in u['tprops']]
    recs = []
    hs = []
    kn = known(prop)
    isknown = lambda v: [w for o, rx, w in kn if o == v['oracle'] and rx.search(v['detail'])]
    STOP[0] = t0 + (6800 if thorough else 720)
    with cf.ThreadPoolExecutor(8) as ex:
        futs = []
        if dok:
            for u in sorted(mine, key=lambda u: -u['budget']): futs.append(ex.submit(run_unit, u['uid'], u['budget'] * (3 if thorough else 1)))
        runs = [(seed, 4)] if not thorough else [(seed, 40), (seed + 1, 40), (seed + 2, 40)]
        hf = [ex.submit(harness, prop, s, c, 1500 if thorough else 200) for s, c in runs] if hok else []
        hs = [f.result() for f in hf]
        # a failing input is known already: the proofs only add to the report, so they get a bounded time
        if any(not isknown(v) for h in hs if 'error' not in h for v in h['violations']): STOP[0] = min(STOP[0], time.time() + 100)
        recs = [f.result() for f in futs]
    for h in list(hs):
        if 'error' in h: notes.append(h['error'])
    crashed = [h for h in hs if 'error' in h and not h.get('timeout')]
    hs = [h for h in hs if 'error' not in h]
    viol = [dict(v, seed=h['seed'], scale=h['scale']) for h in hs for v in h['violations']]
    failed = [(r, o) for r in recs for o in r['obligations'] if o['status'] == 'failed']
    fresh = []
    for v in viol:
        k = isknown(v)
        if k: print('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
        else: fresh.append(v)
    if failed and not fresh and hok:
        # a failed obligation without a failing input so far: search harder for one
        for s in range(seed + 100, seed + 100 + (12 if thorough else 4)):
            if left() < 200: break
            h = harness(prop, s, 12, min(150, left() - 100))
            if 'error' in h: notes.append(h['error']); continue
            hs.append(h)
            fresh = [dict(v, seed=h['seed'], scale=h['scale']) for v in h['violations'] if not isknown(v)]
            if fresh: break
    rc = 0
    if fresh or failed:
        rc = 1
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % prop)
        rep = {'property': prop,
               'failed_obligations': [{'unit': r['unit'], 'obligation': o['name'], 'where': o['where'], 'goal': o['goal'], 'backend': o['backend'], 'model': o['model']} for r, o in failed[:20]],
               'failing_inputs': fresh[:10],
               'reproduce': ['cd %s/harness && CARGO_TARGET_DIR=%s/ht cargo build --offline && %s/ht/debug/harness %s --seed %d --scale %s --replay %s:%s' % (
                   VERIF, WORK, WORK, prop, v['seed'], v['scale'], v['oracle'], v['case']) for v in fresh[:3]]
               or ['python3 %s/check.py --units %s' % (VERIF, r['unit']) for r, _ in failed[:1]]}
        with open(path, 'w') as f: json.dump(rep, f, indent=1)
        for r, o in failed[:8]: print('failed obligation: [%s] %s' % (r['unit'], o['name']))
        for v in fresh[:3]: print('failing input: oracle %s case %s seed %s: %s' % (v['oracle'], v['case'], v['seed'], v['detail'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if fresh else ' no-failing-input-found'))
    for r in recs:
        if r['status'] == 'undecided': notes.append('unit %s undecided: %s' % (r['unit'], r['reason'][:300]))
    for n in notes: print('note: ' + n.strip().replace('\n', ' | ')[:600])
    obls = [o for r in recs for o in r['obligations']]
    und = [r for r in recs if r['status'] == 'undecided']
    backends = {}
    for o in obls:
        if o['status'] == 'proved': backends[o['backend']] = backends.get(o['backend'], 0) + 1
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']}
    except Exception:
        pass
    samples = [{'unit': o[0], 'obligation': o[1]} for o in [(r['unit'], o['name']) for r in recs for o in r['obligations']][:6]]
    for h in hs[:1]: samples += [str(x)[:500] for x in h['samples'][:3]]
    cov = {
        'obligations': len(obls), 'discharged': sum(o['status'] == 'proved' for o in obls),
        'checker_cmd': 'python3 %s/check.py %s --tier %s' % (VERIF, prop, tier),
        'trusted_base': trusted(recs),
        'units': [{'unit': r['unit'], 'what': r['title'], 'status': r['status'], 'reason': r['reason'][:300], 'obligations': len(r['obligations']),
                   'discharged': sum(o['status'] == 'proved' for o in r['obligations']), 'seconds': r['time'], 'solver_seconds': r.get('solver_time', 0)} for r in recs],
        'functions_under_contract': sorted(set(f for r in recs for f in r['functions'])),
        'functions_inlined_into_their_callers': sorted(set(f for r in recs for f in r['inlined']) - set(f for r in recs for f in r['functions'])),
        'contracts_used_at_call_sites': sorted(set(f for r in recs for f in r['contracts_used'])),
        'backends': backends,
        'solver_seconds': round(sum(r.get('solver_time', 0) or 0 for r in recs), 2),
        'undecided_units': [r['unit'] for r in und],
        'evaluations': sum(h['evaluations'] for h in hs), 'distinct_nontrivial': sum(h['nontrivial'] for h in hs),
        'rule': 'bounded stand-in, never counted as proved: randomly generated cases of each oracle run against the compiled code (seeded); a case is non-trivial when its oracle compared a result and did not skip the case',
        'per_oracle_bounded': {k: sum(h['per_oracle'].get(k, 0) for h in hs) for h in hs for k in h['per_oracle']},
        'samples': samples or ['none'],
        'notes': notes,
    }
    cov['explanation'] = 'contracts on the real functions, obligations generated from the MIR of the current tree; %d of %d units proved; bounded oracles on top' % (
        sum(r['status'] == 'proved' for r in recs), len(recs))
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': man.get(prop, {}).get('level', 'proof' if mine else 'exploration'),
          'coverage': cov, 'assumptions': assumptions(recs), 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh) + len(failed)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged in %d units (%d undecided), %d bounded cases, %.0f s' % (
        prop, 'broken' if rc else 'held', cov['discharged'], cov['obligations'], len(recs), len(und), cov['evaluations'], time.time() - t0))
    return rc


BASE = ['rustc MIR construction (nightly) and the mirdump driver', 'the corvc obligation generator and its loop rule', 'z3 / cvc5 / polynomial normal form back ends',
        'f64 arithmetic treated as real arithmetic with optional nan and infinity flags (no rounding, no overflow)']


def trusted(recs):
    return BASE + ['assumed contract (model) of %s' % m for m in sorted(set(m for r in recs for m in r['models']))]


def assumptions(recs):
    a = ['machine integers are mathematical integers; checked operations carry an overflow obligation', 'f64 operations are exact (rounding not modelled)']
    a += sorted(set(x for r in recs for x in r['assumptions']))
    return a


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as x:  # an internal error of the check is never reported as a violation
        import traceback
        traceback.print_exc()
        sys.exit(3)
