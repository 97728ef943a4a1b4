import sys, json, os, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(512 << 20)
from core import *
import allunits


def main():
    a = sys.argv[1:]
    if a[0] == '--list':
        print('LIST ' + json.dumps([{'uid': u.uid, 'props': u.props, 'tier': u.tier, 'tprops': u.tprops, 'budget': u.budget, 'title': u.title} for u in UNITS])); return
    js = a[0] == '--json'
    if js: a = a[1:]
    d = json.load(open(a[0]))
    pat = a[1:]
    if js:
        for u in UNITS:
            if u.uid == pat[0]: print('UNIT ' + json.dumps(run_unit(u, d)))
        return
    for u in UNITS:
        if pat and not any(p in u.uid for p in pat): continue
        r = run_unit(u, d)
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        print('%-45s %-9s %3d obls %3d bad %.1fs solver %.1fs %s' % (u.uid, r['status'], len(r['obligations']), len(bad), r['time'], r.get('solver_time', 0), r['reason']), flush=True)
        if 'trace' in r: print(r['trace'])
        for o in bad[:6]: print('    ', o['status'], o['name'], o['backend'], '|', o['where'], '|', (o['goal'] or '')[:300], '|', (o['model'] or '')[:200])


t = threading.Thread(target=main)
t.start(); t.join()
