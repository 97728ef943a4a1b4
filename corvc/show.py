"""Pretty printer for mirdump JSON (debugging aid): show.py DUMP KEYSUBSTRING..."""
import json, sys
def T(t):
    if isinstance(t, str): return t
    k = t[0]
    if k == 'adt': return t[1].split('::')[-1] + ('<' + ','.join(T(x) for x in t[2]) + '>' if t[2] else '')
    if k == 'ref': return ('&mut ' if t[1] else '&') + T(t[2])
    if k == 'tuple': return '(' + ','.join(T(x) for x in t[1]) + ')'
    if k == 'slice': return '[' + T(t[1]) + ']'
    if k == 'arr': return '[' + T(t[1]) + ';' + str(t[2]) + ']'
    if k == 'param': return t[1]
    if k == 'closure': return 'closure ' + t[1]
    if k == 'fndef': return 'fn ' + t[1] + '<' + ','.join(T(x) for x in t[2]) + '>'
    return json.dumps(t)
def PL(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e == '*': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%s' % e[1]
        elif e[0] == 'i': s += '[_%s]' % e[1]
        elif e[0] == 'dc': s += ' as v%s' % e[1]
        else: s += json.dumps(e)
    return s
def OP(o):
    if o[0] in ('cp', 'mv'): return PL(o[1])
    if o[0] == 'k':
        v = o[2]
        if v[0] == 'zst': return 'const ' + T(o[1])
        return 'const ' + json.dumps(v)+':'+T(o[1])
    return json.dumps(o)
def RV(r):
    k = r[0]
    if k == 'use': return OP(r[1])
    if k == 'ref': return '&%s %s' % (r[1], PL(r[2])) 
    if k == 'bin': return '%s(%s, %s)' % (r[1], OP(r[2]), OP(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], OP(r[2]))
    if k == 'discr': return 'discr(%s)' % PL(r[1])
    return json.dumps(r)
def body(b, out):
    out.append('  argc %d' % b['argc'])
    for i, l in enumerate(b['locals']): out.append('  _%d: %s' % (i, T(l)))
    for i, bl in enumerate(b['blocks']):
        if bl['c']: continue
        out.append('  bb%d:' % i)
        for s in bl['s']:
            if s[0] == '=': out.append('    %s = %s' % (PL(s[1]), RV(s[2])))
            else: out.append('    ' + json.dumps(s))
        t = bl['t']
        if t[0] == 'call': out.append('    %s = CALL %s(%s) -> %s' % (PL(t[3]), OP(t[1]), ', '.join(OP(a) for a in t[2]), t[4]))
        else: out.append('    ' + json.dumps(t))
if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for k, f in d['fns'].items():
        if any(a in k for a in sys.argv[2:]):
            print(k, f['kind'], f['human'], f['generics'], f['line'])
            o = []; body(f['body'], o); print('\n'.join(o))
            for i, p in enumerate(f.get('promoted') or []):
                print(' promoted', i); o = []; body(p, o); print('\n'.join(o))
