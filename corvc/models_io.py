"""Models of formatting, strings, paths and files.

Texts are sequences of literals, symbolic strings and formatted values; a stream is the text written to it so far.  Rendering is active
only in units that set eng.text; everywhere else formatted text is opaque.  eng.io_fails makes every file system and stream operation fail.
"""
from models import *
from models import M, _sid

FMT_ARGS, FMT_ARG, FORMATTER, FILE, OPEN = '$fmt::Arguments', '$fmt::Argument', '$fmt::Formatter', '$file', '$open'
ALIGN = {0: 'left', 1: 'right', 2: 'center', 3: None}


def text_only(f):
    def m(eng, st, args, targs, site):
        if not eng.text: return ret(st, Opaque('fmt', tuple(args)))
        return f(eng, st, args, targs, site)
    return m


def show(trait, val, flags, width, prec):
    """formatted value in normal form: (trait, fill, align, other flags, width, precision, value)"""
    fill, al, rest = chr(flags & 0x1fffff), ALIGN[(flags >> 29) & 3], (flags >> 21) & 0x3f
    num = isinstance(val, Fl) or isinstance(val, (int,)) or is_z3(val)
    if num and rest & 8: fill, al, rest = '0', 'right', rest & ~8       # sign aware zero padding (of non-negative numbers)
    if al is None: al = 'right' if num else 'left'
    if isinstance(width, int) and width == 0: width = None
    if width is None: fill = al = None
    if width is None and prec is None and rest == 0 and trait == 'Display':
        if isinstance(val, StrV): return val
        if isinstance(val, int) and not isinstance(val, bool): return StrV(str(val))
    if isinstance(width, int) and isinstance(val, StrV) and val.lit() is not None and prec is None and trait == 'Display':
        s = val.lit(); n = max(0, width - len(s))
        return StrV({'left': s + fill * n, 'right': fill * n + s}[al]) if al != 'center' else StrV(Opaque('show', (trait, fill, al, rest, width, prec, val)))
    return StrV(Opaque('show', (trait, fill, al, rest, width, prec, val)))


def parse(template):
    """bytes of a template -> [literal | (flags, width, precision, arg)]; width and precision are None, ('arg', k) or numbers"""
    out, n, nxt = [], 0, 0
    u16 = lambda k: template[k] | template[k + 1] << 8
    while True:
        b = template[n]; n += 1
        if b == 0: return out
        if b < 0x80: out.append(bytes(template[n:n + b]).decode()); n += b
        elif b == 0x80: l = u16(n); n += 2; out.append(bytes(template[n:n + l]).decode()); n += l
        else:
            flags, width, prec, arg = 0x60000020, None, None, nxt
            if b & 1: flags = template[n] | template[n + 1] << 8 | template[n + 2] << 16 | template[n + 3] << 24; n += 4
            if b & 2: width = ('arg', u16(n)) if b & 16 else u16(n); n += 2
            if b & 4: prec = ('arg', u16(n)) if b & 32 else u16(n); n += 2
            if b & 8: arg = u16(n); n += 2
            nxt = arg + 1
            out.append((flags & ~(3 << 27), width, prec, arg))


def render(eng, st, fa):
    """[(state, StrV)] of fmt::Arguments"""
    if isinstance(fa, Opaque): return [(st, StrV(fa))]
    if fa.var == 1: return [(st, eng.deref(st, fa.fields[0]))]
    lst = eng.deref(st, fa.fields[1])
    outs = [(st, StrV(''))]
    for piece in parse(fa.fields[0]):
        nxt = []
        for s, acc in outs:
            if isinstance(piece, str): nxt.append((s, StrV(acc, piece))); continue
            flags, width, prec, k = piece
            num = lambda x: x if x is None or isinstance(x, int) else eng.deref(s, lst.items[x[1]].fields[1])
            for s2, t in render_arg(eng, s, lst.items[k], flags, num(width), num(prec)): nxt.append((s2, StrV(acc, t)))
        outs = nxt
    return outs


def render_arg(eng, st, a, flags, width, prec):
    trait, v, ty = a.fields
    while isinstance(ty, list) and ty[0] == 'ref': ty = ty[2]
    if trait == 'Debug': return [(st, StrV(Opaque('fmt', ())))]
    v = eng.deref(st, v)
    if ty == 'char':
        if isinstance(v, int): v = StrV(chr(v))
        else: v = StrV(Opaque('chr', (v,)))
    if isinstance(v, Adt) and v.key in eng.adts:
        for im in eng.impls:
            if im['trait'] and im['trait'][0] == 'std::fmt::' + trait and im['self'][0] == 'adt' and im['self'][1] == v.key:
                for n, k in im['items']:
                    if n == 'fmt':
                        s = st.clone()
                        f = eng.ref_to(s, Adt(FORMATTER, 0, (StrV(''), flags, width, prec)), True)
                        c = eng.contracts.get(k)
                        if c is not None: eng.used_contracts.add(c.name)
                        outs = c(eng, s, [eng.ref_to(s, v), f], {}) if c is not None else eng.exec_fn(s, k, {}, [eng.ref_to(s, v), f])
                        return [(o[0], eng.read(o[0], f).fields[0]) for o in outs if o[1] == 'ret']
        return [(st, StrV(Opaque('fmt', ())))]
    if isinstance(v, Fl) or isinstance(v, StrV) or isinstance(v, (bool, int)) or is_z3(v): return [(st, show(trait, v, flags, width, prec))]
    return [(st, StrV(Opaque('fmt', ())))]


def arg_model(trait):
    @text_only
    def m(eng, st, args, targs, site): return ret(st, Adt(FMT_ARG, 0, (trait, args[0], targs[0] if targs else None)))
    return m


for nm, tr in (('display', 'Display'), ('debug', 'Debug'), ('lower_exp', 'LowerExp'), ('upper_exp', 'UpperExp'), ('lower_hex', 'LowerHex')):
    M["core::fmt::rt::Argument::<'_>::new_" + nm] = arg_model(tr)
M["core::fmt::rt::Argument::<'_>::from_usize"] = arg_model('usize')


@model("std::fmt::Arguments::<'a>::new")
@text_only
def _(eng, st, args, targs, site):
    t = eng.deref(st, args[0])
    if not (isinstance(t, Opaque) and t.tag == 'const' and t.data[0] == 'bytes'): return ret(st, Opaque('fmt', ()))
    return ret(st, Adt(FMT_ARGS, 0, (t.data[1], args[1])))


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
@text_only
def _(eng, st, args, targs, site): return ret(st, Adt(FMT_ARGS, 1, (args[0],)))


@model('std::fmt::format')
@text_only
def _(eng, st, args, targs, site): return [(s, 'ret', t) for s, t in render(eng, st, args[0])]


@model('std::string::ToString::to_string')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    if isinstance(v, StrV): return ret(st, v)
    if not eng.text: return ret(st, Opaque('fmt', (v,)))
    return [(s, 'ret', t) for s, t in render_arg(eng, st, Adt(FMT_ARG, 0, ('Display', args[0], targs[0])), 0x60000020, None, None)]


# ---------------------------------------------------------------- writing
def sink(eng, st, v):
    """cell reference of the text behind a stream"""
    r = v
    while True:
        x = eng.read(st, r) if isinstance(r, Ref) else r
        if isinstance(x, Ref): r = x
        elif isinstance(x, BoxV): r = Ref(x.cell)
        elif isinstance(x, Adt) and x.key == FILE: return x.fields[0]
        elif isinstance(x, Adt) and x.key == FORMATTER: return Ref(r.cell, r.path + (('f', 0),), True)
        elif isinstance(x, StrV): return r
        else: raise Unsupported('stream %r' % (x,))


def put(eng, st, stream, text, fails=True):
    if fails and eng.io_fails:
        st.event('write failed')
        return ret(st, ERR('io'))
    c = sink(eng, st, stream)
    eng.write(st, c, StrV(eng.read(st, c), text))
    return ret(st, Ok(UNIT))


def write_args(fails):
    @text_only
    def m(eng, st, args, targs, site):
        out = []
        for s, t in render(eng, st, args[1]): out += put(eng, s, args[0], t, fails)
        return out
    return m


M['std::io::Write::write_fmt'] = write_args(True)
M["std::fmt::Formatter::<'a>::write_fmt"] = M['std::fmt::Write::write_fmt'] = write_args(False)


@model("std::fmt::Formatter::<'a>::write_str", 'std::fmt::Write::write_str')
@text_only
def _(eng, st, args, targs, site): return put(eng, st, args[0], eng.deref(st, args[1]), False)


@model("std::fmt::Formatter::<'a>::pad")
@text_only
def _(eng, st, args, targs, site):
    f = eng.deref(st, args[0])
    return put(eng, st, args[0], show('Display', eng.deref(st, args[1]), *f.fields[1:]), False)


@model('std::fmt::Display::fmt')
@text_only
def _(eng, st, args, targs, site):
    f = eng.deref(st, args[1])
    out = []
    for s, t in render_arg(eng, st, Adt(FMT_ARG, 0, ('Display', args[0], targs[0])), *f.fields[1:]): out += put(eng, s, args[1], t, False)
    return out


@model('std::io::Write::write_all')
@text_only
def _(eng, st, args, targs, site): return put(eng, st, args[0], eng.deref(st, args[1]))


@model('std::io::Write::flush')
def _(eng, st, args, targs, site): return ret(st, ERR('io') if eng.io_fails else Ok(UNIT))


@model('std::io::_print')
def _(eng, st, args, targs, site):
    if not eng.text: return ret(st, UNIT)
    out = []
    for s, t in render(eng, st, args[0]):
        c = stdout_cell(eng, s); s.cells[c] = StrV(s.cells[c], t); out.append((s, 'ret', UNIT))
    return out


def stdout_cell(eng, st):
    st.cells.setdefault('stdout', StrV(''))
    return 'stdout'


@model('std::io::stdout', 'std::io::Stdout::lock')
@text_only
def _(eng, st, args, targs, site): return ret(st, Adt(FILE, 0, (Ref(stdout_cell(eng, st), (), True),)))


@model('std::io::BufWriter::<W>::new', 'std::io::LineWriter::<W>::new')
@text_only
def _(eng, st, args, targs, site): return ret(st, args[0])


# ---------------------------------------------------------------- files
def opened(eng, st, mode, path):
    """open a file: mode 'replace' (old contents vanish), 'append' or 'overwrite' (old contents stay where not written over)"""
    if eng.io_fails:
        st.event('write failed')
        return ret(st, ERR('open'))
    c = eng.new_cell(st, StrV(''))
    st.event('open', mode, eng.deref(st, path), Ref(c, (), True))
    return ret(st, Ok(Adt(FILE, 0, (Ref(c, (), True),))))


@model('std::fs::File::options', 'std::fs::OpenOptions::new')
@text_only
def _(eng, st, args, targs, site): return ret(st, Adt(OPEN, 0, (False, False, False, False, False)))


def opt(k):
    @text_only
    def m(eng, st, args, targs, site):
        r = eng.strip(st, args[0]); o = eng.read(st, r)
        f = list(o.fields); f[k] = args[1]
        eng.write(st, r, Adt(OPEN, 0, f))
        return ret(st, args[0])
    return m


for n_, o_ in enumerate(('write', 'append', 'truncate', 'create', 'create_new')): M['std::fs::OpenOptions::' + o_] = opt(n_)


@model('std::fs::OpenOptions::open')
@text_only
def _(eng, st, args, targs, site):
    o = eng.deref(st, args[0])
    wr, ap, tr, cr, cn = o.fields
    out = []
    for bits in range(8):
        f = [bool(bits & 1), bool(bits & 2), bool(bits & 4)]
        c = band(*[beq(x, y) for x, y in zip((wr, ap, tr), f)])
        if c is False: continue
        s = st.clone()
        if c is not True:
            s.assume(c)
            if not eng.feasible(s): continue
        w, a, t = f
        if cn is not False or cr is not True or not (w or a) or (a and t): s.event('open fails on some states'); out += ret(s, ERR('open')); continue
        out += opened(eng, s, 'append' if a else 'replace' if t else 'overwrite', args[1])
    return out


@model('std::fs::File::create')
@text_only
def _(eng, st, args, targs, site): return opened(eng, st, 'replace', args[0])


@model('std::fs::write')
@text_only
def _(eng, st, args, targs, site):
    o = opened(eng, st, 'replace', args[0])
    if o[0][2].var: return o
    return put(eng, st, o[0][2].fields[0], eng.deref(st, args[1]))


@model('std::path::Path::new', 'std::path::PathBuf::from', 'std::path::Path::to_path_buf', 'std::path::PathBuf::as_path')
def _(eng, st, args, targs, site): return ret(st, args[0])


@model('std::path::Path::display')
def _(eng, st, args, targs, site): return ret(st, eng.deref(st, args[0]))


def path_key(v): return ' '.join(x if isinstance(x, str) else '%s %s' % (x.tag, x.data) if isinstance(x, Opaque) else repr(x) for x in v.parts).replace('|', '!').replace('\\', '!')


@model('std::path::Path::is_dir', 'std::path::Path::exists')
@text_only
def _(eng, st, args, targs, site):
    p = eng.deref(st, args[0])
    for x in reversed(st.trace):
        if x[0] in ('remove_dir', 'create_dir') and path_key(x[1]) == path_key(p): return ret(st, x[0] == 'create_dir')
    return ret(st, is_dir(p))


def is_dir(p): return z3.Bool('is a directory: ' + path_key(p))


def fs_op(ev):
    @text_only
    def m(eng, st, args, targs, site):
        if eng.io_fails: st.event('write failed'); return ret(st, ERR('io'))
        st.event(ev, eng.deref(st, args[0]))
        return ret(st, Ok(UNIT))
    return m


M['std::fs::remove_dir_all'] = fs_op('remove_dir')
M['std::fs::create_dir_all'] = fs_op('create_dir')
for n_ in ('remove_dir', 'create_dir', 'remove_file', 'rename', 'copy'): M['std::fs::' + n_] = fs_op('fs ' + n_)


# ---------------------------------------------------------------- strings
@model('std::string::String::push')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = args[1]
    eng.write(st, r, StrV(eng.read(st, r), chr(v) if isinstance(v, int) else Opaque('chr', (v,))))
    return ret(st, UNIT)


@model('std::string::String::push_str')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0])
    eng.write(st, r, StrV(eng.read(st, r), eng.deref(st, args[1])))
    return ret(st, UNIT)


@model('std::string::String::pop')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    p = v.parts
    if p and isinstance(p[-1], str):
        eng.write(st, r, StrV(*p[:-1], p[-1][:-1]))
        return ret(st, Some(ord(p[-1][-1])))
    if p and isinstance(p[-1], Rep) and len(p[-1].alts) >= 1 and eng.valid(st, zb(icmp('lt', p[-1].lo, p[-1].hi))):
        rp = p[-1]; out = []
        k = isub(rp.hi, 1)
        for c, ps in rp.at(eng, k):
            if not ps or not isinstance(ps[-1], str): raise Unsupported('pop of a symbolic character')
            s = st.clone()
            if c is not True: s.assume(c)
            if not eng.feasible(s): continue
            eng.write(s, r, StrV(*p[:-1], Rep(rp.lo, k, rp.i, rp.alts), *ps[:-1], ps[-1][:-1]))
            out.append((s, 'ret', Some(ord(ps[-1][-1]))))
        return out
    raise Unsupported('pop of a symbolic character')


@model('core::str::<impl str>::ends_with')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0]); c = eng.deref(st, args[1])
    c = chr(c) if isinstance(c, int) else c.lit() if isinstance(c, StrV) else None
    if c is None or not isinstance(v, StrV): raise Unsupported('ends_with')
    if not v.parts: return ret(st, c == '')
    if isinstance(v.parts[-1], str) and len(v.parts[-1]) >= len(c): return ret(st, v.parts[-1].endswith(c))
    if len(v.parts) == 1 and isinstance(v.parts[0], Opaque) and v.parts[0].tag == 'sym': return ret(st, z3.Bool('ends with %s: %s' % (c, v.parts[0].data)))
    raise Unsupported('ends_with')


@model('serde_json::to_string_pretty', 'serde_json::to_string')
def _(eng, st, args, targs, site):
    if eng.io_fails: return ret(st, ERR('json'))
    return ret(st, Ok(StrV(Opaque('json', ('pretty' if 'pretty' in site[2][1][1][1] else 'plain', eng.deref(st, args[0]))))))


@model('std::slice::<impl [T]>::concat', 'std::slice::<impl [T]>::join')
def _(eng, st, args, targs, site):
    v = eng.deref(st, args[0])
    sep = eng.deref(st, args[1]) if len(args) > 1 else StrV('')
    if isinstance(sep, int): sep = StrV(chr(sep))
    if isinstance(v, ListV):
        ps = []
        for n, x in enumerate(v.items):
            if n: ps.append(sep)
            ps.append(eng.deref(st, x))
        return ret(st, StrV(*ps))
    if isinstance(v, SymList):
        k = eng.fresh('i', I)
        part = lambda c, f: (c(k), tuple(StrV(sep, f(k)).parts))
        if not eng.valid(st, zb(icmp('lt', 0, v.n))): raise Unsupported('join of a possibly empty list')
        out = []
        for c, f in v.alts:
            s = st.clone()
            if c(0) is not True: s.assume(c(0))
            if not eng.feasible(s): continue
            out.append((s, 'ret', StrV(f(0), Rep(1, v.n, k, [part(c2, f2) for c2, f2 in v.alts]))))
        return out
    raise Unsupported('join of %r' % (v,))


_index = M['std::ops::Index::index']


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _(eng, st, args, targs, site):
    r = eng.strip(st, args[0]); v = eng.read(st, r)
    if not isinstance(v, SymList): return _index(eng, st, args, targs, site)
    i = args[1]
    if isinstance(i, Adt):
        k = i.key.split('::')[-1]
        lo, hi = {'Range': lambda: i.fields, 'RangeFrom': lambda: (i.fields[0], v.n), 'RangeTo': lambda: (0, i.fields[0]), 'RangeFull': lambda: (0, v.n)}[k]()
        g = band(icmp('le', lo, hi), icmp('le', hi, v.n))
        eng.oblige(st, 'no panic: slice index (line %s)' % line(site), g, kind='no-panic'); st.assume(g)
        return ret(st, eng.ref_to(st, SymList(v.name, isub(hi, lo), [(lambda n, c=c: c(iadd(lo, n)), lambda n, f=f: f(iadd(lo, n))) for c, f in v.alts])))
    g = band(icmp('le', 0, i), icmp('lt', i, v.n))
    eng.oblige(st, 'no panic: index in bounds (line %s)' % line(site), g, kind='no-panic'); st.assume(g)
    return [(s, 'ret', x) for s, x in list_items(eng, st, v, i)]


def first_model(k):
    def m(eng, st, args, targs, site):
        v = eng.deref(st, args[0])
        if isinstance(v, ListV): return ret(st, Some(eng.ref_to(st, v.items[k])) if v.items else NONE)
        if not isinstance(v, SymList): raise Unsupported('first of %r' % (v,))
        out = []
        s = st.clone().assume(zb(icmp('eq', v.n, 0)))
        if eng.feasible(s): out += ret(s, NONE)
        s = st.clone().assume(zb(icmp('lt', 0, v.n)))
        if eng.feasible(s): out += [(x, 'ret', Some(y)) for x, y in list_items(eng, s, v, 0 if k == 0 else isub(v.n, 1))]
        return out
    return m


M['core::slice::<impl [T]>::first'] = first_model(0)
M['core::slice::<impl [T]>::last'] = first_model(-1)
