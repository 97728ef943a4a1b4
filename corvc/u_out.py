"""Output: quantities, their collection, rendering into streams, files, metadata."""
from u_run import *

DATA, OUTPUT, PAYLOAD = '@writer::data::Data', '@writer::output::Output', '@writer::DataValue'
LABELS = {'XiCent': 'xi_cent', 'XiWest': 'xi_west', 'XiEast': 'xi_east', 'Prim': 'prim_', 'Cons': 'cons_', 'CSound': 'c_sound', 'T': 't', 'Iter': 'iter', 'Dt': 'dt', 'DtKind': 'dt_kind'}
KIND = {'T': 'Float', 'Iter': 'Usize', 'Dt': 'Float', 'DtKind': 'String'}
ASSOC = {'XiCent': 'Mesh', 'XiWest': 'Mesh', 'XiEast': 'Mesh', 'Prim': 'Physics', 'Cons': 'Physics', 'CSound': 'Physics'}
VECTORS = [n for n in LABELS if n not in KIND]


def data_name(e, n, q): return e.prog.enum('DataName', n, *((q,) if n in ('Prim', 'Cons') else ()))
def payload(e, k, v): return e.prog.enum(PAYLOAD, k, v)


def data_value(e, name, pay):
    """Data of a quantity with a given payload"""
    n = e.prog.adts[e.prog.adt('DataName')]['variants'][name.var]['name']
    return e.v.set(blank(e, DATA), name=name, payload=pay, data_type=e.prog.enum('DataType', KIND.get(n, 'VectorFloat')),
                   association=e.prog.enum('StructAssociation', ASSOC.get(n, 'TimeStep')))


def new_data(e, name, off, S):
    """specified result of Data::new"""
    n = e.prog.adts[e.prog.adt('DataName')]['variants'][name.var]['name']
    k = KIND.get(n, 'VectorFloat')
    return data_value(e, name, payload(e, k, {'Float': fc(0), 'Usize': 0, 'String': StrV(''), 'VectorFloat': const_arr((isub(S, imul(2, off)),), fc(0))}[k]))


def label(e, name):
    n = e.prog.adts[e.prog.adt('DataName')]['variants'][name.var]['name']
    return StrV(LABELS[n]) if not name.fields else StrV(LABELS[n], StrV(Opaque('show', ('Display', None, None, 0, None, None, name.fields[0]))))


def sym_q(st, n='q'):
    q = z3.Int(n); st.assume(z3.And(q >= 0, q < 2 ** 64))
    return q


@unit('data.new', ['C18'], 'Data::new: every quantity gets its kind of value, its source and, for vectors, one entry per cell that is not cut off')
def _(e):
    for n in LABELS:
        st, genv, E, S = setup(e, 'adiabatic')
        off = z3.Int('offset'); st.assume(z3.And(off >= 0, 2 * off <= S)); q = sym_q(st)
        nm = data_name(e, n, q)

        def eff(e, st, args, genv, pre, nm=nm, off=off, S=S): return [Out(st, new_data(e, nm, off, S))]
        verify(e, Contract('Data::new', e.prog.method(DATA, 'new'), eff), st, [named(e, st, nm, 'name'), off], genv, n)


@unit('data.display', ['C18'], 'labels of the quantities')
def _(e):
    e.text = True
    for n in LABELS:
        st = State(); q = sym_q(st)
        d = data_value(e, data_name(e, n, q), payload(e, 'Usize', 0))

        def eff(e, st, args, genv, pre, n=n, q=q):
            f = e.strip(st, args[1]); x = e.read(st, f)
            e.write(st, f, Adt(x.key, 0, (StrV(x.fields[0], label(e, data_name(e, n, q))),) + tuple(x.fields[1:])))
            return [Out(st, Ok(UNIT))]
        f = named(e, st, Adt(models_io.FORMATTER, 0, (StrV(Opaque('sym', 'before')), 0x60000020, None, None)), 'formatter')
        verify(e, Contract('Data::fmt', e.prog.method(DATA, 'fmt', 'Display'), eff), st, [named(e, st, d, 'data'), f], {}, n)


# ---------------------------------------------------------------- collection
def cells_of(a, off, S): return LamArr((isub(S, imul(2, off)),), lambda x: a.get((iadd(off, x[0]),)))


def row(a, q): return LamArr(a.shape[1:], lambda x: a.get((q,) + tuple(x)))


def dt_kind(e, n): return Adt(e.prog.adt('DtKind'), e.prog.variant('DtKind', n), ())


def collect_contract(e, ty, current):
    """the payload becomes the current value of the quantity; a quantity of another source is refused"""
    def eff(e, st, args, genv, pre):
        r = e.strip(st, args[1]); d = e.read(st, r)
        w = current(e, e.deref(st, args[0]), e.v.get(d, 'name'), args[2])
        if w is None: return [Out(st, ERR)]
        e.write(st, r, e.v.set(d, payload=w))
        return [Out(st, Ok(UNIT))]
    return Contract('%s::collect_data' % ty, e.prog.method(ty, 'collect_data', 'Collectable'), eff)


def vname(e, name): return e.prog.adts[e.prog.adt('DataName')]['variants'][name.var]['name']


def mesh_current(S):
    def f(e, m, name, off):
        n = vname(e, name)
        if n not in ('XiCent', 'XiWest', 'XiEast'): return None
        return payload(e, 'VectorFloat', cells_of(e.v.get(m, {'XiCent': 'xi_cent', 'XiWest': 'xi_west', 'XiEast': 'xi_east'}[n]), off, S))
    return f


def vars_current(S):
    def f(e, v, name, off):
        n = vname(e, name)
        if n == 'CSound': return payload(e, 'VectorFloat', cells_of(e.v.get(v, 'c_sound'), off, S))
        if n not in ('Prim', 'Cons'): return None
        return payload(e, 'VectorFloat', cells_of(row(e.v.get(v, n.lower()), name.fields[0]), off, S))
    return f


def ts_current(e, t, name, off):
    n = vname(e, name)
    if n == 'DtKind':
        k = e.prog.adts[e.prog.adt('DtKind')]['variants'][e.v.get(t, 'dt_kind').var]['name']
        return payload(e, 'String', StrV({'Init': 'init', 'Cfl': 'cfl', 'ErrorDump': 'err'}[k]))
    if n not in ('T', 'Iter', 'Dt'): return None
    return payload(e, {'Iter': 'Usize'}.get(n, 'Float'), e.v.get(t, n.lower()))


def old_data(e, nm, off, S): 
    n = vname(e, nm)
    k = KIND.get(n, 'VectorFloat')
    return data_value(e, nm, payload(e, k, {'Float': Fl(z3.Real('old')), 'Usize': z3.Int('old'), 'String': StrV(Opaque('sym', 'old')), 'VectorFloat': BaseArr('old', (isub(S, imul(2, off)),))}[k]))


def collect_case(e, ty, n, make, current, q=None, label=''):
    e.text = True
    st, genv, E, S = setup(e, 'adiabatic')
    off = z3.Int('offset'); st.assume(z3.And(off >= 0, 2 * off < S))
    src = make(e, st, genv, E, S)
    if q is None: q = sym_q(st)
    d = old_data(e, data_name(e, n, q), off, S)
    sr = e.ref_to(st, src); e.cell_names[sr.cell] = ty
    verify(e, collect_contract(e, ty, current(S) if current is not ts_current else ts_current), st, [sr, named(e, st, d, 'data'), off], genv, n + label)


@unit('collect.mesh', ['C18'], 'Mesh: the coordinates of the cells that are not cut off; quantities of other sources are refused')
def _(e):
    for n in LABELS: collect_case(e, 'Mesh', n, lambda e, st, genv, E, S: sym_mesh(e, st, genv, 'mesh', (E, S)), mesh_current)


for ph in PHYS:
    @unit('collect.vars.%s' % ph, ['C18'], 'Variables: the values of the cells that are not cut off; quantities of other sources are refused')
    def _(e, ph=ph):
        for n in LABELS:
            for q in (range(PHYS[ph][1]) if n in ('Prim', 'Cons') else (0,)):
                def make(e, st, genv, E, S): return sym_vars(e, st, genv, 'u', (PHYS[ph][1], S))
                collect_case(e, 'Variables', n, make, vars_current, q, '(%d)' % q)


@unit('collect.time', ['C18'], 'TimeStep: time, iteration, step width and its kind; quantities of other sources are refused')
def _(e):
    for k in ('Init', 'Cfl', 'ErrorDump'):
        for n in LABELS:
            collect_case(e, 'TimeStep', n, lambda e, st, genv, E, S: e.v.set(sym_ts(e, st), dt_kind=dt_kind(e, k)), ts_current, label=' [%s]' % k)


# ---------------------------------------------------------------- one output
STREAMS, MODES, FMTS = ('File', 'Stdout'), ('Scalar', 'Vector'), ('TSV', 'CSV')
INTS = z3.Function


def digits(st, n, name='digits'):
    """number of decimal digits of n >= 1 and what is assumed of the logarithm"""
    w = z3.Int(name)
    lg = z3.Function('log10', R, R)(z3.ToReal(n))
    st.assume(z3.And(w >= 1, w <= 20, lg >= 0))
    for k in range(1, 20):
        st.assume((n >= 10 ** k) == (w >= k + 1))
        st.assume((n >= 10 ** k) == (lg >= k))
    return w


def out_config(e, st, sm, cm, fm, ghosts, names):
    p = e.prog
    prec = z3.Int('precision'); st.assume(z3.And(prec >= 0, prec < 2 ** 16))
    return e.v.set(blank(e, 'OutputConfig'), stream_mode=p.enum('StreamMode', sm), string_conversion_mode=p.enum('ToStringConversionMode', cm), formatting_mode=p.enum('FormattingMode', fm),
                   folder_name=StrV(Opaque('sym', 'folder')), file_name=StrV(Opaque('sym', 'file')), data_names=names, precision=prec, should_print_ghostcells=ghosts,
                   should_clear_out_folder=z3.Bool('clear'), should_print_metadata=z3.Bool('metadata'))


def c_data_new(e):
    def eff(e, st, args, genv, pre):
        off, S = args[1], e.prog_int(e.subst(['param', 'S'], genv)) if hasattr(e, 'prog_int') else genv['S'][1]
        pre('the offset leaves cells', icmp('le', imul(2, off), S))
        return [Out(st, new_data(e, e.deref(st, args[0]), off, S))]
    return Contract('Data::new', e.prog.method(DATA, 'new'), eff)


def c_label(e):
    """label of a quantity written by a plain formatter"""
    def eff(e, st, args, genv, pre):
        f = e.strip(st, args[1]); x = e.read(st, f)
        if x.fields[2] is not None or x.fields[3] is not None: raise Unsupported('label written with a width')
        e.write(st, f, Adt(x.key, 0, (StrV(x.fields[0], Opaque('label', (e.v.get(e.deref(st, args[0]), 'name'),))),) + tuple(x.fields[1:])))
        return [Out(st, Ok(UNIT))]
    return Contract('Data::fmt', e.prog.method(DATA, 'fmt', 'Display'), eff)


def made_output(e, sm, cm, fm, ghosts):
    """an output as Output::new makes it, for arbitrary names, precision and quantities: [(state, output, S, configuration, counter width)]"""
    e.text = True
    for c in (c_data_new(e), c_label(e)): e.contracts[c.key] = c
    st, genv, E, S = setup(e, 'adiabatic')
    n, names, _ = data_list(e); st.assume(z3.And(n >= 1, n < 2 ** 62))
    cfg = out_config(e, st, sm, cm, fm, ghosts, names)
    mx = z3.Int('output_counter_max'); st.assume(z3.And(mx >= 1, mx < 2 ** 53))
    w = digits(st, mx)
    m = e.v.set(sym_mesh(e, st, genv, 'mesh', (E, S)), n_all=S, n_comp=isub(S, 4), imin=0, ixi_in=2)
    cr, mr = e.ref_to(st, cfg), e.ref_to(st, m)
    key = e.prog.method(OUTPUT, 'new')
    outs = [(s, v) for s, k, v in e.exec_fn(st, key, genv, [cr, mr, mx]) if k == 'ret' and e.feasible(s)]
    e.covered.add(key)
    return outs, S, cfg, w, n, names


def folder_events(s): return [x for x in s.trace if x[0] not in ('open',)]


def file_root(s, cfg_folder_slash):
    """folder and file name with exactly one separator"""
    return (Opaque('sym', 'folder'),) + (() if cfg_folder_slash else ('/',)) + (Opaque('sym', 'file'),)


SLASH = z3.Bool('ends with /: folder')


def split(e, s, c):
    """the state under c and under its negation"""
    out = []
    for v in (True, False):
        x = s.clone().assume(c if v else z3.Not(c))
        if e.feasible(x): out.append((x, v))
    return out


def payload_kinds(cm): return ('String', 'Usize', 'Float') + (('VectorFloat',) if cm == 'Vector' else ())


def full_data(e, n, cm, ghosts, S, tag='d'):
    """list of quantities with values of any kind"""
    kind = z3.Function(tag + '.kind', I, I)
    fl, us, vec = z3.Function(tag + '.float', I, R), z3.Function(tag + '.usize', I, I), z3.Function(tag + '.vector', I, I, R)
    ln = S if ghosts else isub(S, 4)
    alts = []
    for k, nm in enumerate(payload_kinds(cm)):
        def mk(i, nm=nm):
            v = {'String': lambda: StrV(Opaque('sym', (tag + '.string', i))), 'Usize': lambda: us(zi(i)), 'Float': lambda: Fl(fl(zi(i))), 'VectorFloat': lambda: LamArr((ln,), lambda x: Fl(vec(zi(i), zi(x[0]))))}[nm]()
            return e.v.set(blank(e, DATA), name=Opaque('quantity', (i,)), payload=payload(e, nm, v), data_type=Opaque('type', (i,)), association=Opaque('association', (i,)))
        alts.append(((lambda i, k=k: kind(zi(i)) == k) if k else (lambda i: z3.Not(z3.Or([kind(zi(i)) == x for x in range(1, len(payload_kinds(cm)))]))), mk))
    return SymList(tag, n, alts)


def shown(tr, v, width, prec=None):
    al = None if width is None else 'right'
    if width is None and prec is None and tr == 'Display' and isinstance(v, StrV): return v
    return StrV(Opaque('show', (tr, None if width is None else ' ', al, 0, width, prec, v)))


def cell_text(e, d, j, width, prec):
    k = e.prog.adts[e.prog.adt(PAYLOAD)]['variants'][e.v.get(d, 'payload').var]['name']
    v = e.v.get(d, 'payload').fields[0]
    if k in ('String', 'Usize'): return shown('Display', v, width)
    return shown('LowerExp', v.get((j,)) if k == 'VectorFloat' else v, width, prec)


def expected_text(e, s, data, fm, cm, rows, header, width, prec):
    """[(state, text)]: header line and one line per row; the kind of the first quantity splits cases"""
    sep, com, lead = {'TSV': (' ', '#', ' '), 'CSV': (',', '', '')}[fm]
    i, j = z3.Int('i!spec'), z3.Int('j!spec')
    lab = lambda k: shown('Display', StrV(Opaque('label', (Opaque('quantity', (k,)),))), width).parts
    head = StrV(com, *lab(0), Rep(1, data.n, i, [(True, StrV(sep, *lab(i)).parts)]), '\n').parts if header else ()
    out = []
    for c, f in data.alts:
        s2 = s.clone().assume(zb(c(0)))
        if not e.feasible(s2): continue
        line = lambda jj: StrV(lead, *cell_text(e, f(0), jj, width, prec).parts, Rep(1, data.n, i, [(c2(i), StrV(sep, *cell_text(e, f2(i), jj, width, prec).parts).parts) for c2, f2 in data.alts]), '\n').parts
        body = line(0) if cm == 'Scalar' else (Rep(0, rows, j, [(True, line(j))]),)
        out.append((s2, StrV(*head, *body)))
    return out


def write_case(e, sm, cm, fm, ghosts):
    nm = 'Output [%s, %s, %s%s]' % (sm, cm, fm, '' if cm == 'Scalar' else ', ghost cells' if ghosts else ', no ghost cells')
    outs, S, cfg, w, n, names = made_output(e, sm, cm, fm, ghosts)
    key = e.prog.method(OUTPUT, 'write_output'); e.covered.add(key)
    prec = e.v.get(cfg, 'precision')
    width = models.imin(12, iadd(prec, 7)) if fm == 'TSV' else None
    rows = 1 if cm == 'Scalar' else S if ghosts else isub(S, 4)
    oks = 0
    for s0, r in outs:
        if r.var != 0: e.oblige(s0, nm + ': constructed', False); continue
        o1 = e.v.set(r.fields[0], data=full_data(e, n, cm, ghosts, S))
        for first in (True, False):
            s1 = s0.clone(); s1.trace = ()
            ctr = z3.Int('counter'); s1.assume(z3.And(ctr >= 0, ctr < 2 ** 62))
            sink_cell = models_io.stdout_cell(e, s1); s1.cells[sink_cell] = StrV('')
            orf = named(e, s1, o1, 'output')
            nxt = None
            for s2, k, v in e.exec_fn(s1, key, {}, [orf, ctr]):
                if k != 'ret' or not e.feasible(s2): continue
                lab = '%s, %s write' % (nm, 'first' if first else 'later')
                e.oblige(s2, lab + ': succeeds', v.var == 0)
                if v.var: continue
                oks += 1
                o2 = e.read(s2, orf)
                if nxt is None: nxt = o2
                for s3, slash in (split(e, s2, SLASH) if sm == 'File' else [(s2, False)]):
                    check_write(e, s3, lab, sm, cm, fm, first, slash, o1, rows, width, prec, w, ctr)
                if first: compare(e, s2, lab + ': the values are kept', e.v.get(o2, 'data'), e.v.get(o1, 'data'), s2, s2)
                elif not same_value(o1, e.v.set(o2, data=e.v.get(o1, 'data'))): raise Unsupported('the state of the output changes with every write')
            if nxt is None: raise Late(nm + ': no successful write')
            o1 = e.v.set(nxt, data=e.v.get(o1, 'data'))
    if not oks: raise Late(nm + ': no successful write')


def same_value(a, b):
    if a is b: return True
    if isinstance(a, Adt) and isinstance(b, Adt): return a.key == b.key and a.var == b.var and all(same_value(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, (StrV, Opaque)): return data_same(a, b)
    if is_z3(a) and is_z3(b): return a.eq(b)
    if isinstance(a, Fl) and isinstance(b, Fl): return fl_is(a, b)
    return type(a) is type(b) and isinstance(a, (int, str, bool)) and a == b


def fl_is(a, b):
    x = fsame(a, b)
    return x is True


def check_write(e, s, lab, sm, cm, fm, first, slash, out, rows, width, prec, w, ctr):
    ops = [x for x in s.trace if x[0] == 'open']
    e.oblige(s, lab + ': exactly one stream is written', len(ops) == (1 if sm == 'File' else 0) and len(s.trace) == len(ops) and (sm == 'Stdout' or not s.cells['stdout'].parts))
    if sm == 'File':
        if len(ops) != 1: return
        _, mode, path, cell = ops[0]
        e.oblige(s, lab + ': %s' % ('the file starts anew' if first or cm == 'Vector' else 'the file is continued'), mode == ('replace' if first or cm == 'Vector' else 'append'))
        want = StrV(*file_root(s, slash), *((('_', StrV(Opaque('show', ('Display', '0', 'right', 0, w, None, ctr))))) if cm == 'Vector' else ()), {'TSV': '.tsv', 'CSV': '.csv'}[fm])
        compare(e, s, lab + ': path', path, want, s, s)
        text = e.read(s, cell)
    else: text = s.cells['stdout']
    for s2, want in expected_text(e, s, e.v.get(out, 'data'), fm, cm, rows, first or cm == 'Vector', width, prec):
        compare(e, s2, lab + ': text', text, want, s2, s2)


for sm in STREAMS:
    for cm in MODES:
        for fm in FMTS:
            for gh in ((True, False) if cm == 'Vector' else (False,)):
                @unit('output.write.%s.%s.%s%s' % (sm, cm, fm, '.ghosts' if gh else ''), ['C18'], 'every write of an output (%s, %s, %s%s): the file it goes to, whether the file is continued, header and lines; any quantities, precision, names, number of cells and number of writes' % (sm, cm, fm, ', ghost cells' if gh else ''))
                def _(e, sm=sm, cm=cm, fm=fm, gh=gh): write_case(e, sm, cm, fm, gh)


# ---------------------------------------------------------------- making an output
def fs_ops(s): return [x for x in s.trace]


for sm in STREAMS:
    @unit('output.new.%s' % sm, ['C18'], 'Output::new (%s): the folder is emptied exactly if that is configured and exists afterwards; one entry per configured quantity, in order, with room for the cells that are shown; nothing else is touched' % sm)
    def _(e, sm=sm):
        for cm in MODES:
            for gh in (True, False):
                nm = 'Output::new [%s, %s%s]' % (sm, cm, ', ghost cells' if gh else '')
                outs, S, cfg, w, n, names = made_output(e, sm, cm, 'TSV', gh)
                D = models_io.is_dir(StrV(Opaque('sym', 'folder'))); clear = z3.Bool('clear')
                folder = StrV(Opaque('sym', 'folder'))
                if not outs: raise Late(nm + ': no path returns')
                for s, r in outs:
                    e.oblige(s, nm + ': succeeds', r.var == 0)
                    if r.var: continue
                    rm, mk = [x for x in s.trace if x[0] == 'remove_dir'], [x for x in s.trace if x[0] == 'create_dir']
                    e.oblige(s, nm + ': nothing but the folder is touched', len(rm) + len(mk) == len(s.trace) and len(rm) <= 1 and len(mk) <= 1)
                    for x in rm + mk: compare(e, s, nm + ': folder', x[1], folder, s, s)
                    if sm == 'File':
                        e.oblige(s, nm + ': the folder is emptied exactly if that is configured', beq(bool(rm), band(clear, D)))
                        e.oblige(s, nm + ': the folder exists afterwards', bor(bool(mk) and (not rm or s.trace.index(mk[0]) > s.trace.index(rm[0])), band(D, not rm)))
                    else: e.oblige(s, nm + ': no folder is touched', not s.trace)
                    off = 0 if gh else 2
                    want = SymList('wanted', n, [(c, lambda i, f=f: new_data(e, f(i), off, S)) for c, f in names.alts])
                    compare(e, s, nm + ': quantities', e.v.get(r.fields[0], 'data'), want, s, s)

    @unit('output.fails.%s' % sm, ['C18'], 'a failing file system operation or stream is an error of Output::new, write_output and write_metadata (%s)' % sm)
    def _(e, sm=sm):
        for cm in MODES:
            outs, S, cfg, w, n, names = made_output(e, sm, cm, 'TSV', False)
            e.io_fails = True
            try:
                st0 = None
                for s0, r in outs:
                    if r.var: continue
                    for nm, key, args in (('write_output', e.prog.method(OUTPUT, 'write_output'), [z3.Int('counter')]), ('write_metadata', e.prog.method(OUTPUT, 'write_metadata'), [StrV(Opaque('sym', 'meta'))])):
                        s1 = s0.clone(); s1.trace = (); s1.assume(z3.And(z3.Int('counter') >= 0, z3.Int('counter') < 2 ** 62))
                        models_io.stdout_cell(e, s1)
                        o1 = e.v.set(r.fields[0], data=full_data(e, n, cm, False, S))
                        orf = named(e, s1, o1, 'output')
                        got = 0
                        for s2, k, v in e.exec_fn(s1, key, {'S': ['cval', S]}, [orf] + [e.ref_to(s1, a) if isinstance(a, StrV) else a for a in args]):
                            if k != 'ret' or not e.feasible(s2): continue
                            got += 1
                            if any(x[0] == 'write failed' for x in s2.trace): e.oblige(s2, 'Output::%s [%s, %s]: an error' % (nm, sm, cm), v.var == 1)
                        if not got: raise Late('no path returns')
            finally: e.io_fails = False
        e.oblige(State(), 'the cases are covered', True)


@unit('output.metadata', ['C18'], 'Output::write_metadata: the metadata, and nothing else, in a new file next to the output or on the terminal, exactly if configured')
def _(e):
    for sm in STREAMS:
        for cm in MODES:
            nm = 'Output::write_metadata [%s, %s]' % (sm, cm)
            outs, S, cfg, w, n, names = made_output(e, sm, cm, 'TSV', False)
            key = e.prog.method(OUTPUT, 'write_metadata'); e.covered.add(key)
            meta = StrV(Opaque('sym', 'meta'))
            got = 0
            for s0, r in outs:
                if r.var: continue
                s1 = s0.clone(); s1.trace = ()
                models_io.stdout_cell(e, s1); s1.cells['stdout'] = StrV('')
                pre = r.fields[0]
                orf = named(e, s1, pre, 'output')
                for s2, k, v in e.exec_fn(s1, key, {'S': ['cval', S]}, [orf, e.ref_to(s1, meta)]):
                    if k != 'ret' or not e.feasible(s2): continue
                    got += 1
                    e.oblige(s2, nm + ': succeeds', v.var == 0)
                    for s3, on in split(e, s2, z3.Bool('metadata')):
                        ops = s3.trace
                        if not on: e.oblige(s3, nm + ': nothing is written unless configured', not ops and not s3.cells['stdout'].parts); continue
                        if sm == 'Stdout': e.oblige(s3, nm + ': no file is touched', not ops); compare(e, s3, nm + ': text', s3.cells['stdout'], StrV(meta, '\n'), s3, s3); continue
                        e.oblige(s3, nm + ': one new file', len(ops) == 1 and ops[0][:2] == ('open', 'replace') and not s3.cells['stdout'].parts)
                        if len(ops) != 1 or ops[0][0] != 'open': continue
                        compare(e, s3, nm + ': text', e.read(s3, ops[0][3]), meta, s3, s3)
                        for s4, slash in split(e, s3, SLASH):
                            compare(e, s4, nm + ': path', ops[0][2], StrV(*file_root(s4, slash), '_' if cm == 'Vector' else '', '_metadata.json'), s4, s4)
            if not got: raise Late('no path returns')


# ---------------------------------------------------------------- updating
SOURCES = {'Mesh': 2, 'Physics': 0, 'TimeStep': 1}


@unit('output.update', ['C18', 'C14'], 'Output::update_data: every quantity, whatever their number, is collected from its source; an error exactly if a collection fails')
def _(e):
    st = State()
    p = e.prog
    n = z3.Int('quantities'); st.assume(z3.And(n >= 0, n < 2 ** 62))
    which = z3.Function('source', I, I); good = z3.Function('collect_succeeds', I, B)
    off = z3.Int('offset'); st.assume(z3.And(off >= 0, off < 2 ** 62))
    names = list(SOURCES)
    alts = [((lambda i, k=k: which(zi(i)) == k) if k else (lambda i: z3.Not(z3.Or([which(zi(i)) == x for x in range(1, len(names))]))),
             lambda i, a=a: e.v.set(blank(e, DATA), name=Opaque('quantity', (i,)), payload=Opaque('before', (i,)), data_type=Opaque('type', (i,)), association=p.enum('StructAssociation', a))) for k, a in enumerate(names)]
    lst = SymList('quantities', n, alts)
    o = e.v.set(blank(e, OUTPUT), data=lst, mesh_offset=off)

    def eff(e, st, args, genv, pre):
        r = e.strip(st, args[1]); d = e.read(st, r)
        src = e.deref(st, args[0]); i = e.v.get(d, 'name').data[0]
        pre('the offset of the output is used', icmp('eq', args[2], off))
        b = st.clone()
        e.write(st, r, e.v.set(d, payload=Opaque('collected', (src.key, i))))
        return [Out(st, Ok(UNIT), good(zi(i))), Out(b, ERR, bnot(good(zi(i))))]
    k = trait_key(e, 'Collectable', 'collect_data')
    e.contracts[k] = Contract('Collectable::collect_data', k, eff)
    e.text = True
    srcs = [e.ref_to(st, Adt('$source %s' % a, 0, ())) for a in sorted(names, key=lambda a: SOURCES[a])]
    orf = named(e, st, o, 'output')
    key = p.method(OUTPUT, 'update_data')
    nm = 'Output::update_data'
    oks = 0
    e.facts.append(Fact(z3.Bool('all succeed'), (n,), lambda k: good(zi(k[0])), ''))
    for hyp in (None, z3.Bool('all succeed')):
        s0 = st.clone()
        if hyp is not None: s0.assume(hyp)
        for s, kind, v in e.exec_fn(s0, key, {'impl Collectable': ['abstract', 'C']}, [orf] + srcs):
            if kind != 'ret' or not e.feasible(s): continue
            if hyp is not None: e.oblige(s, nm + ': succeeds if every collection does', v.var == 0)
            if v.var: continue
            oks += 1
            got = e.v.get(e.read(s, orf), 'data')
            compare(e, s, nm + ': quantities', got, SymList('wanted', n, [(c, lambda i, f=f, a=a: e.v.set(f(i), payload=Opaque('collected', ('$source %s' % a, i)))) for (c, f), a in zip(alts, names)]), s, s)
            for fi, f in enumerate(p.fields(OUTPUT)):
                if f != 'data': e.oblige(s, nm + ': %s is kept' % f, e.read(s, orf).fields[fi] is o.fields[fi])
            x = e.fresh('k', I); e.add_index(x)
            e.oblige(s.clone().assume(z3.And(x >= 0, x < n)), nm + ': Ok only if every collection succeeds', good(x))
    if not oks: raise Late(nm + ': no successful path')
    e.covered.add(key)


# ---------------------------------------------------------------- all outputs
def writer_case(e, what, eff_result, args_of, post):
    """Writer function that passes a call on to every output: any number of outputs, each visited once; an error exactly if one fails"""
    p = e.prog; e.text = True
    nm = 'Writer::' + what
    key, ikey = p.method(WRITER, what), p.method(OUTPUT, what)
    good = z3.Function('output_succeeds', I, B)
    e.facts.append(Fact(z3.Bool('all succeed'), (z3.Int('outputs'),), lambda k: good(zi(k[0])), ''))
    oks = 0
    for hyp in (None, z3.Bool('all succeed')):
        st = State()
        n, ctr = z3.Int('outputs'), z3.Int('output_counter')
        st.assume(z3.And(n >= 0, n < 2 ** 62, ctr >= 0, ctr < 2 ** 62))
        out = lambda i: e.v.set(blank(e, OUTPUT), data=Opaque('data', (i,)))
        w0 = e.v.set(blank(e, WRITER), outputs=SymList('outputs', n, [(lambda i: True, out)]), output_counter=ctr, should_perform_output=z3.Bool('should'), meta_data=StrV(Opaque('sym', 'meta')), print_banner=z3.Bool('banner'))
        args = args_of(e, st)

        def eff(e, st, a, genv, pre):
            r = e.strip(st, a[0]); o = e.read(st, r); i = e.v.get(o, 'data').data[0]
            st2 = st.clone()
            x = eff_result(e, st, [e.deref(st, y) for y in a[1:]], o, pre, ctr)
            if x is not o: e.write(st, r, x)
            if not isinstance(x, Adt) or x is o: st.event('handled', i)
            return [Out(st, Ok(UNIT), good(zi(i))), Out(st2, ERR, bnot(good(zi(i))))]
        e.contracts[ikey] = Contract('Output::' + what, ikey, eff)
        wr = named(e, st, w0, 'writer')
        if hyp is not None: st.assume(hyp)
        for s, kind, v in e.exec_fn(st, key, {'impl Collectable': ['abstract', 'C'], 'S': ['cval', z3.Int('S')]}, [wr] + args):
            if kind != 'ret' or not e.feasible(s): continue
            if hyp is not None: e.oblige(s, nm + ': succeeds if every output does', v.var == 0)
            if v.var: continue
            oks += 1
            x = e.fresh('k', I); e.add_index(x)
            e.oblige(s.clone().assume(z3.And(x >= 0, x < n)), nm + ': Ok only if every output succeeds', good(x))
            post(e, s, nm, w0, e.read(s, wr), n)
    if not oks: raise Late(nm + ': no successful path')
    e.covered.add(key)


def kept(e, s, nm, w0, w1, *but):
    for n in ('outputs', 'output_counter', 'should_perform_output', 'meta_data', 'print_banner'):
        if n not in but: compare(e, s, '%s: %s is kept' % (nm, n), e.v.get(w1, n), e.v.get(w0, n), s, s)


def outputs_are(e, s, nm, w1, n, f):
    compare(e, s, nm + ': outputs', e.v.get(w1, 'outputs'), SymList('wanted', n, [(lambda i: True, lambda i: e.v.set(blank(e, OUTPUT), data=f(i)))]), s, s)


@unit('writer.update', ['C18', 'C14'], 'Writer::update_data: every output, whatever their number, is updated once from the given sources')
def _(e):
    def args_of(e, st): return [e.ref_to(st, Adt('$source %s' % a, 0, ())) for a in ('u', 'time', 'mesh')]

    def eff(e, st, a, o, pre, ctr):
        pre('the sources are passed on in their order', [x.key for x in a] == ['$source u', '$source time', '$source mesh'])
        return e.v.set(o, data=Opaque('updated', (e.v.get(o, 'data').data[0],)))

    def post(e, s, nm, w0, w1, n):
        outputs_are(e, s, nm, w1, n, lambda i: Opaque('updated', (i,)))
        kept(e, s, nm, w0, w1, 'outputs')
    writer_case(e, 'update_data', eff, args_of, post)


@unit('writer.write', ['C18', 'C14'], 'Writer::write_output: every output, whatever their number, is written once with the current counter; the counter then grows by one')
def _(e):
    def eff(e, st, a, o, pre, ctr): return e.v.set(o, data=Opaque('written', (e.v.get(o, 'data').data[0], a[0])))

    def post(e, s, nm, w0, w1, n):
        c = e.v.get(w0, 'output_counter')
        outputs_are(e, s, nm, w1, n, lambda i: Opaque('written', (i, c)))
        e.oblige(s, nm + ': the counter grows by one', icmp('eq', e.v.get(w1, 'output_counter'), iadd(c, 1)))
        kept(e, s, nm, w0, w1, 'outputs', 'output_counter')
    writer_case(e, 'write_output', eff, lambda e, st: [], post)


@unit('writer.metadata', ['C18'], 'Writer::write_metadata: every output gets the metadata of the writer once')
def _(e):
    def eff(e, st, a, o, pre, ctr):
        compare(e, st, 'Writer::write_metadata: the metadata are passed on', a[0], StrV(Opaque('sym', 'meta')), st, st)
        return o

    def post(e, s, nm, w0, w1, n):
        kept(e, s, nm, w0, w1)
        ev = [x for x in s.trace]
        one = len(ev) == 1 and ev[0][0] == 'each' and len(ev[0][1].alts) == 1 and len(ev[0][1].alts[0][1]) == 1
        none = not ev
        if none: e.oblige(s, nm + ': every output is handled', icmp('eq', n, 0)); return
        e.oblige(s, nm + ': every output is handled once', one)
        if one:
            E = ev[0][1]; x = E.alts[0][1][0]
            e.oblige(s, nm + ': every output is handled', bor(icmp('eq', n, 0), band(icmp('eq', E.lo, 0), icmp('eq', E.hi, n), x[0] == 'handled' and icmp('eq', x[1], E.i))))
    writer_case(e, 'write_metadata', eff, lambda e, st: [], post)


@unit('writer.new', ['C18', 'C14'], 'Writer::new: one output per configuration, in order, made for the mesh and the number of outputs; the counter starts at 0; the metadata are the configuration')
def _(e):
    p = e.prog; e.text = True
    nm = 'Writer::new'
    key, ikey = p.method(WRITER, 'new'), p.method(OUTPUT, 'new')
    good = z3.Function('output_succeeds', I, B)
    n, mx = z3.Int('outputs'), z3.Int('output_counter_max')
    e.facts.append(Fact(z3.Bool('all succeed'), (n,), lambda k: good(zi(k[0])), ''))
    oks = 0
    for hyp in (None, z3.Bool('all succeed')):
        st, genv, E, S = setup(e, 'adiabatic')
        st.assume(z3.And(n >= 0, n < 2 ** 62, mx >= 0, mx < 2 ** 62))
        oc = lambda i: e.v.set(blank(e, 'OutputConfig'), precision=zi(i))
        cfg = e.v.set(blank(e, 'CorriesConfig'), writer_config=SymList('writer_config', n, [(lambda i: True, oc)]), output_counter_max=mx, print_banner=z3.Bool('banner'))
        mesh = Adt('$mesh', 0, ())

        def eff(e, st, a, genv, pre):
            c, m = e.deref(st, a[0]), e.deref(st, a[1])
            i = e.v.get(c, 'precision')
            pre('the mesh is passed on', m.key == '$mesh')
            pre('the number of outputs is passed on', icmp('eq', a[2], mx))
            return [Out(st, Ok(e.v.set(blank(e, OUTPUT), data=Opaque('made', (i,)))), good(zi(i))), Out(st.clone(), ERR, bnot(good(zi(i))))]
        e.contracts[ikey] = Contract('Output::new', ikey, eff)
        if hyp is not None: st.assume(hyp)
        cr = named(e, st, cfg, 'configuration')
        for s, kind, v in e.exec_fn(st, key, genv, [cr, e.ref_to(st, mesh)]):
            if kind != 'ret' or not e.feasible(s): continue
            if hyp is not None: e.oblige(s, nm + ': succeeds if every output does', v.var == 0)
            if v.var: continue
            oks += 1
            w = v.fields[0]
            x = e.fresh('k', I); e.add_index(x)
            e.oblige(s.clone().assume(z3.And(x >= 0, x < n)), nm + ': Ok only if every output succeeds', good(x))
            outputs_are(e, s, nm, w, n, lambda i: Opaque('made', (zi(i),)))
            e.oblige(s, nm + ': the counter starts at 0', icmp('eq', e.v.get(w, 'output_counter'), 0))
            compare(e, s, nm + ': metadata', e.v.get(w, 'meta_data'), StrV(Opaque('json', ('pretty', cfg))), s, s)
            compare(e, s, nm + ': banner', e.v.get(w, 'print_banner'), z3.Bool('banner'), s, s)
    if not oks: raise Late(nm + ': no successful path')
    e.covered.add(key)
