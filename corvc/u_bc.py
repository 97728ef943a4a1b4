"""Boundary conditions: every mode on either side, any list of (equation, mode) pairs."""
from u_config import *

CBC = '@boundaryconditions::custom::CustomBoundaryConditions'


def ghosts(side, S):
    """nearest ghost cell first, with the interior cells a (nearest) and b (next), and the way outwards"""
    return ([1, 0], 2, 3, -1) if side == 'west' else ([isub(S, 2), isub(S, 1)], isub(S, 3), isub(S, 4), 1)


def mode_values(e, mode, side, U, j, mesh, S):
    """values of the two ghost cells of equation j"""
    g, a, b, out = ghosts(side, S)
    A, B_ = U.get((j, a)), U.get((j, b))
    refl = [fneg(A), fneg(B_)]
    extra = [fsub(fmul(fc(2), A), B_), fsub(fmul(fc(3), A), fmul(fc(2), B_))]
    copy = [A, A]
    inward = sign_positive(A) if side == 'west' else bnot(sign_positive(A))
    if mode == 'NoGradients': return copy
    if mode == 'Reflecting': return refl
    if mode == 'Extrapolate': return extra
    if mode == 'NearZero': return [fmul(f64_exact(1e-10), A)] * 2
    if mode == 'OutflowNoGradients': return [fite(inward, x, y) for x, y in zip(refl, copy)]
    if mode == 'OutFlowExtrapolate': return [fite(inward, x, y) for x, y in zip(refl, extra)]
    if mode in ('ExtrapolateDensityKepler', 'ExtrapolateEtaVelocityKepler'):
        xi = lambda i: e.v.get(mesh, 'xi_cent').get((i,))
        r, prev, pi = [], A, a
        for i in g:
            prev = fdiv(prev, fsqrt(fdiv(xi(i), xi(pi)))); pi = i
            r.append(prev)
        return r
    raise LostAnchor('boundary mode %s' % mode)


def step_spec(e, mode, side, U, j, mesh, S):
    g = ghosts(side, S)[0]
    vals = mode_values(e, mode, side, U, j, mesh, S)
    r = U
    for i, v in zip(g, vals): r = StoreArr(r, (j, i), v)
    return r


def pair_list(e, E, name='pairs'):
    p = e.prog; k = p.adt('CustomBoundaryMode')
    n = z3.Int(name + '.len')
    eq, md = z3.Function(name + '.eq', I, I), z3.Function(name + '.mode', I, I)
    alts = []
    for m, x in enumerate(p.adts[k]['variants']):
        for j in range(E):
            alts.append((lambda i, m=m, j=j: z3.And(eq(zi(i)) == j, md(zi(i)) == m), lambda i, m=m, j=j: tup(j, Adt(k, m, ()))))
    return n, SymList(name, n, alts)


def mode_name(e, v): return e.prog.adts[v.key]['variants'][v.var]['name']


def folded(side, U, before):
    """the array after all pairs, in order, from array `before`: ghost cells of the side hold the folded values"""
    S = U.shape[1]
    new = BaseArr('all pairs applied', U.shape)
    g = ghosts(side, S)[0]
    here = lambda i: bor(*[icmp('eq', i, x) for x in g])
    return LamArr(U.shape, lambda idx: fite(here(idx[1]), new.get(idx), before.get(idx)))


def pairs_rule(e, side, vcell, mesh, nm):
    """loop over the list of pairs: the step meets its specification for every pair and every intermediate array; the loop is their composition in list order"""
    def rule(eng, st, bs, skip, step):
        ok = bs.lo == 0 and bs.hi is bs.lst.n and not bs.rev
        eng.oblige(st, nm + 'every configured pair is applied once, in the configured order', ok)
        v0 = st.cells[vcell]
        U0 = e.v.get(v0, 'prim'); S = U0.shape[1]
        i = eng.fresh('i', I); eng.add_index(i)
        lst = bs.lst; alts = lst.alts
        changed = set()
        try:
            for c, val in alts:
                s = st.clone(); s.assume(models.in_range((i,), (lst.n,)))
                mid = BaseArr('mid', U0.shape)
                s.cells[vcell] = e.v.set(v0, prim=mid)
                lst.alts = [(c, val)]
                j, mode = val(i).fields[0], mode_name(e, val(i).fields[1])
                pre = dict(s.cells)
                ends = step(s, i)
                if not ends: raise Unsupported('step never completes')
                for o in ends:
                    if o.trace != st.trace: raise Unsupported('event in the loop over pairs')
                    want = e.v.set(v0, prim=step_spec(e, mode, side, mid, j, mesh, S))
                    compare(e, o, '%s%s of equation %d: variables' % (nm, mode, j), o.cells[vcell], want, o, o)
                    for cl in pre:
                        if cl != vcell and cl not in skip and o.cells.get(cl) is not pre[cl]: changed.add(cl)
        finally: lst.alts = alts
        post = st.clone()
        for cl in changed:
            post.cells[cl] = POISON
            if st.cells[cl] is not UNINIT: raise Unsupported('state carried around the loop over pairs')
        before = U0
        post.cells[vcell] = e.v.set(v0, prim=folded(side, U0, before))
        post.event('pairs', StrV(lst.name), before)
        return post
    return rule


def c_apply(e, lst):
    def eff(e, st, args, genv, pre):
        b = e.deref(st, args[0]); side = {0: 'west', 2: 'east'}[e.prog.adts[e.prog.adt('@directions::Direction')]['variants'][e.v.get(b, 'direction').var]['discr']]
        r = e.strip(st, args[1]); v = e.read(st, r)
        U = e.v.get(v, 'prim')
        e.write(st, r, e.v.set(v, prim=folded(side, U, U)))
        st.event('pairs', StrV(lst.name), U)
        return [Out(st)]
    return Contract('CustomBoundaryConditions::apply', e.prog.method(CBC, 'apply', 'BoundaryCondition'), eff)


def direction(e, side): return e.prog.enum('@directions::Direction', side.capitalize())


for ph in PHYS:
    for side in ('west', 'east'):
        @unit('bc.%s.%s' % (ph, side), ['C05'], 'CustomBoundaryConditions::apply (%s): every mode writes exactly its values into the two ghost cells of its equation; any list of pairs, in order' % side)
        def _(e, ph=ph, side=side):
            st, genv, E, S = setup(e, ph)
            st.assume(S >= 6); st.assume(S < 2 ** 53)
            m, mr = the_mesh(e, st, S)
            e.facts.append(Fact(True, (S,), lambda k: rlt(rv(0), e.v.get(m, 'xi_cent').get(k).v), 'domain of the Kepler modes: cell centres are positive'))
            for x in ghosts(side, S)[0] + [ghosts(side, S)[1]]: e.add_index(x)
            n, lst = pair_list(e, E); st.assume(n >= 0)
            p = e.prog
            b = e.v.set(blank(e, CBC), direction=direction(e, side), modes=lst)
            vr = named(e, st, sym_vars(e, st, genv, 'u', (E, S)), 'vars')
            nm = 'CustomBoundaryConditions::apply [%s, %s]: ' % (ph, side)
            e.list_rule = pairs_rule(e, side, vr.cell, m, nm)
            g = dict(genv)
            verify(e, c_apply(e, lst), st, [named(e, st, b, 'boundary condition'), vr, mr], g, '%s, %s' % (ph, side))

    @unit('bc.%s.init' % ph, ['C05', 'C20'], 'init_boundary_condition: the configured pairs on the configured side, no-gradients for every equation')
    def _(e, ph=ph):
        st0, genv, E, S = setup(e, ph)
        p = e.prog
        for side in ('west', 'east'):
            for mode in ('Custom', 'NoGradients'):
                st = st0.clone()
                n, lst = pair_list(e, E); st.assume(n >= 0)
                bm = p.adt('BoundaryMode'); no = p.enum('CustomBoundaryMode', 'NoGradients')
                val = Adt(bm, p.variant(bm, mode), (lst,) if mode == 'Custom' else ())
                want = lst if mode == 'Custom' else ListV([tup(j, no) for j in range(E)])
                cfg = e.v.set(blank(e, 'CorriesConfig'), **{'boundary_condition_' + side: val})
                res = e.v.set(blank(e, CBC), direction=direction(e, side), modes=want)
                c = Contract('init_boundary_condition', p.free('boundaryconditions::init_boundary_condition'), lambda e, s, a, g, pre: [Out(s, res)])
                verify(e, c, st, [direction(e, side), named(e, st, cfg, 'configuration')], {'E': genv['E'], 'S': genv['S']}, '%s, %s %s' % (ph, side, mode))
