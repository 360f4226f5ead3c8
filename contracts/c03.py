from lib import *
FNS = ['flowtracks.io.collect_particles_generic', TR + '.Trajectory.__getitem__', TR + '.Trajectory.__init__', TR + '.Trajectory.time']
def setup(h):
    T, IO = h.mod(TR), h.mod('flowtracks.io'); stub_mark_unique_rows(h)
    n = h.dim('ntr'); tr = Trajs(h, n, times='any')
    return IO, n, tr, tr.list(), h.int('frame')
def row_is(h, get, tr, k, t, frame, what):
    "the 8 values of trajectory k at its point t"
    k, t = ie(k), ie(t)
    for c in range(3):
        h.prove(get(c) == SReal(tr.pos(k, t, c)), what + ': position')
        h.prove(get(3 + c) == SReal(tr.vel(k, t, c)), what + ': velocity')
    h.prove(get(6) == frame, what + ': frame')
    h.prove(get(7) == SInt(tr.tid(k)), what + ': trajectory id')
def case(segs, empty):
    def f(h):
        IO, n, tr, lst, frame = setup(h)
        has = lambda k, t: zand(arr.within(t, tr.L(k)), tr.time(k, t) == frame.e, *([t + 1 < tr.L(k), tr.time(k, t + 1) == frame.e + 1] if segs else []))
        k, t = h.r.bound('k'), h.r.bound('t')
        # every path of the code: with no trajectory that has the frame, or some
        res = IO.collect_particles_generic(lst, frame, segs)
        sh = res.dims
        h.prove(len(sh) == (3 if segs else 2) and sh[-1] == 8, 'layers and columns')
        if segs: h.prove(sh[0] == 2, 'two layers')
        m = res.shape[1 if segs else 0]
        row = (lambda j, c, l=0: res.at(l, j, c)) if segs else (lambda j, c, l=0: res.at(j, c))
        cs = [c[0] for c in h.r.comps]
        fams = h.r.families
        with h.forall(m, 'j') as j:
            # there is a trajectory and a point of it which the row is of
            src = source(h, tr, ie(j))
            layers = 2 if segs else 1
            def rowof(k, t):
                c = [arr.within(k, ie(n)), has(k, t)]
                for l in range(layers):
                    for q in range(3): c += [row(j, q, l).e == tr.pos(k, t + l, q), row(j, 3 + q, l).e == tr.vel(k, t + l, q)]
                    c += [zb(tobool(row(j, 6, l) == frame + l)), zb(tobool(row(j, 7, l) == SInt(tr.tid(k))))]
                return zb(zand(*c))
            if src is not None: h.prove(SBool(rowof(*src)), 'the row of a trajectory that has the frame')
            else:
                k, t = h.r.bound('k'), h.r.bound('t')
                h.prove(SBool(z3.Exists([k, t], rowof(k, t))), 'the row of a trajectory that has the frame')
            with h.forall(m, 'j2') as j2:
                h.assume(j < j2)
                h.prove(lnot((row(j, 0) == row(j2, 0)) & (row(j, 1) == row(j2, 1)) & (row(j, 2) == row(j2, 2))), 'distinct positions')
        with h.forall(n, 'i') as i:
            t = h.r.const('tt', I)
            h.assume(SBool(zb(has(ie(i), t))))
            hints(h, ie(i), t)
            h.prove(h.ex(m, lambda j: SBool(z3.And(*[row(j, c).e == tr.pos(ie(i), t, c) for c in range(3)]))), 'every trajectory with the frame, or one in its position')
    f.__doc__ = 'path_seg=%s, for every list of trajectories with any increasing times, and every frame' % segs
    return f
def source(h, tr, j):
    "hints: which trajectory and point a row is from"
    for a, u, of in h.r.notes.get('uniq', []):
        x = lift(ie(u.at(mkint(j))))
        cs = [c[0] for c in h.r.comps if not isz(getattr(c[0], 'n', None)) or True]
        outer = cs[-1]
        k = outer.sel(x)
        h.hint(x, k)
        for c, e, jj, ixs in h.r.families:
            if len(ixs) != 1: continue
            t = substz(c.sel(z3.IntVal(0)), [(ixs[0][0], k)])
            return k, t
    return None
def hints(h, i, t):
    for c in h.r.comps:
        x = c[0].rank(i); h.hint(x)
        for a, u, of in h.r.notes.get('uniq', []):
            y = of(x); z = u.at(mkint(y)); h.hint(y, z)
    for c, e, jj, ixs in h.r.families:
        if len(ixs) == 1: h.hint(substz(c.rank(t), [(ixs[0][0], i)]), substz(c.sel(z3.IntVal(0)), [(ixs[0][0], i)]))
harness('C03', FNS, 'in_frame')(case(False, False))
harness('C03', FNS, 'in_segment')(case(True, False))
