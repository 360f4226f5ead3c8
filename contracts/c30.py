from lib import *
import inspect
G = IN + '.GeneralInterpolant.'
FNS = [IN + '.rbf_interp', IN + '.corrfun_interp']
CAL = [G + '__call__', G + 'interpolate', G + '_meth_interp', G + '__init__']
ASSUMPTIONS = ['numpy.linalg.solve: of a regular matrix, the solution', 'numpy.digitize: the number of bin starts up to the value']
def expo(h, d, eps): return npm.exp(-(d*d)*eps)
class Rbf:
    "kernel, and the coefficients which solve the system of each point's neighbours: 0 for other tracers"
    def __init__(s, h, n, m, d, use, data, td, eps):
        r = h.r; s.h, s.n, s.m, s.d, s.use, s.data = h, n, m, d, use, data
        s.f = r.func('coef', I, I, I, R)
        s.td, s.eps = td, eps
        i, j, c = r.bound('i'), r.bound('j'), r.bound('c')
        r.assume(FA([i, j, c], z3.Implies(z3.Not(zb(tobool(use(i, j)))), s.f(i, j, c) == 0), [s.f(i, j, c)]))
    def system(s, i, N, p):
        """for N of the tracers which are neighbours, p(0), p(1)...: their data are reproduced (the
        definition of the coefficients; that there are such means that the matrix is regular)"""
        r = run(); h = s.h
        t = SArr((N, ie(s.n), ie(s.d)), lambda a, j, c: select(s.use(i, j), s.kernel(p(a), j)*s.coef(i, j, c), 0.), 'float64').sum(axis=1)
        a, c = r.bound('a'), r.bound('c')
        e = tobool(t.at(a, c) == s.data.at(p(a), c))
        r.assume(FA([a, c], zimp(zand(arr.within(a, N), arr.within(c, ie(s.d)), tobool(s.use(i, p(a)))), e), [t.at(a, c).e]))
    def kernel(s, p, j): return expo(s.h, s.td(p, j), s.eps)
    def coef(s, i, j, c): return SReal(s.f(lift(ie(i)), lift(ie(j)), lift(ie(c))))
    def solve(s, K, d):
        "the solution of the system of this point: it is the one with these coefficients"
        r = run(); K, d = asarr(K), asarr(d)
        i = r.frames[-1].idx if r.frames else None
        if i is None: raise Unsupported('solution of systems elsewhere')
        for c in arr.selections(r, K.dims[0]):
            y = SArr(d.dims, lambda a, k: s.coef(i, c.sel(lift(a)), k), 'float64')
            s.system(i, K.dims[0], lambda a: c.sel(lift(a)))
            rows = SArr((K.dims[0], K.dims[1], ie(s.d)), lambda a, b, k: K.at(a, b)*y.at(b, k), 'float64').sum(axis=1)
            with s.h.forall(K.dims[0], 'row') as a:
                with s.h.forall(s.d, 'component') as k: s.h.prove(rows.at(a, k) == d.at(a, k), 'the system solved is that of the neighbours')
            return y
        raise Unsupported('solution of a system of other items')
@harness('C30', FNS)
def rbf(h):
    "coefficients that reproduce the data at the neighbours, and the sum over neighbours"
    n, m, d = h.dim('n'), h.dim('m'), h.dim('d', 1)
    td, ds, data = fro(h.array('tracer_dists', (n, n)), h.array('dists', (m, n)), h.array('data', (n, d)))
    use = fro(h.array('use', (m, n), 'b'))
    eps = h.real('eps')
    s = Rbf(h, n, m, d, lambda i, j: use.at(i, j), data, lambda p, j: td.at(p, j), eps)
    old = npm.linalg.solve
    npm.linalg.solve = staticmethod(s.solve)
    try: got = h.mod(IN).rbf_interp(td, ds, use, data, eps)
    finally: npm.linalg.solve = old
    h.prove(got.shape[0] == m, 'points'); h.prove(got.shape[1] == d, 'components')
    want = SArr((ie(m), ie(n), ie(d)), lambda i, j, c: select(use.at(i, j), s.coef(i, j, c)*expo(h, ds.at(i, j), eps), 0.), 'float64').sum(axis=1)
    with h.forall(m, 'point') as i:
        with h.forall(d, 'component') as c: h.prove(got.at(i, c) == want.at(i, c), 'the sum over the neighbours')
for one in (False, True):
    def corrfun(h, one=one):
        n, m, d, nb = h.dim('n'), h.dim('m'), h.dim('d', 1), h.dim('bins', 1)
        ds, data = fro(h.array('dists', (m, n)), h.array('data', (n, d)))
        use = fro(h.array('use', (m, n), 'b'))
        hist, bins = fro(h.array('corrs', (nb, 1 if one else d)), h.array('bins', (nb,)))
        r = h.r
        i, j, a, b = r.bound('i'), r.bound('j'), r.bound('a'), r.bound('b')
        e = lambda t: bins.at(t).e
        r.assume(FA([a, b], zimp(zand(0 <= a, a < b, b < ie(nb)), e(a) < e(b)), [(e(a), e(b))]))         # increasing bins
        r.assume(FA([i, j], zimp(zand(arr.within(i, ie(m)), arr.within(j, ie(n)), tobool(use.at(i, j))), ds.at(i, j).e >= e(z3.IntVal(0))), [ds.at(i, j).e]))   # from the first one on
        bn = r.func('bin_of', I, I, I)      # the last bin which begins at the distance or before it
        B_ = bn(i, j)
        r.assume(FA([i, j, a], zimp(zand(arr.within(i, ie(m)), arr.within(j, ie(n)), tobool(use.at(i, j)), arr.within(a, ie(nb))),
            zand(arr.within(B_, ie(nb)), e(B_) <= ds.at(i, j).e, z3.Implies(a > B_, e(a) > ds.at(i, j).e))), [(B_, e(a))]))
        r.assume(FA([i, j], zimp(zand(arr.within(i, ie(m)), arr.within(j, ie(n)), tobool(use.at(i, j))), zand(arr.within(B_, ie(nb)), e(B_) <= ds.at(i, j).e, z3.Implies(B_ + 1 < lift(ie(nb)), e(B_ + 1) > ds.at(i, j).e))), [B_]))
        got = h.mod(IN).corrfun_interp(ds, use, data, hist, bins)
        h.prove(got.shape[0] == m, 'points'); h.prove(got.shape[1] == d, 'components')
        w = SArr((ie(m), ie(n), ie(d)), lambda i, j, c: select(use.at(i, j), hist.at(bn(i, j), 0 if one else c), 0.), 'float64')
        wd = SArr((ie(m), ie(n), ie(d)), lambda i, j, c: w.at(i, j, c)*data.at(j, c), 'float64')
        A, T = wd.sum(axis=1), w.sum(axis=1)
        with h.forall(m, 'point') as i:
            with h.forall(d, 'component') as c: h.prove(got.at(i, c) == A.at(i, c)/T.at(i, c), 'the weighted mean')
    corrfun.__doc__ = 'the mean weighted by the correlation of the bin of the distance, %s' % ('one correlation' if one else 'a correlation for each component')
    harness('C30', FNS, 'corrfun' + ('_one' if one else ''))(corrfun)
def scene(h, method, comp, rad):
    I_ = Interp(h, comp=comp, rad=rad)
    d = h.dim('d', 1)
    data = fro(h.array('data', (I_.n, d)))
    calls = []
    name = method + '_interp'
    def numeric(*a, **k):
        if k: raise Unsupported('keyword arguments of ' + name)
        res = fro(h.array('interpolated', (I_.m, d)))
        calls.append(a + (res,))
        return res
    h.stub(IN, name, numeric)
    if method == 'rbf': par = h.real('eps')
    else:
        par = 'corrs.npz'; nb = h.dim('bins', 1)
        h.r.notes['npz'] = {par: dict(corrs=fro(h.array('corrs', (nb, d))), bins=fro(h.array('bins', (nb,))))}
    it = h.mod(IN).interpolant(method, I_.K, I_.radius, par)
    return I_, d, data, par, it, calls
def arguments(h, I_, data, par, a, method, marked, got):
    "what the formula is applied to: distances of tracers, of neighbours, marks of neighbours, data and parameter; and that its result is given"
    *a, res = a
    h.prove(got.shape[0] == res.shape[0], 'a result for each point'); h.prove(got.shape[1] == res.shape[1], 'components')
    with h.forall(I_.m, 'point') as i:
        with h.forall(res.shape[1], 'c') as c: h.prove(got.at(i, c) == res.at(i, c), "the formula's result")
    if method == 'rbf': td, ds, use, dt, eps = a
    else: ds, use, dt, hist, bins = a
    n, m = I_.n, I_.m
    for x in (ds, use): h.prove(x.shape[0] == m, 'a row for each point'); h.prove(x.shape[1] == n, 'a column for each tracer')
    with h.forall(m, 'point') as i:
        with h.forall(n, 'tracer') as j:
            w = marked(i, j)
            h.prove(tobool(use.at(i, j)) == zb(tobool(w)), 'marks of neighbours')
            h.prove(arr.zimp(zb(tobool(w)), tobool(ds.at(i, j) == I_.dist(i, j))), 'distances of neighbours')
    if method == 'rbf':
        h.prove(td.shape[0] == n, 'tracers'); h.prove(td.shape[1] == n, 'tracers')
        with h.forall(n, 'tracer') as p:
            with h.forall(n, 'tracer') as j:
                dd = sum((I_.tp.at(j, c) - I_.tp.at(p, c))*(I_.tp.at(j, c) - I_.tp.at(p, c)) for c in range(3))
                h.prove(td.at(p, j)*td.at(p, j) == dd, 'distances between tracers')
        h.prove(eps == par, 'parameter')
    else:
        f = h.r.notes['npz'][par]
        with h.forall(f['bins'].shape[0], 'bin') as b:
            h.prove(bins.at(b) == f['bins'].at(b), 'bins')
            with h.forall(f['corrs'].shape[1], 'c') as c: h.prove(hist.at(b, c) == f['corrs'].at(b, c), 'correlations')
    h.prove(dt.shape[0] == n, 'data')
    with h.forall(n, 'tracer') as j:
        with h.forall(data.shape[1], 'c') as c: h.prove(dt.at(j, c) == data.at(j, c), 'data')
def named(tracer_pos, interp_points, radius=None, num_neighbs=None, companionship=None): pass
def selection(h, I_, a):
    "the neighbours selected are those of the given tracers, points and companions"
    for x, y, n in ((a['tracer_pos'], I_.tp, I_.n), (a['interp_points'], I_.ip, I_.m)):
        x = asarr(x)
        h.prove(x.shape[0] == n, 'number of rows')
        with h.forall(n, 'row') as i: h.prove(same3(x, i, y, i), 'positions')
    if I_.radius is None: h.prove(a.get('radius') is None and a['num_neighbs'] == I_.K, 'number of neighbours')
    else: h.prove(a['radius'] == I_.radius, 'radius')
    if I_.cp is None: h.prove(a.get('companionship') is None, 'no companions')
    else:
        with h.forall(I_.m, 'point') as i: h.prove(asarr(a['companionship']).at(i) == I_.cp.at(i), 'companions')
for method in ('rbf', 'corrfun'):
    for comp, rad, tag, doc in cases():
        def off(h, method=method, comp=comp, rad=rad):
            I_, d, data, par, it, calls = scene(h, method, comp, rad)
            marks = []
            old = h.mod(IN).select_neighbs
            def sel(*a, **k):
                v = old(*a, **k); marks.append(v + (inspect.signature(named).bind(*a, **k).arguments,)); return v
            h.stub(IN, 'select_neighbs', sel)
            got = it(I_.tp, I_.ip, data, I_.cp) if comp else it(I_.tp, I_.ip, data)
            h.prove(len(calls) == 1, 'the formula is applied')
            u = marks[0][1]; selection(h, I_, marks[0][2])
            arguments(h, I_, data, par, calls[0], method, lambda i, j: u.at(i, j), got)
        off.__doc__ = 'an off-scene call applies the formula to the selected neighbours: ' + doc
        harness('C30', CAL, '%s_call%s' % (method, tag))(off)
        def rec(h, method=method, comp=comp, rad=rad):
            I_, d, data, par, it, calls = scene(h, method, comp, rad)
            it.set_scene(I_.tp, I_.ip, data, I_.cp)
            nb = it.current_active_neighbs()
            got = it.interpolate()
            h.prove(len(calls) == 1, 'the formula is applied')
            pos = h.r.func('position', I, I, I)       # a place of the tracer among the neighbours, if it is there
            i, j, q = h.r.bound('i'), h.r.bound('j'), h.r.bound('q')
            e = ie(nb.at(i, q))
            h.r.assume(FA([i, q], zimp(zand(arr.within(i, ie(I_.m)), arr.within(q, ie(nb.shape[1])), e < ie(I_.n)), zand(arr.within(pos(i, e), ie(nb.shape[1])), tobool(nb.at(i, pos(i, e)) == e))), arr.good_pats(e, i, q)))
            def marked(i, j):
                x = pos(lift(ie(i)), lift(ie(j)))
                return mkbool(zb(zand(arr.within(x, ie(nb.shape[1])), tobool(nb.at(i, x) == j))))
            arguments(h, I_, data, par, calls[0], method, marked, got)
        rec.__doc__ = 'a recorded scene applies the formula to the recorded neighbours: ' + doc
        harness('C30', CAL, '%s_recorded%s' % (method, tag))(rec)
