import os, itertools
from common import *
from flowtracks import interpolation as IN
from configparser import ConfigParser

def points(rng, case, nmin=1, nmax=9, mmax=6):
    """Tracers in distinct positions, and points, some in the position of a tracer."""
    n, m = int(rng.integers(nmin, nmax)), int(rng.integers(1, mmax))
    if case % 7 == 3: m = 0
    if case % 4 == 0:    # a grid: equal distances are likely
        g = np.array(list(itertools.product(range(4), repeat=3)), float)
        tr = g[rng.permutation(64)[:n]]*.25
        pt = rng.integers(0, 7, (m, 3))*.125
    else:
        sc = [1., 1e-3, 100.][case % 3]
        tr = rng.uniform(-1, 1, (n, 3))*sc; pt = rng.uniform(-1, 1, (m, 3))*sc
    for i in range(m):
        if rng.uniform() < .35: pt[i] = tr[int(rng.integers(0, n))]
    return tr, pt

def companions(rng, case, n, m, pt, tr):
    if case % 3 == 0: return None
    c = rng.integers(-1, n, m)
    if case % 3 == 2:     # mostly near ones
        for i in range(m):
            d = np.linalg.norm(tr - pt[i], axis=1)
            if rng.uniform() < .7: c[i] = np.argsort(d)[min(n - 1, int(rng.integers(0, 2)))]
    return c

def eligible(tr, p, c):
    d = np.linalg.norm(tr - p, axis=1)
    ok = d > 0
    if c is not None and c >= 0: ok[c] = False
    return d, ok

@contract('C25')(n=200)
def select(rng, case):
    tr, pt = points(rng, case); n, m = len(tr), len(pt)
    comp = companions(rng, case//2, n, m, pt, tr)
    k = int(rng.integers(1, 11))
    rad = None if case % 2 else float(np.abs(tr).max()*rng.uniform(.1, 2.5))
    t0, p0, c0 = tr.copy(), pt.copy(), None if comp is None else comp.copy()
    d, u = IN.select_neighbs(tr, pt, rad, None if rad is not None and case % 4 else k, comp)
    same(tr, t0, 'tracers changed'); same(pt, p0, 'points changed')
    if comp is not None: same(comp, c0, 'companions changed')
    require(d.shape == (m, n) and u.shape == (m, n) and u.dtype == bool, 'shapes', d.shape, u.shape)
    for i in range(m):
        dd, ok = eligible(tr, pt[i], None if comp is None else comp[i])
        same(d[i], np.where(ok, dd, 0.), 'distances', 1e-12)
        require(not (u[i] & ~ok).any(), 'a tracer that is not eligible is a neighbour', i, u[i], ok)
        if rad is not None:
            same(u[i], ok & (dd < rad), 'neighbours in radius %g of %d' % (rad, i))
        else:
            require(u[i].sum() == min(k, ok.sum()), 'number of neighbours', u[i].sum(), k, ok.sum())
            if u[i].any() and (ok & ~u[i]).any():
                require(dd[u[i]].max() <= dd[ok & ~u[i]].min()*(1 + 1e-12), 'not the nearest', i, dd, u[i])
    if rad is None:
        for meth in ('inv', 'rbf'):
            nd = IN.interpolant(meth, k).neighb_dists(tr, pt, comp)
            require(nd.shape == (m, min(n, k)), 'shape of neighb_dists', nd.shape)
            for i in range(m):
                dd, ok = eligible(tr, pt[i], None if comp is None else comp[i])
                w = np.sort(dd[ok])[:k]
                same(np.sort(nd[i])[nd.shape[1] - len(w):], w, 'neighb_dists', 1e-12)

def want_neighbs(tr, p, c, k, rad):
    d, ok = eligible(tr, p, c)
    if rad is not None: ok = ok & (d < rad)
    o = [j for j in np.argsort(d, kind='stable') if ok[j]][:k]
    return o, d

def check_neighbs(it, tr, pt, comp, k, rad):
    n, m = len(tr), len(pt)
    ds, ac, rel = it.current_dists(), it.current_active_neighbs(), it.current_relative_positions()
    require(ds.shape == (m, k) and ac.shape == (m, k) and rel.shape == (m, k, 3), 'shapes', ds.shape, ac.shape, rel.shape)
    for i in range(m):
        c = None if comp is None else comp[i]
        o, d = want_neighbs(tr, pt[i], c, k, rad)
        dd, ok = eligible(tr, pt[i], c)
        a = ac[i]; l = len(o)
        require((a[l:] == n).all() and np.isinf(ds[i, l:]).all(), 'missing neighbours', i, a, ds[i], o)
        require((a[:l] < n).all() and len(set(a[:l])) == l, 'neighbours', i, a, o)
        require(ok[a[:l]].all(), 'a tracer that is not eligible', i, a, c)
        same(ds[i, :l], d[o], 'distances of point %d' % i, 1e-9)
        same(ds[i, :l], d[a[:l]], 'distances and indices of point %d' % i, 1e-9)
        same(rel[i, :l], tr[a[:l]] - pt[i], 'relative positions', 1e-9)

@contract('C26')(n=160)
def recorded(rng, case):
    tr, pt = points(rng, case); n, m = len(tr), len(pt)
    comp = companions(rng, case//2, n, m, pt, tr)
    k = int(rng.integers(1, 8))
    rad = None if case % 5 else float(np.abs(tr).max()*rng.uniform(.2, 2.5))
    it = IN.interpolant(['inv', 'rbf'][case % 2], k, rad)
    for rep in range(2):
        it.set_scene(tr, pt, rng.uniform(0, 1, (n, 3)), comp)
        it.current_active_neighbs()
        check_neighbs(it, tr, pt, comp, k, rad)

def idw(tr, p, c, k, rad, par, data):
    o, d = want_neighbs(tr, p, c, k, rad)
    if not o: return None
    w = d[o]**-float(par)
    return (w[:, None]*data[o]).sum(0)/w.sum(), o, d

def distinct(tr, pt, comp, k, rad):
    "No ties at the border of the selection: then neighbours are unique."
    for i, p in enumerate(pt):
        d, ok = eligible(tr, p, None if comp is None else comp[i])
        s = np.sort(d[ok])
        if len(s) > k and s[k] - s[k-1] < 1e-9*s[k]: return False
        if rad is not None and (np.abs(s - rad) < 1e-9*rad).any(): return False
    return True

@contract('C27')(n=200)
def inv(rng, case):
    tr, pt = points(rng, case, nmin=[1, 3][case % 2]); n, m = len(tr), len(pt)
    comp = companions(rng, case//2, n, m, pt, tr)
    k = int(rng.integers(1, 7)); par = [1, None, 2, .5, 3.3][case % 5]
    rad = None if case % 4 else float(np.abs(tr).max()*rng.uniform(.5, 3))
    dim = [3, 3, 1, 2, 5][(case//3) % 5]
    data = rng.uniform(-1, 1, (n, dim))*[1., 1e4][case % 2]
    if not distinct(tr, pt, comp, k, rad): return
    it = IN.interpolant('inv', k, rad, par)
    # leave things in memory
    junk = [np.full((6, 7, 5), np.nan) for q in range(5)]; del junk
    t0, d0 = tr.copy(), data.copy()
    it.set_scene(tr, pt, data, comp)
    r = it.interpolate()
    require(r.shape == (m, dim), 'shape', r.shape)
    off = IN.interpolant('inv', k, rad, par)(tr, pt, data, comp)
    r2 = it.interpolate()
    act = it.current_active_neighbs().copy()
    sub = it.interpolate(act)
    for i in range(m):
        w = idw(tr, pt[i], None if comp is None else comp[i], k, rad, 1 if par is None else par, data)
        if w is None: continue
        o = w[1]
        same(r[i], w[0], 'interpolation at point %d' % i, 1e-8)
        same(off[i], w[0], 'off-scene interpolation at point %d' % i, 1e-8)
        same(r2[i], r[i], 'second interpolation', 1e-12); same(sub[i], r[i], 'interpolation of the recorded selection', 1e-12)
        e = 1e-9*np.abs(data).max()
        require((r[i] >= data[o].min(0) - e).all() and (r[i] <= data[o].max(0) + e).all(), 'outside the range of data')
        if len(o) > 1:     # a subset of the neighbours
            s = act.copy(); s[i, 0] = n
            x = it.interpolate(s)[i]
            d = w[2][act[i, 1:len(o)]]; ww = d**-float(1 if par is None else par)
            same(x, (ww[:, None]*data[act[i, 1:len(o)]]).sum(0)/ww.sum(), 'interpolation of a subset', 1e-8)
    const = np.full((n, dim), 3.25)
    it.set_data_on_current_field(const)
    r = it.interpolate()
    for i in range(m):
        if want_neighbs(tr, pt[i], None if comp is None else comp[i], k, rad)[0]:
            same(r[i], const[0], 'constant field', 1e-12)
    same(tr, t0, 'tracers changed'); same(data, d0, 'data changed')

@contract('C27')(n=12)
def one_dim(rng, case):
    "1D data: one value for each tracer, or one tracer."
    tr, pt = points(rng, 4*case + 1, nmin=5)
    k = 3
    if not distinct(tr, pt, None, k, None): return
    data = rng.uniform(0, 1, len(tr))
    it = IN.interpolant('inv', k)
    it.set_scene(tr, pt, data)
    r = it.interpolate()
    for i in range(len(pt)):
        same(r[i], idw(tr, pt[i], None, k, None, 1, data[:, None])[0], 'interpolation of 1D data', 1e-8)
    it = IN.interpolant('inv', k)
    it.set_scene(tr[:1], pt + 7., np.r_[1., 2., 3.])
    for x in it.interpolate(): same(x, np.r_[1., 2., 3.], 'one tracer', 1e-12)

@contract('C28')(n=120)
def jacobian(rng, case):
    tr, pt = points(rng, case, nmin=[1, 2, 5][case % 3]); n, m = len(tr), len(pt)
    comp = companions(rng, case//2, n, m, pt, tr)
    k = int(rng.integers(1, 7)); par = [1, None, 2, 1.5][case % 4]
    rad = None if case % 4 else float(np.abs(tr).max()*rng.uniform(.5, 3))
    dim = [3, 3, 1, 2][(case//3) % 4]
    data = rng.uniform(-1, 1, (n, dim))
    if not distinct(tr, pt, comp, k, rad): return
    it = IN.interpolant('inv', k, rad, par)
    junk = [np.full((6, 7, 5), np.nan) for q in range(5)]; del junk
    it.set_scene(tr, pt, data, comp)
    loc = it.interpolate() if case % 2 else None
    j = it.eulerian_jacobian(loc)
    require(j.shape == (m, dim, 3), 'shape', j.shape)
    p = float(1 if par is None else par)
    for i in range(m):
        o, d = want_neighbs(tr, pt[i], None if comp is None else comp[i], k, rad)
        if not o: continue
        def f(x):
            w = np.linalg.norm(tr[o] - x, axis=1)**-p
            return (w[:, None]*data[o]).sum(0)/w.sum()
        h = 1e-5*d[o].min()
        want = np.stack([(f(pt[i] + h*e) - f(pt[i] - h*e))/(2*h) for e in np.eye(3)], axis=1)
        sc = np.abs(data[o]).max()/d[o].min()
        require(np.abs(j[i] - want).max() < 1e-5*sc + 1e-12, 'Jacobian of point %d' % i, j[i], want)

class Model(object):
    "What an interpolant should know."
    def __init__(self): self.tr = self.pt = self.data = self.comp = None

def results(it, loc=True):
    out = dict(value=it.interpolate(), dists=it.current_dists(), act=it.current_active_neighbs(), rel=it.current_relative_positions())
    if isinstance(it, IN.InverseDistanceWeighter): out['jac'] = it.eulerian_jacobian()
    return out

@contract('C29')(n=160)
def history(rng, case):
    meth = ['inv', 'inv', 'rbf', 'corr'][case % 4]
    k = int(rng.integers(1, 5)); rad = None if case % 3 else 1.3
    if meth != 'inv': rad = None
    dim = 3
    with scratch() as d:
        par = {'inv': [1, 2, 1.5][case % 3], 'rbf': 2., 'corr': None}[meth]
        if meth == 'corr':
            par = os.path.join(d, 'c.npz'); np.savez(par, corrs=rng.uniform(.1, 1, (6, 1)), bins=np.linspace(0, 3, 6))
        mk = lambda: IN.interpolant('corrfun' if meth == 'corr' else meth, k, rad, par)
        it, mo = mk(), Model()
        def newtr(): return rng.uniform(-1, 1, (int(rng.integers(k + 2, 12)), 3))
        def newpt():
            p = rng.uniform(-1, 1, (int(rng.integers(1, 6)), 3))
            if mo.tr is not None and rng.uniform() < .4: p[0] = mo.tr[0]
            return p
        def newcomp(n, m): return None if rng.uniform() < .5 else rng.integers(-1, n, m)
        def newdata(n): return rng.uniform(-1, 1, (n, dim))
        ops = []
        def scene():
            mo.tr = newtr(); mo.pt = newpt(); mo.comp = newcomp(len(mo.tr), len(mo.pt)); mo.data = newdata(len(mo.tr))
            it.set_scene(mo.tr, mo.pt, mo.data, mo.comp)
        scene(); ops.append('scene')
        for step in range(int(rng.integers(2, 8))):
            o = ['scene', 'field', 'points', 'data', 'trim', 'interp', 'subset', 'call', 'jac', 'dists'][int(rng.integers(0, 10))]
            ops.append(o)
            if o == 'scene': scene()
            elif o == 'field':
                n = len(mo.tr); mo.tr = rng.uniform(-1, 1, (n, 3)); it.set_field_positions(mo.tr)
                if rng.uniform() < .3: mo.data = newdata(n); it.set_data_on_current_field(mo.data)
            elif o == 'points':
                mo.pt = newpt(); mo.comp = newcomp(len(mo.tr), len(mo.pt)); it.set_interp_points(mo.pt, mo.comp)
            elif o == 'data': mo.data = newdata(len(mo.tr)); it.set_data_on_current_field(mo.data)
            elif o == 'trim':
                w = rng.uniform(0, 1, len(mo.pt)) < .4
                if w.all(): w[0] = False
                it.trim_points(w)
                mo.pt = mo.pt[~w]; mo.comp = None if mo.comp is None else mo.comp[~w]
            elif o == 'interp': it.interpolate()
            elif o == 'subset':
                a = it.current_active_neighbs().copy(); a[:, 0] = np.where(rng.uniform(0, 1, len(a)) < .5, a[:, 0], len(mo.tr))
                if (meth == 'inv' or k > 1): it.interpolate(a)
            elif o == 'call':
                t = newtr(); p = newpt(); it(t, p, newdata(len(t)), newcomp(len(t), len(p)))
                it.neighb_dists(t, p)
            elif o == 'jac': it.eulerian_jacobian()
            elif o == 'dists': it.current_dists()
            if step % 3 == 2 or rng.uniform() < .25:
                cmp(it, mk(), mo, ops)
        cmp(it, mk(), mo, ops)

def cmp(it, ref, mo, ops):
    cp = lambda x: None if x is None else x.copy()
    ref.set_scene(cp(mo.tr), cp(mo.pt), cp(mo.data), cp(mo.comp))
    w = results(ref); g = results(it)
    for q in w: same(g[q], w[q], '%s after %s' % (q, ' '.join(ops)), 1e-10)
    same(it.field_positions(), mo.tr, 'field_positions'); same(it.current_data(), mo.data, 'current_data')

@contract('C29')(n=20)
def empty_frame(rng, case):
    "A frame without tracers gives zeros, and does not disturb the frames after it."
    meth = ['inv', 'rbf'][case % 2]
    it, ref = IN.interpolant(meth, 3, param=2.), IN.interpolant(meth, 3, param=2.)
    tr, pt, data = rng.uniform(0, 1, (6, 3)), rng.uniform(0, 1, (4, 3)), rng.uniform(0, 1, (6, 3))
    if case % 3: it.set_scene(tr + 3, pt, data); it.interpolate()
    it.set_scene(np.empty((0, 3)), pt, np.empty((0, 3)))
    same(it.interpolate(), np.zeros((4, 3)), 'no tracers')
    same(it(np.empty((0, 3)), pt, np.empty((0, 3))), np.zeros((4, 3)), 'no tracers, off-scene')
    ref.set_scene(tr, pt, data); it.set_scene(tr, pt, data)
    same(it.interpolate(), ref.interpolate(), 'after a frame without tracers')

@contract('C30')(n=140)
def formulas(rng, case):
    meth = ['rbf', 'corrfun'][case % 2]
    k = int(rng.integers(1, 6)); n, m = int(rng.integers(k + 2, 12)), int(rng.integers(1, 6))
    tr, pt = rng.uniform(-1, 1, (n, 3)), rng.uniform(-1, 1, (m, 3))
    if case % 3 == 0: pt[0] = tr[int(rng.integers(0, n))]
    comp = companions(rng, case//2, n, m, pt, tr)
    dim = [3, 1, 2][(case//2) % 3]
    data = rng.uniform(-1, 1, (n, dim))
    with scratch() as d:
        if meth == 'corrfun':
            par = os.path.join(d, 'c.npz')
            bins = np.sort(rng.uniform(0, 2., 7)); bins[0] = 0.
            hist = rng.uniform(.05, 1, (7, [1, dim][case % 4 == 1]))
            np.savez(par, corrs=hist, bins=bins)
        else: par = float([2., 5., 9.][(case//2) % 3])
        it = IN.interpolant(meth, k, param=par)
    off = it(tr, pt, data, comp)
    it.set_scene(tr, pt, data, comp)
    rec = it.interpolate()
    tol = 1e-6 if meth == 'rbf' else 1e-9
    for i in range(m):
        o, dd = want_neighbs(tr, pt[i], None if comp is None else comp[i], k, None)
        if meth == 'rbf':
            K = np.exp(-par*((tr[o][:, None] - tr[o][None])**2).sum(2))
            want = np.exp(-par*dd[o]**2) @ np.linalg.solve(K, data[o])
        else:
            b = np.array([max(q for q in range(7) if bins[q] <= x) for x in dd[o]])
            w = np.broadcast_to(hist[b], (len(o), dim))
            want = (w*data[o]).sum(0)/w.sum(0)
        same(off[i], want, '%s off-scene at point %d' % (meth, i), tol)
        same(rec[i], want, '%s recorded at point %d' % (meth, i), tol)
    if case % 5 == 0 and dim == 3:
        eps = 1e-4
        j = it.eulerian_jacobian(eps=eps)
        for c in range(3):
            e = np.zeros(3); e[c] = eps
            same(j[:, :, c], (it(tr, pt + e, data, comp) - rec)/eps, 'finite differences', 1e-6)
    if meth == 'rbf':    # reproduces the data at a neighbour's position
        near = tr[:1] + 1e-9
        it2 = IN.interpolant('rbf', k, param=par)
        same(it2(tr, near, data)[0], data[0], 'data reproduced at a tracer', 1e-4)

@contract('C31')(n=90)
def config(rng, case):
    with scratch() as d:
        meth = ['inv', 'rbf', 'corrfun'][case % 3]
        k = [None, 1, 9][(case//3) % 3]; rad = [None, .1, 0., 1/3., 12345678.9][(case//9) % 5]
        par = {'inv': [None, 1, 2.5, .1][case % 4], 'rbf': [None, 1e5, 1e-7, 1/3.][case % 4], 'corrfun': os.path.join(d, ['c.npz', '50%.npz', '%(c)s.npz'][case//3 % 3])}[meth]
        np.savez(par if meth == 'corrfun' else os.path.join(d, 'c.npz'), corrs=np.arange(3.)[:, None], bins=np.arange(3.))
        it = IN.interpolant(meth, k, rad, par)
        cfg = ConfigParser()
        if case % 2: cfg.add_section('Interpolant')
        it.save_config(cfg)
        fn = os.path.join(d, 'c.ini')
        with open(fn, 'w') as f: cfg.write(f)
        r = IN.read_interpolant(fn)
        require(type(r) is type(it) and r._method == it._method == meth, 'method', r._method)
        require(r.num_neighbs() == it.num_neighbs() == ({'inv': 4, 'rbf': 7, 'corrfun': 4}[meth] if k is None else k), 'neighbours', r.num_neighbs())
        require(r.radius() == it.radius() == rad, 'radius', r.radius(), rad)
        require(r._par == it._par == ({'inv': 1, 'rbf': 1e5}[meth] if par is None else par), 'parameter', r._par, it._par)
        tr, pt, data = rng.uniform(0, 1, (12, 3)), rng.uniform(0, 1, (3, 3)), rng.uniform(0, 1, (12, 3))
        if meth == 'corrfun':
            same(r._corrs, it._corrs, 'correlations'); same(r._bins, it._bins, 'bins')
        elif meth == 'inv':
            for x in (it, r): x.set_scene(tr, pt, data)
            same(r.interpolate(), it.interpolate(), 'interpolation')
