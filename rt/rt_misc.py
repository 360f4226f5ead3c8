from common import *
from flowtracks import pairs as PA, smoothing as SM, trajectory as T

@contract('C32')(n=120)
def pairs(rng, case):
    f0 = [100, 0, 10001][case % 3]
    ft = bool(case % 2)
    m = big(rng, case, 7, 120); span = big(rng, case + 3, 8, 40)
    prim = mk_trajs(rng, int(rng.integers(1, min(m, 30))), first=f0, span=span, float_time=ft)
    sec = mk_trajs(rng, int(rng.integers(1, m)), first=f0 + int(rng.integers(0, 3)), span=span, float_time=bool((case//2) % 2), minlen=1)
    pts = [(t.trajid(), k) for t in prim for k in range(len(t))]
    sel = rng.permutation(len(pts))[:int(rng.integers(1, len(pts) + 1))]
    if case % 4 == 0: sel = np.sort(sel)
    if case % 5 == 0: sel = np.r_[sel, sel[:2]]      # a repeated request
    ids = np.array([pts[i][0] for i in sel]); tp = np.array([pts[i][1] for i in sel])
    i0, t0 = ids.copy(), tp.copy()
    pi, pt = PA.particle_pairs(prim, sec, ids, tp)
    same(ids, i0, 'request changed'); same(tp, t0, 'request changed')
    require(len(pi) == len(pt) == len(ids), 'length')
    pby = {t.trajid(): t for t in prim}; sby = {t.trajid(): t for t in sec}
    for q in range(len(ids)):
        p = pby[ids[q]]; f = int(p.time()[0]) + tp[q]
        cand = [t for t in sec if t.time()[0] <= f and f + 1 <= t.time()[-1]]
        if not cand:
            require(pt[q] == -1, 'pair found without candidates', q, pi[q], pt[q]); continue
        dist = {t.trajid(): np.linalg.norm(t.pos()[f - int(t.time()[0])] - p.pos()[tp[q]]) for t in cand}
        require(int(pi[q]) in dist, 'pair is no candidate', q, pi[q], sorted(dist))
        require(dist[int(pi[q])] <= min(dist.values())*(1 + 1e-12), 'pair is not the nearest', q, pi[q], dist)
        require(pt[q] == f - int(sby[int(pi[q])].time()[0]), 'time index of pair', q, pt[q], f)

def fit(y, w, order, i):
    "Least-squares polynomial over the window around i: value and derivatives at i."
    h = w//2
    x = np.arange(-h, h + 1)
    c = np.polynomial.polynomial.polyfit(x, y[i - h:i + h + 1], order)
    return np.r_[c, np.zeros(4)][:4]

@contract('C33')(n=90)
def savgol(rng, case):
    w = [3, 5, 7, 9, 11, 15][case % 6]
    order = int(rng.integers(0, min(w - 1, 8)))
    fps = float([1., 500., 31.7][case % 3])
    trs = mk_trajs(rng, int(rng.integers(1, 5)), first=[100, 0][case % 2], span=2*w + 4, extra=EXTRAS[case % 6], float_time=bool(case % 2))
    if case % 4 == 0: trs.append(mk_traj(rng, w, 50, 777777, extra=EXTRAS[case % 6]))
    if case % 4 == 1: trs.append(mk_traj(rng, w - 1, 50, 777777, extra=EXTRAS[case % 6]))
    poly = []
    for t in trs:
        if case % 2:
            x = np.arange(len(t))/fps
            c = rng.uniform(-1, 1, (order + 1, 3))
            t.set_pos(sum(c[k]*(x**k)[:, None] for k in range(order + 1)))
            poly.append([sum(c[k]*(x**k)[:, None] for k in range(order + 1)),
                         sum(k*c[k]*(x**(k - 1))[:, None] for k in range(1, order + 1)) + np.zeros((len(t), 3)),
                         sum(k*(k - 1)*c[k]*(x**(k - 2))[:, None] for k in range(2, order + 1)) + np.zeros((len(t), 3))])
    save = [{k: v.copy() for k, v in t.as_dict().items()} for t in trs]
    out = SM.savitzky_golay(trs, fps, w, order)
    for t, s in zip(trs, save):
        for k in s: same(t.as_dict()[k], s[k], 'smoothing changed %s of the original' % k)
    long = [k for k, t in enumerate(trs) if len(t) >= w]
    require([t.trajid() for t in out] == [trs[k].trajid() for k in long], 'trajectories', [t.trajid() for t in out])
    h = w//2
    for t, k in zip(out, long):
        src = trs[k]; n = len(src)
        require(len(t) == n, 'length'); same(t.time(), src.time(), 'time')
        dd = t.as_dict()
        require(set(dd) == set(src.as_dict()) | {'accel', 'vel_pp', 'acc_pp'}, 'properties', sorted(dd))
        for p, v in src.as_dict().items():
            if p not in ('pos', 'velocity', 'accel', 'vel_pp', 'acc_pp'):
                same(dd[p], v, 'property ' + p); require(dd[p].dtype == v.dtype, 'type of ' + p)
        for p in ('pos', 'velocity', 'accel', 'vel_pp', 'acc_pp'): require(dd[p].shape == (n, 3), 'shape of ' + p)
        sc = np.abs(src.pos()).max() + 1e-12
        jerk = np.zeros((n, 3))
        for i in range(h, n - h):
            for c in range(3):
                f = fit(src.pos()[:, c], w, order, i)
                jerk[i, c] = 6*f[3]*fps**3
                for p, v in (('pos', f[0]), ('velocity', f[1]*fps), ('accel', 2*f[2]*fps**2)):
                    s = sc*{'pos': 1., 'velocity': fps, 'accel': fps**2}[p]
                    require(abs(dd[p][i, c] - v) < 1e-7*s, '%s at %d' % (p, i), dd[p][i, c], v)
        for i in range(h + 1, n - h + 1 if h else n):
            j = i - 1
            if j < h or j >= n - h: continue
            same(dd['vel_pp'][i], dd['velocity'][j] + dd['accel'][j]/fps + jerk[j]/2./fps**2, 'vel_pp at %d' % i, 1e-5)
            require(np.abs(dd['acc_pp'][i] - (dd['accel'][j] + jerk[j]/fps)).max() <= 1e-5*sc*fps**2, 'acc_pp at %d' % i)
        if poly:
            for q, p in enumerate(('pos', 'velocity', 'accel')):
                s = sc*fps**q
                require(np.abs(dd[p][h:n - h] - poly[k][q][h:n - h]).max() < 1e-6*s, 'polynomial not reproduced: ' + p)
    again = SM.savitzky_golay(out, fps, w, order)
    require(len(again) == len(out), 'smoothing again')
    for a, t in zip(again, out):
        require(set(a.as_dict()) == set(t.as_dict()), 'properties after smoothing again')
        for p in ('pos', 'velocity', 'accel', 'vel_pp', 'acc_pp'):
            b = SM.savitzky_golay([T.Trajectory(t.pos(), t.velocity(), t.time(), t.trajid())], fps, w, order)[0]
            same(a.as_dict()[p], b.as_dict()[p], 'smoothing again: ' + p, 1e-9)

@contract('C34')(n=60)
def pdf(rng, case):
    from flowtracks import graphics as G
    n, nb = int(rng.integers(2, 400)), int(rng.integers(1, 30))
    log = bool(case % 2)
    data = rng.lognormal(0, 2, n) if log else rng.normal(0, 3, n)*[1., 1e-3, 1e6][case % 3]
    if log and case % 4 == 3: data = np.r_[data, 0., -3., -data[:2]]
    if case % 5 == 0: data = np.round(data*4)/4.; data = np.r_[data, .25, 7.75]
    d0 = data.copy()
    hist, e = G.pdf_bins(data, nb, log) if case % 3 else G.pdf_bins(data, nb, log_bins=log)
    same(data, d0, 'data changed')
    use = data[data > 0] if log else data
    require(hist.shape == (nb,) and e.shape == (nb + 1,), 'shapes', hist.shape, e.shape)
    require((np.diff(e) > 0).all(), 'edges do not increase', e)
    require(np.isclose(e[0], use.min(), rtol=1e-9, atol=0) and np.isclose(e[-1], use.max(), rtol=1e-9, atol=0), 'edges do not span the data', e, use.min(), use.max())
    if log: require(np.allclose(np.diff(np.log(e)), np.log(e[-1]/e[0])/nb, rtol=1e-6), 'edges are not equally spaced on the log scale', e)
    else: require(np.allclose(np.diff(e), (e[-1] - e[0])/nb, rtol=1e-6), 'edges are not equally spaced', e)
    require(abs((hist*np.diff(e)).sum() - 1.) < 1e-9, 'does not integrate to 1', (hist*np.diff(e)).sum())
    frac = hist*np.diff(e)*len(use)
    # samples not within rounding of an inner edge
    k = np.clip(np.searchsorted(e, use, side='right') - 1, 0, nb - 1)
    amb = np.array([(np.abs(e[1:-1] - x) < 1e-9*max(abs(x), 1e-300)).any() for x in use]) if nb > 1 else np.zeros(len(use), bool)
    lo = np.bincount(k[~amb], minlength=nb)
    require((frac > lo - 1e-6*len(use)).all() and (frac < lo + amb.sum() + len(use)*1e-6).all(), 'fractions', frac, lo)
    if not amb.any(): require(np.allclose(frac, lo, atol=1e-6*len(use)), 'fractions', frac, lo)
