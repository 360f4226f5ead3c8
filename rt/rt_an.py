import os, tables
from common import *
from rt_scene import table, ends, rng_ok, satisfy, conditions
from flowtracks import scene as SC, trajectory as T, analysis as AN, an_scene as AS, interpolation as IN
from flowtracks.particle import Particle
from configparser import ConfigParser

class Echo(AN.GeneralAnalyser):
    """An analyser with known results for each particle."""
    def __init__(self, tag, vec): self.tag, self.vec, self.calls = tag, vec, []
    def descr(self):
        return [('%s_a' % self.tag, float, 3) if self.vec else ('%s_a' % self.tag, float), ('%s_n' % self.tag, int)]
    @staticmethod
    def value(i, t, vec, k):
        return (np.r_[1., 2., 3.]*(i % 1000) + t*.5 + k) if vec else (i % 1000)*7. + t + k
    def analyse(self, frame, nxt):
        p = frame.particles
        self.calls.append((p.time(), nxt.particles.time(), frame.tracers.time()))
        k = len(self.tag)
        a = np.array([self.value(i, p.time(), self.vec, k) for i in p.trajid()]).reshape((len(p),) + ((3,) if self.vec else ()))
        return [a, (p.trajid() % 1000)*100 + p.time()]

def dual_files(rng, case, d):
    f0 = [100, 0, 10001][case % 3]
    _, tf, trows = table(rng, 1 + case, d, 't.h5', f0=f0, extra=())
    _, pf, prows = table(rng, case, d, 'p.h5', f0=f0, extra=[('scal', 'accel', 'i_p', 's_p'), ('int_p',), (), ('i_a', 'i_b', 's_c')][case % 4], holes=bool(case % 2))
    lo = f0 + int(rng.integers(0, 3)); hi = lo + int(rng.integers(3, 8))
    cfg = ConfigParser()
    cfg.read_dict({'Particle': {'diameter': '0.001', 'density': '1500'}, 'Scene': {'first frame': str(lo),
        'last frame': str(hi - 1), 'frame rate': '500', 'tracers file': tf, 'particles file': pf}})
    fn = os.path.join(d, 'c.ini')
    with open(fn, 'w') as f: cfg.write(f)
    return f0, lo, hi, tf, pf, trows, prows, fn

def seg_rows(rows, lo, hi):
    out = []
    for t in range(lo, hi - 1):
        x = rows[rows['time'] == t]; nx = set(rows['trajid'][rows['time'] == t + 1])
        out += [(int(i), t) for i in x['trajid'] if i in nx]
    return out

@contract('C22')(n=40)
def table_of_analysis(rng, case):
    with scratch() as d:
        f0, lo, hi, tf, pf, trows, prows, cfg = dual_files(rng, case, d)
        ds = SC.DualScene(tf, pf, 500., Particle(1., 1.), (lo, hi))
        ans = [Echo('x', True), Echo('yy', False), Echo('zzz', True)][:1 + case % 3]
        if case % 5 == 4: ans = []
        out = os.path.join(d, 'an.h5')
        fr, a, b = -1, lo, hi
        if case % 2:
            a = f0 + int(rng.integers(0, 4)); b = a + int(rng.integers(2, 6)); fr = (a, b)
        AN.analysis(ds, out, cfg, ans, fr)
        f = tables.open_file(out)
        r = f.root.analysis.read()
        at = f.root.analysis.attrs
        require(str(at['config']) == cfg and str(at['trajects']) == pf, 'attributes')
        f.close()
        want = seg_rows(prows, a, b)
        require([(int(i), int(t)) for i, t in zip(r['trajid'], r['time'])] == want, 'rows (id, time)', list(zip(r['trajid'], r['time'])), want)
        require(set(r.dtype.names) == {'trajid', 'time'} | set(x[0] for e in ans for x in e.descr()), 'columns', r.dtype.names)
        for e in ans:
            require(e.calls == [(t, t + 1, t) for t in range(a, b - 1)], 'frames given to the analyser', e.calls)
            for k, (i, t) in enumerate(want):
                same(r['%s_a' % e.tag][k], e.value(i, t, e.vec, len(e.tag)), 'analysis of %d in %d' % (i, t))
                require(r['%s_n' % e.tag][k] == (i % 1000)*100 + t, 'analysis of %d in %d' % (i, t))
        for s in (ds.get_particles(), ds.get_tracers()): s._file.close()

@contract('C24')(n=40)
def analysed(rng, case):
    with scratch() as d:
        f0, lo, hi, tf, pf, trows, prows, cfg = dual_files(rng, case, d)
        ds = SC.read_dual_scene(cfg)
        ans = [Echo('x', True), Echo('yy', False)][:1 + case % 2]
        out = os.path.join(d, 'an.h5')
        AN.analysis(ds, out, cfg, ans)
        sc = AS.AnalysedScene(out)
        segs = seg_rows(prows, lo, hi)
        idx = {(int(i), int(t)): k for k, (i, t) in enumerate(zip(prows['trajid'], prows['time']))}
        an_keys = ['%s_%s' % (e.tag, x) for e in ans for x in 'an']
        pk = [k for k in prows.dtype.names if k not in ('time', 'trajid')]
        require(set(sc.keys()) == set(pk + an_keys), 'keys', sc.keys())
        require(len(sc.shapes()) == len(sc.keys()), 'shapes')
        full = {}
        for k in pk: full[k] = np.array([prows[k][idx[s]] for s in segs])
        for e in ans:
            full['%s_a' % e.tag] = np.array([e.value(i, t, e.vec, len(e.tag)) for i, t in segs])
            full['%s_n' % e.tag] = np.array([(i % 1000)*100 + t for i, t in segs])
        if segs:
            for rep in range(8):
                scal = [k for k in full if full[k].ndim == 1]
                where = {}
                for k in rng.permutation(scal)[:int(rng.integers(0, 4))]:
                    k = str(k)
                    a, b = sorted(rng.choice(full[k], 2).tolist())
                    where[k] = (a, b, bool(rng.integers(0, 2)))
                m = np.ones(len(segs), bool)
                for k, (a, b, inv) in where.items():
                    v = full[k]; m &= ((v < a) | (v >= b)) if inv else ((v >= a) & (v < b))
                keys = [str(k) for k in rng.permutation(list(full))[:int(rng.integers(1, 5))]]
                for w in ([where] if where else [None, {}]):
                    got = sc.collect(keys, w)
                    require(len(got) == len(keys), 'number of arrays')
                    for k, g in zip(keys, got):
                        same(g.reshape(full[k][m].shape) if not m.any() else g, full[k][m], 'collect %s where %s' % (k, w))
        ids = sorted(set(int(i) for i in prows['trajid']))
        seen = []
        # Trajectories in the range without gaps (analysis works on segments)
        def okid(i):
            t = prows['time'][prows['trajid'] == i]; t = t[(t >= lo) & (t < hi)]
            return len(t) >= 2 and (np.diff(t) == 1).all()
        def verify(t, i):
            rows = prows[(prows['trajid'] == i)]; rows = rows[(rows['time'] >= lo) & (rows['time'] < hi)][:-1]
            dd = t.as_dict()
            require(set(dd) == set(pk + an_keys + ['time']), 'properties of trajectory', sorted(dd))
            for k in pk + ['time']: same(dd[k], rows[k], '%s of trajectory %d' % (k, i))
            for e in ans:
                for j, tm in enumerate(rows['time']):
                    same(dd['%s_a' % e.tag][j], e.value(i, int(tm), e.vec, len(e.tag)), 'analysis in trajectory')
                    require(dd['%s_n' % e.tag][j] == (i % 1000)*100 + tm, 'analysis in trajectory')
        for i in ids:
            if okid(i): 
                t = sc.trajectory_by_id(i)
                require(int(t.trajid()) == i, 'id'); verify(t, i)
        for t in sc.iter_trajectories():
            seen.append(int(t.trajid()))
            if okid(seen[-1]): verify(t, seen[-1])
        require(sorted(seen) == ids, 'each id once', seen, ids)
        for s in (ds.get_particles(), ds.get_tracers(), sc._scene.get_particles(), sc._scene.get_tracers()): s._file.close()

@contract('C24')(n=20)
def partial(rng, case):
    "The analysis table lacks some particles, and has others that are not in the particle data."
    with scratch() as d:
        f0, lo, hi, tf, pf, trows, prows, cfg = dual_files(rng, case, d)
        out = os.path.join(d, 'an.h5')
        f = tables.open_file(out, 'w')
        dt = np.dtype([('trajid', int), ('time', int), ('res', float)])
        tab = f.create_table('/', 'analysis', dt)
        rows = [(i, t, float(rng.uniform())) for i, t in seg_rows(prows, f0, f0 + 9) if rng.uniform() < .6]
        for t in range(lo, hi):
            for k in range(int(rng.integers(0, 2))): rows.append((10**9 + k, t, -1.))
        rows.sort(key=lambda r: r[1])
        if rows: tab.append(np.array(rows, dt))
        tab.attrs['config'] = cfg; tab.attrs['trajects'] = pf
        f.close()
        sc = AS.AnalysedScene(out)
        res = {(i, t): v for i, t, v in rows}
        want = []
        for t in range(lo, hi):
            for x in prows[prows['time'] == t]:
                if (int(x['trajid']), t) in res: want.append((tuple(x['pos']), res[int(x['trajid']), t]))
        p, v = sc.collect(['pos', 'res'])
        require(len(p) == len(v) == len(want), 'number of joined rows', len(p), len(v), len(want))
        require(sorted(tuple(a) for a in p) == sorted(w[0] for w in want) and sorted(v.tolist()) == sorted(w[1] for w in want), 'joined rows')
        for s in (sc._scene.get_particles(), sc._scene.get_tracers()): s._file.close()

@contract('C23')(n=80)
def fluid(rng, case):
    n, m, k = int(rng.integers(6, 12)), int(rng.integers(0, 6)), int(rng.integers(1, 5))
    ids = rng.permutation(3*n)[:n] + [0, 2**24 + 1][case % 2]
    tr = T.ParticleSnapshot(rng.uniform(0, 1, (n, 3)), rng.uniform(-1, 1, (n, 3)), 5, ids)
    kw = {}
    comp = None
    ppos = rng.uniform(0, 1, (m, 3))
    if case % 3:
        # companion: one of the tracers (near), or an id that is not there
        comp = rng.integers(0, n, m); miss = rng.uniform(0, 1, m) < .3
        c = ids[comp].copy(); c[miss] = [-1, 10**6, ids.max() + 1][case % 3]
        kw['companion'] = c.astype([int, int, np.int32][case % 3])
        near = (rng.uniform(0, 1, m) < .8)[:, None]
        ppos = np.where(near, tr.pos()[comp] + [1e-4, 0, 0], ppos) if case % 2 else np.where(near, tr.pos()[comp], ppos)
    pt = T.ParticleSnapshot(ppos, rng.uniform(-1, 1, (m, 3)), 5, np.arange(m) + 900, **kw)
    fr = SC.Frame(); fr.tracers, fr.particles = tr, pt
    meth = ['inv', 'inv', 'rbf'][case % 3] if m else 'inv'
    par = {'inv': [None, 1, 2.5][case % 3], 'rbf': 3.}[meth]
    an = AN.FluidVelocitiesAnalyser(IN.interpolant(meth, k, param=par))
    nm = [x[0] for x in an.descr()]
    require(nm == ['fluid_vel', 'rel_vel'], 'descr')
    for rep in range(2):
        r = an.analyse(fr, fr)
        want = np.empty((m, 3))
        for i in range(m):
            use = [j for j in range(n) if not (comp is not None and not miss[i] and j == comp[i]) and np.linalg.norm(tr.pos()[j] - ppos[i]) > 0]
            dd = np.array([np.linalg.norm(tr.pos()[j] - ppos[i]) for j in use])
            o = np.argsort(dd)[:k]; use = np.array(use)[o]; dd = dd[o]
            if meth == 'inv':
                w = dd**-(1. if par is None else par); want[i] = (w[:, None]*tr.velocity()[use]).sum(0)/w.sum()
            else:
                K = np.exp(-par*((tr.pos()[use][:, None] - tr.pos()[use][None])**2).sum(2))
                want[i] = np.exp(-par*dd**2) @ np.linalg.solve(K, tr.velocity()[use])
        tol = 1e-8 if meth == 'inv' else 1e-5
        same(r[0], want, 'fluid velocity', tol)
        same(r[1], pt.velocity() - want, 'relative velocity', tol)

@contract('C23')(n=60)
def companions(rng, case):
    n, m = int(rng.integers(0, 8)), int(rng.integers(0, 8))
    ids = rng.permutation(2*n + 1)[:n]
    c = rng.integers(-2, 2*n + 3, m)
    if case % 2: ids = ids + 2**33; c = c + 2**33
    r = AN.companion_indices(ids, c)
    require(len(r) == m, 'length')
    for i in range(m):
        w = np.nonzero(ids == c[i])[0]
        require(r[i] == w[0] if len(w) else r[i] < 0, 'companion index', ids, c, r)
