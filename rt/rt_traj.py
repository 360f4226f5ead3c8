from common import *
from flowtracks import trajectory as T
from flowtracks import io as FIO

def selectors(rng, n):
    yield slice(None)
    yield slice(1, n - 1)
    yield slice(None, None, 2)
    yield slice(None, None, -1)
    m = rng.uniform(0, 1, n) < .5
    yield m
    yield np.zeros(n, bool)
    if n:
        yield rng.integers(-n, n, n + 1)
        yield int(rng.integers(-n, n))
        yield [0, n - 1]
    yield np.array([], dtype=int)

@contract('C01')(n=40)
def store(rng, case):
    n = [0, 1, 2, 5, 9][case % 5]
    ex = dict(accel=rng.uniform(0, 1, (n, 3)), scal=rng.uniform(0, 1, n), cnt=rng.integers(0, 9, n),
              flag=rng.uniform(0, 1, n) < .5, pair=rng.uniform(0, 1, (n, 2)).astype(np.float32))
    names = list(ex)
    rng.shuffle(names)
    names = names[:int(rng.integers(0, 6))]
    pos, vel = rng.uniform(0, 1, (n, 3)), rng.uniform(0, 1, (n, 3))
    snap = case % 2
    if snap:
        ids = rng.permutation(n + 3)[:n]
        ps = T.ParticleSnapshot(pos, vel, 17, ids, **{k: ex[k] for k in names})
        require(ps.time() == 17, 'snapshot time', ps.time())
        want = dict(pos=pos, velocity=vel, trajid=ids)
    else:
        t = np.arange(n) + 50
        ps = T.Trajectory(pos, vel, t, 2**40 + 3, **{k: ex[k] for k in names})
        require(ps.trajid() == 2**40 + 3, 'trajectory id', ps.trajid())
        want = dict(pos=pos, velocity=vel, time=t)
    for k in names: want[k] = ex[k]
    other = T.ParticleSnapshot(rng.uniform(0, 1, (3, 3)), rng.uniform(0, 1, (3, 3)), 1, np.arange(3), scal=np.arange(3.))
    osave = {k: v.copy() for k, v in other.as_dict().items()}
    later = {'late': rng.uniform(0, 1, (n, 3)), 'late_s': rng.integers(0, 5, n)}
    want = {k: v.copy() for k, v in want.items()}

    def verify(what):
        require(len(ps) == n, 'length ' + what, len(ps))
        for k in want:
            require(ps.has_property(k), 'has_property %s %s' % (k, what))
            same(getattr(ps, k)(), want[k], '%s() %s' % (k, what))
        for k in list(ex) + ['late', 'late_s', 'nothing']:
            require(bool(ps.has_property(k)) == (k in want), 'has_property(%s) %s' % (k, what))
        d = ps.as_dict()
        require(set(d) == set(want), 'as_dict keys ' + what, sorted(d))
        for k in want: same(d[k], want[k], 'as_dict()[%s] %s' % (k, what))
        sc = ps.schema()
        require(set(sc) == set(want), 'schema keys ' + what)
        for k in want: require(tuple(sc[k]) == want[k].shape[1:], 'schema of %s %s' % (k, what), sc[k])
        es = ps.ext_schema()
        require(set(es) == set(want), 'ext_schema keys ' + what)
        for k in want:
            require(np.dtype(es[k][0]) == want[k].dtype, 'type in ext_schema of %s %s' % (k, what), es[k])
            sh = es[k][1]
            sh = (sh,) if np.ndim(sh) == 0 else tuple(sh)
            require(sh == want[k].shape[1:], 'shape in ext_schema of %s %s' % (k, what), es[k])
        for k in osave: same(other.as_dict()[k], osave[k], 'another object %s' % k)
    verify('at first')
    for k in list(want):
        for sel in selectors(rng, n):
            same(getattr(ps, k)(sel), want[k][sel], '%s(%r)' % (k, sel))
    verify('after getting')
    for op in range(8):
        k = list(want)[int(rng.integers(0, len(want)))]
        o = int(rng.integers(0, 4))
        if o == 0 and later:
            k, v = later.popitem()
            ps.create_property(k, v.copy()); want[k] = v.copy()
        elif o == 1:
            v = (rng.uniform(0, 99, want[k].shape)).astype(want[k].dtype)
            getattr(ps, 'set_' + k)(v.copy()); want[k] = v
        else:
            sels = list(selectors(rng, n))
            sel = sels[int(rng.integers(0, len(sels)))]
            v = (rng.uniform(0, 99, want[k][sel].shape)).astype(want[k].dtype)
            if case % 3 == 0 and np.ndim(v): v = v*0 + v.dtype.type(5)
            getattr(ps, 'set_' + k)(v, sel); want[k][sel] = v
        verify('after operation %d on %s' % (op, k))
    new = T.ParticleSet(pos, vel)
    require(not new.has_property('late') and set(new.as_dict()) == {'pos', 'velocity'}, 'properties leak into new objects', sorted(new.as_dict()))

@contract('C02')(n=60)
def rows(rng, case):
    n = [1, 2, 5, 9, 0][case % 5]
    tr = mk_traj(rng, n, int(rng.integers(-5, 10**6)), trids(rng, 3)[1], extra=extras(rng), float_time=bool(case % 2))
    full = np.column_stack((tr.pos(), tr.velocity(), tr.time(), np.full(n, float(tr.trajid())))) if n else np.empty((0, 8))
    for sel in selectors(rng, n):
        same(tr[sel], full[sel], 'trajectory[%r]' % (sel,))

@contract('C04')(n=120)
def unique(rng, case):
    n = [1, 2, 3, 6, 12, 30, 0][case % 7]
    g = [1, 2, 3, 1000][(case//6) % 4]
    rows = rng.integers(0, g, (n, 3 + case % 6)).astype(float)
    if case % 5 == 0: rows = rows - 1.
    if case % 7 == 0: rows[:, :3] *= 1e-9
    if case % 11 == 0: rows[rows == 0] *= rng.choice([-1., 1.], (rows == 0).sum())
    u = np.asarray(T.mark_unique_rows(rows.copy()))
    require(u.ndim == 1 and (np.diff(u) > 0).all(), 'indices not increasing', u)
    require(len(u) == 0 or (u.min() >= 0 and u.max() < n), 'index out of range', u)
    got = [tuple(r) for r in rows[u, :3]]
    require(len(set(got)) == len(got), 'two selected rows have the same position', u, rows)
    require(set(got) == set(tuple(r) for r in rows[:, :3]), 'a position is not represented', u, rows)

def scene_trajs(rng, case, **kw):
    n = [1, 2, 3, 6, 10][case % 5]
    g = [None, 2, 3][(case//5) % 3]
    return mk_trajs(rng, n, first=[100, 0, 10001][case % 3], span=[3, 8][case % 2], grid=g, **kw)

@contract('C05')(n=150)
def in_frame(rng, case):
    trs = scene_trajs(rng, case, float_time=bool((case//2) % 2), minlen=1 + (case % 4 == 0))
    if case % 29 == 28: trs = []
    f0 = [100, 0, 10001][case % 3]
    st = np.array([t.time()[0] for t in trs]); en = np.array([t.time()[-1] for t in trs])
    for f in range(f0 - 1, f0 + 9):
        for segs in (False, True):
            before = [t.pos().copy() for t in trs]
            r = [int(i) for i in T.trajectories_in_frame(trs, f, segs=segs)]
            if len(trs):
                s1, e1 = st.copy(), en.copy()
                r2 = [int(i) for i in T.trajectories_in_frame(trs, f, s1, e1, segs=segs)]
                require(r == r2, 'start and end times make a difference', f, r, r2)
                same(s1, st, 'start_times changed'); same(e1, en, 'end_times changed')
            else: r2 = r
            require(all(a < b for a, b in zip(r, r[1:])), 'not increasing', r)
            act = [i for i, t in enumerate(trs) if t.time()[0] <= f and f + (1 if segs else 0) <= t.time()[-1]]
            require(set(r) <= set(act), 'a trajectory not active in the frame', f, segs, r, act)
            at = lambda i: tuple(trs[i].pos()[int(f - trs[i].time()[0])])
            ps = [at(i) for i in r]
            require(len(set(ps)) == len(ps), 'two trajectories in the same position', f, r)
            require(set(ps) == set(at(i) for i in act), 'an active position is missing', f, segs, r, act)

@contract('C06')(n=100)
def snapshot(rng, case):
    ex = EXTRAS[case % 6]
    trs = scene_trajs(rng, case//2, float_time=bool(case % 2), extra=ex)
    f0 = min(t.time()[0] for t in trs); f1 = max(t.time()[-1] for t in trs)
    schema = trs[0].schema()
    for f in range(int(f0), int(f1) + 1):
        sub = [t for t in trs if t.time()[0] <= f <= t.time()[-1]]
        if case % 3 == 0: sub = sub[::-1]
        s = T.take_snapshot(sub, f, schema)
        require(s.time() == f, 'time', s.time())
        require(len(s) == len(sub), 'number of particles', len(s), len(sub))
        same(s.trajid(), np.array([t.trajid() for t in sub], dtype=int), 'trajid')
        for k in schema:
            if k == 'time': continue
            v = getattr(s, k)()
            for j, t in enumerate(sub):
                same(v[j], t.as_dict()[k][int(f - t.time()[0])], '%s of particle %d at %d' % (k, j, f))
            if len(sub): require(v.dtype == sub[0].as_dict()[k].dtype, 'type of ' + k, v.dtype)
    e = T.take_snapshot([], f0, schema)
    require(len(e) == 0 and e.time() == f0 and e.trajid().shape == (0,), 'empty snapshot')
    for k in schema:
        if k != 'time': require(getattr(e, k)().shape == (0,) + schema[k], 'empty snapshot shape of ' + k)

@contract('C03')(n=120)
def collect(rng, case):
    trs = scene_trajs(rng, case, float_time=bool((case//2) % 2))
    f0 = [100, 0, 10001][case % 3]
    for f in range(f0 - 1, f0 + 9):
        r = FIO.collect_particles_generic(trs, f)
        rows = [np.r_[t.pos()[f - int(t.time()[0])], t.velocity()[f - int(t.time()[0])], f, t.trajid()]
                for t in trs if t.time()[0] <= f <= t.time()[-1]]
        require(r.ndim == 2 and r.shape[1] == 8, 'shape', r.shape)
        chk(r, rows)
        r = FIO.collect_particles_generic(trs, f, path_seg=True)
        require(r.ndim == 3 and r.shape[0] == 2 and r.shape[2] == 8, 'shape', r.shape)
        rows = [np.r_[t.pos()[f - int(t.time()[0])], t.velocity()[f - int(t.time()[0])], f, t.trajid()]
                for t in trs if t.time()[0] <= f and f + 1 <= t.time()[-1]]
        chk(r[0], rows)
        by = {t.trajid(): t for t in trs}
        for a, b in zip(r[0], r[1]):
            t = by[int(a[7])]; k = f + 1 - int(t.time()[0])
            same(b, np.r_[t.pos()[k], t.velocity()[k], f + 1, t.trajid()], 'next frame row')

def chk(r, rows):
    want = set(tuple(x) for x in rows)
    got = [tuple(x) for x in r]
    require(all(g in want for g in got), 'a row that is in no trajectory', r, rows)
    ps = [g[:3] for g in got]
    require(len(set(ps)) == len(ps), 'two rows in the same position', r)
    require(set(ps) == set(w[:3] for w in want), 'a position is missing', r, rows)

@contract('C03')(n=20)
def collect_gap(rng, case):
    "A trajectory with a hole right after the frame has no segment there."
    tr = T.Trajectory(rng.uniform(0, 1, (3, 3)), rng.uniform(0, 1, (3, 3)), np.r_[10, 12, 13], 4)
    t2 = mk_traj(rng, 4, 10, 5)
    r = FIO.collect_particles_generic([tr, t2], 10, path_seg=True)
    same(r[:, :, 7], np.array([[5.], [5.]]), 'ids of segments from 10')
    r = FIO.collect_particles_generic([tr, t2], 12, path_seg=True)
    same(r[0, :, 7], np.array([4., 5.]), 'ids of segments from 12')
    same(r[1, 0, :3], tr.pos()[2], 'next position')
