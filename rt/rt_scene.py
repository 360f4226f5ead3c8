import os
from common import *
from flowtracks import scene as SC, trajectory as T
from flowtracks.particle import Particle

def table(rng, case, d, name='s.h5', holes=True, extra=None, f0=None, mono=False, float_time=False):
    """A particles table: rows of each trajectory in time order, trajectories
    interleaved or not, possibly with gaps and empty frames."""
    f0 = [100, 0, 10001][case % 3] if f0 is None else f0
    trs = mk_trajs(rng, int(rng.integers(1, 8)), first=f0, span=8, extra=EXTRAS[case % 6] if extra is None else extra)
    if holes and case % 3 == 0:
        h = f0 + int(rng.integers(1, 7))
        new = []
        for t in trs:
            k = t.time() != h
            if k.sum(): new.append(T.Trajectory(trajid=t.trajid(), **{p: v[k] for p, v in t.as_dict().items()}))
        trs = new or trs
    fn = os.path.join(d, name)
    inter = case % 4 == 1
    if inter:
        import tables
        rows = write_hdf(fn, trs, bounds=bool(case % 2))
        rows = rows[np.argsort(rows['time'], kind='stable')]
        f = tables.open_file(fn, 'a'); f.root.particles.remove_rows(0, f.root.particles.nrows) if False else None
        f.root.particles[:] = rows
        f.close()
    else:
        rows = write_hdf(fn, trs, bounds=bool(case % 2))
    return f0, fn, rows

def rng_ok(rows, lo, hi):
    m = np.ones(len(rows), bool)
    if lo is not None: m &= rows['time'] >= lo
    if hi is not None: m &= rows['time'] < hi
    return rows[m]

def rand_range(rng, f0):
    k = int(rng.integers(0, 5))
    a = f0 + int(rng.integers(-2, 7)); b = a + int(rng.integers(0, 7))
    return [None, (a, b), (a, b), (None, b), (a, None)][k]

def ends(rows, r):
    lo, hi = r or (None, None)
    return (int(rows['time'].min()) if lo is None else lo, int(rows['time'].max()) + 1 if hi is None else hi)

def same_rows(obj, rows, what, skip):
    d = obj.as_dict()
    require(set(d) == set(rows.dtype.names) - {skip}, what + ': properties', sorted(d))
    for k in d: same(d[k], rows[k], '%s: %s' % (what, k))

@contract('C17')(n=60)
def frames(rng, case):
    with scratch() as d:
        f0, fn, rows = table(rng, case, d)
        r = rand_range(rng, f0) if case % 2 else None
        sc = SC.Scene(fn, r)
        for rep in range(6):
            lo, hi = ends(rows, r)
            require(tuple(sc.frame_range()) == (lo, hi), 'frame_range', sc.frame_range(), r)
            it = sc.iter_frames()
            if rep == 3:    # abandoned
                for k, f in enumerate(it):
                    if k == 1: break
                del it
                it = sc.iter_frames()
            t = lo
            for f in it:
                require(f.time() == t and t < hi, 'frame number', f.time(), t)
                same_rows(f, rows[rows['time'] == t], 'frame %d of range %s' % (t, r), 'time')
                t += 1
            require(t == max(lo, hi), 'iteration ended early', t, hi)
            for t in (int(rows['time'][0]), int(rows['time'][-1])):
                f = sc.frame_by_time(t)
                require(f.time() == t, 'frame_by_time number')
                same_rows(f, rows[rows['time'] == t], 'frame_by_time(%d) range %s' % (t, r), 'time')
            r = rand_range(rng, f0)
            sc.set_frame_range(r)
        require(set(sc.keys()) == set(rows.dtype.names) - {'time', 'trajid'}, 'keys', sc.keys())
        sc._file.close()

@contract('C18')(n=60)
def trajects(rng, case):
    with scratch() as d:
        f0, fn, rows = table(rng, case, d)
        r = rand_range(rng, f0) if case % 2 else None
        sc = SC.Scene(fn, r)
        allids = sorted(set(int(i) for i in rows['trajid']))
        for rep in range(6):
            require(sorted(int(i) for i in sc.trajectory_ids()) == allids, 'ids', sc.trajectory_ids(), allids)
            seen = []
            vis = rng_ok(rows, *(r or (None, None)))
            for t in sc.iter_trajectories():
                seen.append(int(t.trajid()))
                same_rows(t, vis[vis['trajid'] == t.trajid()], 'trajectory %d range %s' % (t.trajid(), r), 'trajid')
            require(sorted(seen) == allids, 'each id once', seen, allids)
            for i in allids:
                t = sc.trajectory_by_id(i)
                require(int(t.trajid()) == i, 'id', t.trajid())
                same_rows(t, vis[vis['trajid'] == i], 'trajectory_by_id(%d) range %s' % (i, r), 'trajid')
            r = rand_range(rng, f0)
            sc.set_frame_range(r)
        sc._file.close()

def check_seg(a, b, rows, t, what):
    x, y = rows[rows['time'] == t], rows[rows['time'] == t + 1]
    both = set(x['trajid']) & set(y['trajid'])
    require(a.time() == t and b.time() == t + 1, what + ': times', a.time(), b.time(), t)
    same_rows(a, x[[i in both for i in x['trajid']]] if len(x) else x, '%s: frame %d' % (what, t), 'time')
    same_rows(b, y[[i in both for i in y['trajid']]] if len(y) else y, '%s: frame after %d' % (what, t), 'time')

@contract('C19')(n=60)
def segments(rng, case):
    with scratch() as d:
        f0, fn, rows = table(rng, case, d)
        r = rand_range(rng, f0) if case % 2 else None
        sc = SC.Scene(fn, r)
        for rep in range(6):
            lo, hi = ends(rows, r)
            t = lo
            for a, b in sc.iter_segments():
                require(t + 1 < hi, 'too many segments', t, r)
                check_seg(a, b, rows, t, 'segment in range %s' % (r,))
                t += 1
            require(t == max(lo, hi - 1), 'segments ended early', t, lo, hi)
            r = rand_range(rng, f0)
            sc.set_frame_range(r)
        sc._file.close()

def conditions(rng, rows, n, names=('scal', 'int_p', 'i_p')):
    """Random where-conditions; boundaries are often values that occur."""
    have = [k for k in names if k in rows.dtype.names] + ['trajid', 'time']
    where = {}
    for k in have:
        if len(where) >= n or rng.uniform() < .3: continue
        v = rows[k]
        a, b = rng.choice(v, 2)
        if rng.uniform() < .3 and v.dtype.kind == 'f': a, b = float(a) - .1, float(b) + .1
        a, b = min(a, b), max(a, b)
        where[k] = (v.dtype.type(a).item(), v.dtype.type(b).item(), bool(rng.uniform() < .4))
    return where

def satisfy(rows, where):
    m = np.ones(len(rows), bool)
    for k, (a, b, inv) in where.items():
        v = rows[k]
        m &= ((v < a) | (v >= b)) if inv else ((v >= a) & (v < b))
    return m

@contract('C20')(n=70)
def collect(rng, case):
    with scratch() as d:
        f0, fn, rows = table(rng, case, d, extra=[('scal', 'int_p', 'accel'), ('scal',), ('i_p', 'pair')][case % 3])
        r = rand_range(rng, f0) if case % 2 else None
        sc = SC.Scene(fn, r)
        for rep in range(8):
            where = conditions(rng, rows, int(rng.integers(0, 4)))
            vis = rng_ok(rows, *(r or (None, None)))
            vis = vis[satisfy(vis, where)]
            keys = list(rng.permutation([k for k in rows.dtype.names]))[:int(rng.integers(1, 5))]
            keys = [str(k) for k in keys]
            for w in ([where] if where else [None, {}]):
                got = sc.collect(keys, w)
                require(len(got) == len(keys), 'number of arrays')
                for k, g in zip(keys, got): same(g, vis[k], 'collect %s where %s range %s' % (k, w, r))
            r = rand_range(rng, f0)
            sc.set_frame_range(r)
        # limits that differ by little
        sc.set_frame_range(None)
        k = [k for k in ('scal',) if k in rows.dtype.names]
        if k:
            v = np.sort(rows['scal'])
            for i in range(min(len(v), 5)):
                x = float(v[int(rng.integers(0, len(v)))])
                got = sc.collect(['trajid'], {'scal': (x, float(np.nextafter(x, 99)), False)})[0]
                same(got, rows['trajid'][rows['scal'] == x], 'collect exactly one value')
                got = sc.collect(['trajid', 'pos'], {'scal': (x, float(np.nextafter(x, 99)), True)})
                same(got[1], rows['pos'][rows['scal'] != x], 'collect all but one value')
        sc._file.close()

@contract('C20')(n=30)
def query(rng, case):
    k = ['example', 'v', 'a_b'][case % 3]
    a, b = [(-1, 1), (0, 2.5), (1/3., 1e-9), (123456789, 123456790), (-1e20, 1e20), (-0.1234567891234, 1e6)][case % 6]
    for inv in (False, True):
        s = SC.gen_query_string(k, (a, b, inv))
        for x in (a, b, (a + b)/2., a - 1, b + 1, float(np.nextafter(a, -1e99)), float(np.nextafter(b, -1e99))):
            got = bool(eval(s, {k: np.bool_(0) + np.float64(x)}))
            require(got == ((x < a or x >= b) if inv else (a <= x < b)), 'gen_query_string %s at %r' % (s, x))

@contract('C21')(n=50)
def dual(rng, case):
    with scratch() as d:
        f0 = [100, 0, 10001][case % 3]
        _, tf, trows = table(rng, 1 + case, d, 't.h5', f0=f0, extra=())
        _, pf, prows = table(rng, 2 + case, d, 'p.h5', f0=f0)
        a = f0 + int(rng.integers(0, 3)); b = a + int(rng.integers(1, 6))
        part = Particle(1., 2.)
        if case % 4 == 3:
            if ends(trows, None) != ends(prows, None): return
            base = None
        else: base = (a, b)
        ds = SC.DualScene(tf, pf, 123., part, base)
        require(ds.get_range() == base and ds.frate == 123. and ds.part is part, 'attributes')
        def check_frames(it, r, seg, stop=None):
            lo, hi = ends(prows, r); t = lo
            for x in it:
                if seg:
                    require(t + 1 < hi, 'too many segments')
                    check_seg(x[0].particles, x[1].particles, prows, t, 'particles'); check_seg(x[0].tracers, x[1].tracers, trows, t, 'tracers')
                else:
                    require(t < hi, 'too many frames')
                    for s, rows in ((x.particles, prows), (x.tracers, trows)):
                        require(s.time() == t, 'time', s.time(), t)
                        same_rows(s, rows[rows['time'] == t], 'dual frame', 'time')
                t += 1
                if t - lo == stop: return
            require(t == max(lo, hi - 1 if seg else hi), 'ended early', t, lo, hi)
        for rep in range(7):
            seg = bool(rng.integers(0, 2))
            ab = [None, 1, 2][int(rng.integers(0, 3))]
            f = ds.iter_segments if seg else ds.iter_frames
            if rng.uniform() < .5:
                lo = f0 + int(rng.integers(0, 4)); r = (lo, lo + int(rng.integers(1, 6)))
                it = f(r)
            else:
                r = base; it = f()
            check_frames(it, r, seg, ab)
            del it
            import gc; gc.collect()
            for sc, rows in ((ds.get_particles(), prows), (ds.get_tracers(), trows)):
                require(tuple(sc.frame_range()) == ends(rows, base), 'range after iteration', sc.frame_range(), base, r, ab)
                vis = rng_ok(rows, *(base or (None, None)))
                same(sc.collect(['trajid'])[0], vis['trajid'], 'scene content after iteration')
        for s in (ds.get_particles(), ds.get_tracers()): s._file.close()
