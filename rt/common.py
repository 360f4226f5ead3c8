"""Shared helpers of the run-time contract checks (run under /opt/venv/bin/python,
with PYTHONPATH=/repo).  They evaluate the contracts of a property on the real
code, for generated inputs: the search for (and replay of) concrete failing
inputs that accompanies the proof obligations.
"""
import contextlib, os, shutil, tempfile, warnings
import numpy as np
warnings.simplefilter('ignore')

class Violation(Exception):
    pass

REG = {}
def contract(*props):
    """Register a check: a function (rng, case) where case is a small int;
    everything it does is determined by the seed and the case number."""
    def deco(*a, **k):
        raise TypeError
    def reg(fn, n=None):
        return fn
    class D(object):
        def __init__(self, n=60, weight=1): self.n, self.weight = n, weight
        def __call__(self, fn):
            for p in props:
                REG.setdefault(p, []).append((fn.__name__, fn, self.n))
            return fn
    return D

def require(cond, msg, *vals):
    if not cond:
        raise Violation(msg + (': ' + ', '.join(repr(v)[:300] for v in vals) if vals else ''))

def same(got, want, what, tol=0.):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation('%s: shape %s instead of %s' % (what, got.shape, want.shape))
    if tol == 0.:
        ok = (got == want)
        if got.dtype.kind == 'f' and want.dtype.kind == 'f':
            ok = ok | (np.isnan(got) & np.isnan(want))
    else:
        ok = np.isclose(got, want, rtol=tol, atol=tol*(np.abs(want[np.isfinite(want)]).max() if np.isfinite(want).any() else 1.), equal_nan=True)
    if not np.all(ok):
        raise Violation('%s: %s instead of %s' % (what, np.array2string(got, threshold=40), np.array2string(want, threshold=40)))

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vrt_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---- generators of trajectories -------------------------------------------
def mk_traj(rng, n, start, trid, extra=(), float_time=False, pos=None, grid=None):
    """One gap-free trajectory; extra: names of extra properties, by convention
    's*' scalar float, 'i*' scalar int, 'v*' 3-vectors, 'p*' 2-vectors, 'f*' float32."""
    from flowtracks.trajectory import Trajectory
    if pos is None:
        pos = rng.uniform(-1, 1, (n, 3)) if grid is None else rng.integers(0, grid, (n, 3)).astype(float)
    kw = {}
    for e in extra:
        kw[e] = {'s': lambda: rng.uniform(0, 9, n), 'i': lambda: rng.integers(-5, 99, n),
                 'v': lambda: rng.uniform(0, 9, (n, 3)), 'p': lambda: rng.uniform(0, 9, (n, 2)),
                 'f': lambda: rng.uniform(0, 9, n).astype(np.float32),
                 'b': lambda: rng.uniform(0, 9, n) < 4, 'c': lambda: rng.integers(-1, 9, n),
                 'a': lambda: rng.uniform(-9, 9, (n, 3))}[e[0]]()
    t = np.arange(start, start + n)
    if float_time: t = t.astype(float)
    return Trajectory(pos, rng.uniform(-1, 1, (n, 3)), t, trid, **kw)

def trids(rng, n):
    """Distinct ids: small, shuffled, or large."""
    k = rng.integers(0, 4)
    if k == 0: ids = np.arange(n)
    elif k == 1: ids = rng.permutation(3*n + 1)[:n]
    elif k == 2: ids = rng.permutation(3*n + 1)[:n] + 2**24 + 1
    else: ids = rng.permutation(3*n + 1)[:n] * 1000 + 7
    return [int(i) for i in ids]

def mk_trajs(rng, n, first=100, span=8, minlen=1, **kw):
    ids = trids(rng, n)
    res = []
    for i in range(n):
        s = int(rng.integers(0, span - minlen + 1))
        l = int(rng.integers(minlen, span - s + 1))
        res.append(mk_traj(rng, l, first + s, ids[i], **kw))
    return res

def rows_of(traj, k):
    return traj.as_dict()[k]

EXTRAS = [(), ('accel',), ('scal',), ('accel', 'scal', 'int_p'), ('vec', 'pair', 'companion'), ('f32', 'i_p')]
def big(rng, case, small, large):
    "mostly small; one case in 8 large"
    return large if (case*2654435761 >> 7) % 8 == 3 else small
def extras(rng):
    return EXTRAS[int(rng.integers(0, len(EXTRAS)))]

# ---- databases written without the code under test ---------------------------
def write_hdf(path, trajs, bounds=True, shuffle=None):
    """A particles table as the HDF format has it, written with PyTables only."""
    import tables
    f = tables.open_file(path, 'w')
    d = trajs[0].as_dict()
    dt = np.dtype([('trajid', int)] + [(k, d[k].dtype, d[k].shape[1:]) for k in d])
    tab = f.create_table('/', 'particles', dt)
    rows = []
    for t in trajs:
        a = np.empty(len(t), dt); a['trajid'] = t.trajid()
        for k, v in t.as_dict().items(): a[k] = v
        rows.append(a)
    rows = np.concatenate(rows)
    if shuffle is not None:
        rows = rows[shuffle.permutation(len(rows))]
    tab.append(rows)
    if bounds:
        b = f.create_table('/', 'bounds', np.dtype([('trajid', int), ('first', int), ('last', int)]))
        for t in trajs: b.append([(t.trajid(), int(t.time()[0]), int(t.time()[-1]))])
    f.close()
    return rows

def write_npz(d, trajs):
    import os
    os.makedirs(d, exist_ok=True)
    for t in trajs:
        np.savez(os.path.join(d, 'traj_%d' % t.trajid()), **{'traj:' + k: v for k, v in
            t.as_dict().items()})

def same_traj(got, want, what, keys=None):
    require(int(got.trajid()) == int(want.trajid()), what + ': id', got.trajid(), want.trajid())
    g, w = got.as_dict(), want.as_dict()
    g.pop('trajid', None)
    require(set(g) == set(w), what + ': properties', sorted(g), sorted(w))
    require(len(got) == len(want), what + ': length', len(got), len(want))
    for k in w: same(g[k], w[k], '%s: %s of trajectory %s' % (what, k, want.trajid()))

def clip(t, first, last):
    from flowtracks.trajectory import Trajectory
    tm = t.time()
    sel = np.ones(len(tm), bool)
    if first is not None: sel &= tm >= first
    if last is not None: sel &= tm <= last
    return Trajectory(trajid=t.trajid(), **{k: v[sel] for k, v in t.as_dict().items()})
