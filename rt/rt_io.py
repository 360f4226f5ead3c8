import os
from common import *
from flowtracks import trajectory as T, io as FIO, scene as SC

# ---- ptv_is and xuap ------------------------------------------------------------
def make_chains(rng, case, nf, single=False, nc=8):
    """Random chains: list of (start, positions, velocities), and for each frame the
    order of the chains present in it."""
    nc = int(rng.integers(1, nc))
    chains = []
    for c in range(nc):
        s = int(rng.integers(0, nf)); l = int(rng.integers(1, min(nf - s, [nf, 6][case % 3 == 1]) + 1))
        if case % 4 == 0 and c < 2: s, l = 0, nf
        chains.append((s, np.round(rng.uniform(-50, 50, (l, 3)), 3), np.round(rng.uniform(-5, 5, (l, 3)), 3)))
    if single:
        chains.append((0, np.round(rng.uniform(-50, 50, (nf, 3)), 3), np.zeros((nf, 3))))
    order = []
    for f in range(nf):
        ids = [c for c, (s, p, v) in enumerate(chains) if s <= f < s + len(p)]
        rng.shuffle(ids)
        order.append(ids)
    return chains, order

def write_chains(d, chains, order, f0, kind, open_end=False):
    nf = len(order)
    txt = []
    for f in range(nf):
        lines = []
        for c in order[f]:
            s, p, v = chains[c]
            prev = order[f - 1].index(c) if f > s else None
            nxt = order[f + 1].index(c) if f < s + len(p) - 1 else None
            x = p[f - s]; u = v[f - s]
            if kind == 'xuap':
                w = [0. if prev is None else prev + 1., -1. if nxt is None else nxt + 1.]
                lines.append(' '.join('%.6f' % q for q in w + list(x) + list(x + 1) + list(u) + [9., 9., 9.] + [1.]))
            else:
                lines.append('%d %d %.6f %.6f %.6f' % ((-1 if prev is None else prev), (-2 if nxt is None else nxt), x[0], x[1], x[2]))
        txt.append(lines)
    if kind == 'single':
        fn = os.path.join(d, 'ptv_is_all.txt')
        open(fn, 'w').write(['\n', ' \n', '\t\n'][f0 % 3 if f0 else len(txt) % 3].join('\n'.join(l) + '\n' for l in txt))
        return fn
    tmpl = os.path.join(d, {'ptvis': 'ptv_is.%d', 'xuap': 'xuap.%d'}[kind])
    fs = list(range(nf))
    for f in fs[::-1]:
        with open(tmpl % (f0 + f), 'w') as o:
            if kind == 'ptvis': o.write('%d\n' % len(txt[f]))
            o.write('\n'.join(txt[f]) + ('\n' if txt[f] else ''))
    # files that are not frames of this template:
    open(os.path.join(d, os.path.basename(tmpl).replace('%d', '%d.bak') % f0), 'w').write('rubbish')
    open(os.path.join(d, 'x' + os.path.basename(tmpl) % f0), 'w').write('rubbish')
    return tmpl

def expected(chains, f0, lo, hi, frate, kind, minlen):
    res = []
    for s, p, v in chains:
        a, b = max(s + f0, lo), s + f0 + len(p) - 1
        if b > hi or b <= lo: continue    # still open, or not after the first frame
        if b - a + 1 < minlen: continue
        k = slice(a - f0 - s, None)
        pos = p[k] / (1. if kind == 'xuap' else 1000.)
        if kind == 'xuap': vel = v[k]
        else:
            vel = np.zeros_like(pos); vel[:-1] = np.diff(pos, axis=0)*frate
        acc = np.zeros_like(pos); acc[:-2] = np.diff(vel, axis=0)[:-1]*frate
        res.append((a, pos, vel, acc))
    return res

def ptvis_case(rng, case, what):
    kind = ['ptvis', 'single', 'xuap'][case % 3]
    nf = int(rng.integers(2, big(rng, case, 9, 30)))
    chains, order = make_chains(rng, case//3, nf, kind == 'single', big(rng, case + 3, 8, 30))
    f0 = 0 if kind == 'single' else [10001, 0, 7, 98][(case//3) % 4]
    with scratch() as d:
        tmpl = write_chains(d, chains, order, f0, kind)
        lo, hi = f0, f0 + nf - 1
        if kind != 'single' and case % 2:
            lo = f0 + int(rng.integers(0, max(1, nf//2))); hi = f0 + int(rng.integers(nf//2, nf))
            if hi <= lo: hi = lo + 1
            hi = min(hi, f0 + nf - 1)
        first, last = lo, hi
        if lo == f0 and case % 5 == 0: first = None
        if hi == f0 + nf - 1 and case % 5 == 1: last = None
        frate = float([1., 500., 33.3, .4][(case//3) % 4])
        ml = [None, 1, 2, 3, 5][(case//2) % 5]
        kw = {} if ml is None else dict(traj_min_len=ml)
        got = FIO.trajectories_ptvis(tmpl, first, last, frate, kind == 'xuap', **kw)
        got2 = list(FIO.iter_trajectories_ptvis(tmpl, first, last, frate, kind == 'xuap', **kw))
        want = expected(chains, f0, lo, hi, frate, kind, 2 if ml is None else ml)
        require(len(got) == len(got2), 'iterator and list differ')
        ids = [t.trajid() for t in got]
        require(len(set(ids)) == len(ids), 'a trajectory id repeats', ids)
        info = (kind, f0, nf, lo, hi, ml)
        require(len(got) == len(want), 'number of trajectories', len(got), len(want), info)
        left = list(want)
        for t, t2 in zip(got, got2):
            same_traj(t, t2, 'iterator and list')
            m = [k for k, w in enumerate(left) if len(t) == len(w[1]) and np.allclose(t.pos(), w[1], rtol=1e-9, atol=1e-9)
                 and t.time()[0] == w[0]]
            require(m, 'a trajectory that is no chain of linked particles', t.pos(), t.time(), info)
            a, pos, vel, acc = left.pop(m[0])
            same(t.time(), np.arange(a, a + len(t)), 'times')
            if what == 'kin':
                same(t.pos(), pos, 'position', 1e-9)
                same(t.velocity(), vel, 'velocity', 1e-9)
                same(t.accel(), acc, 'acceleration', 1e-9)

@contract('C10')(n=180)
def linking(rng, case): ptvis_case(rng, case, 'link')

@contract('C11')(n=120)
def kinematics(rng, case): ptvis_case(rng, case, 'kin')

@contract('C10')(n=40)
def all_small(rng, case):
    """All link structures of 4 frames with 2 chain slots, enumerated: each slot is cut
    or linked at each of the 3 borders, the particles' order swapped or not at each frame."""
    import itertools
    with scratch() as d:
        k = 0
        for bits in range(case, 1 << 10, 40):
            cuts = [(bits >> i) & 1 for i in range(6)]; sw = [(bits >> (6 + i)) & 1 for i in range(4)]
            chains, slot = [], {}
            for c in (0, 1):
                s = 0
                for f in range(4):
                    if f == 3 or cuts[3*c + f]:
                        chains.append((s, np.round(rng.uniform(-5, 5, (f - s + 1, 3)), 3), np.zeros((f - s + 1, 3))))
                        for g in range(s, f + 1): slot[c, g] = len(chains) - 1
                        s = f + 1
            order = [[slot[c, f] for c in ((1, 0) if sw[f] else (0, 1))] for f in range(4)]
            sub = os.path.join(d, '%d' % k); os.mkdir(sub); k += 1
            tmpl = write_chains(sub, chains, order, 5, 'ptvis')
            got = FIO.trajectories_ptvis(tmpl, traj_min_len=1)
            want = expected(chains, 5, 5, 8, 1., 'ptvis', 1)
            require(sorted((int(t.time()[0]), t.pos().tolist()) for t in got) == sorted((w[0], w[1].tolist()) for w in want),
                'trajectories of links', cuts, sw)
            require(len(set(t.trajid() for t in got)) == len(got), 'ids')

# ---- ranges and minimal lengths ---------------------------------------------------
def check_set(got, want, what):
    require(sorted(int(t.trajid()) for t in got) == sorted(int(t.trajid()) for t in want), what + ': ids',
        [(t.trajid(), len(t)) for t in got], [(t.trajid(), len(t)) for t in want])
    by = {int(t.trajid()): t for t in want}
    for t in got: same_traj(t, by[int(t.trajid())], what)

@contract('C12')(n=60)
def ranges(rng, case):
    f0 = [100, 0, 10001][case % 3]
    trs = mk_trajs(rng, int(rng.integers(1, 8)), first=f0, span=8, extra=EXTRAS[case % 6], float_time=bool(case % 2))
    with scratch() as d:
        h = os.path.join(d, ['s.h5', 's.hdf'][case % 2]); write_hdf(h, trs, bounds=bool(case % 3))
        n = os.path.join(d, 'npz') + '/'; write_npz(n, trs)
        for rep in range(8):
            lo = [None, f0 + int(rng.integers(-1, 6))][rep % 4 != 0]
            hi = [None, (lo or f0) + int(rng.integers(0, 6))][rep % 4 != 1]
            ml = [None, 0, 1, 2, 3, 5][int(rng.integers(0, 6))]
            want = [t for t in (clip(t, lo, hi) for t in trs) if len(t) >= max(1, 2 if ml is None else ml)]
            for fn, fmt in ((h, 'hdf'), (n, 'npz')):
                for fm in (None, fmt):
                    for ia in (False, True):
                        got = FIO.trajectories(fn, lo, hi, 7., fm, ml, iter_allowed=ia)
                        if not ia: require(isinstance(got, list), 'not a list')
                        check_set(list(got), want, 'trajectories(%s, %s, %s, fmt=%s, min=%s, iter=%s)' % (fmt, lo, hi, fm, ml, ia))
            got = FIO.trajectories_table(h, lo, hi)
            check_set([t for t in got if len(t)], [t for t in (clip(t, lo, hi) for t in trs) if len(t)], 'trajectories_table')

@contract('C12')(n=36)
def ranges_files(rng, case):
    kind = ['ptvis', 'xuap'][case % 2]
    nf = int(rng.integers(3, 9)); f0 = [98, 0, 10001][case % 3]
    chains, order = make_chains(rng, case, nf)
    with scratch() as d:
        tmpl = write_chains(d, chains, order, f0, kind)
        for rep in range(4):
            lo = f0 + int(rng.integers(0, nf - 1)); hi = int(rng.integers(lo + 1, f0 + nf))
            ml = [None, 1, 2, 3][int(rng.integers(0, 4))]
            want = expected(chains, f0, lo, hi, 5., kind, 2 if ml is None else ml)
            for fm in (None, kind):
                for ia in (False, True):
                    got = list(FIO.trajectories(tmpl, lo, hi, 5., fm, ml, iter_allowed=ia))
                    g = sorted((int(t.time()[0]), len(t), np.round(t.pos()[0], 9).tolist()) for t in got)
                    w = sorted((a, len(p), np.round(p[0], 9).tolist()) for a, p, v, c in want)
                    require(g == w, 'trajectories of %s %d..%d min %s' % (kind, lo, hi, ml), g, w)
                    g = sorted((int(t.time()[0]), len(t), np.round(t.velocity()[0], 6).tolist()) for t in got)
                    w = sorted((a, len(p), np.round(v[0], 6).tolist()) for a, p, v, c in want)
                    require(g == w, 'velocities of %s' % kind, g, w)
        acc, files = make_acc(rng, d, f0)
        for rep in range(4):
            lo = [None, f0 + int(rng.integers(0, 3))][rep % 3 != 0]; hi = [None, f0 + int(rng.integers(2, 5))][rep % 3 != 1]
            ml = [None, 0, 1, 3][rep]
            got = FIO.trajectories(acc, lo, hi, 1., [None, 'acc'][rep % 2], ml, iter_allowed=bool(rep//2))
            check_acc(list(got), [t for f, t in files if (lo is None or f >= lo) and (hi is None or f <= hi)
                and len(t) >= (2 if ml is None else ml)], ids=False)

# ---- HDF ---------------------------------------------------------------------------
@contract('C13')(n=60)
def hdf(rng, case):
    ft = bool(case % 2)
    trs = mk_trajs(rng, int(rng.integers(1, 7)), first=[100, 0, 10001][case % 3], span=9, extra=EXTRAS[case % 6], float_time=ft)
    if case % 4 == 3: trs.append(mk_traj(rng, 9, 2**20, 2**33 + 1, extra=EXTRAS[case % 6], float_time=ft))
    trim = [None, 0, 1, 2, 3][case % 5]
    k = trim or 0
    want = [T.Trajectory(trajid=t.trajid(), **{p: v[k:len(v) - k] for p, v in t.as_dict().items()}) for t in trs if len(t) > 2*k]
    if not want: return
    with scratch() as d:
        fn = os.path.join(d, 'x.h5')
        save = [{p: v.copy() for p, v in t.as_dict().items()} for t in trs]
        FIO.save_particles_table(fn, [trs, iter(trs)][case % 2], trim)
        for t, s in zip(trs, save):
            for p in s: same(t.as_dict()[p], s[p], 'saving changed %s' % p)
        check_set(FIO.trajectories_table(fn), want, 'trajectories_table')
        check_set(FIO.trajectories(fn, None, None, 1., traj_min_len=1), want, 'trajectories')
        sc = SC.Scene(fn)
        check_set(list(sc.iter_trajectories()), want, 'Scene')
        got = sorted(tuple(int(x) for x in r) for r in sc.trajectory_tags())
        require(got == sorted((t.trajid(), int(t.time()[0]), int(t.time()[-1])) for t in want), 'bounds', got)
        sh = dict(zip(sc.keys(), sc.shapes()))
        require(sh == {p: (v.shape[1] if v.ndim > 1 else 1) for p, v in want[0].as_dict().items() if p != 'time'}, 'keys and shapes', sh)
        sc._file.close()

@contract('C14')(n=60)
def frames(rng, case):
    ex = EXTRAS[case % 6]
    f0 = [100, 0, 10001][case % 3]
    trs = mk_trajs(rng, int(rng.integers(1, 8)), first=f0, span=7, extra=ex)
    holes = set(int(f) for f in rng.integers(f0, f0 + 7, 2)) if case % 2 else set()
    frs = []
    sign = [1., -1., 1e3, 1e7, -1e7, 1e-4][case % 6]
    for f in range(f0 - 1, f0 + 8):
        sub = [t for t in trs if t.time()[0] <= f <= t.time()[-1] and not (case % 3 == 1 and rng.uniform() < .3)]
        if f in holes: sub = []
        s = T.take_snapshot(sub, f, {k: v for k, v in trs[0].schema().items() if k != 'time'})
        kw = {k: v.copy() for k, v in s.as_dict().items()}
        kw['pos'] = kw['pos']*sign if case % 5 else np.abs(kw['pos'])*sign
        kw['trajid'] = kw['trajid'].astype(int)
        frs.append(T.ParticleSnapshot(time=f, **kw))
    if not any(len(f) for f in frs): return
    with scratch() as d:
        fn = os.path.join(d, 'x.h5')
        FIO.save_frames_hdf(fn, [frs, iter(frs)][case % 2])
        sc = SC.Scene(fn)
        got = {int(f.time()): f for f in sc.iter_frames()}
        lo = min(f.time() for f in frs if len(f)); hi = max(f.time() for f in frs if len(f))
        require(sorted(got) == list(range(lo, hi + 1)), 'frames', sorted(got), lo, hi)
        for f in frs:
            if not lo <= f.time() <= hi: continue
            g = got[f.time()].as_dict()
            require(set(g) == set(f.as_dict()), 'properties', sorted(g))
            for k, v in f.as_dict().items(): same(g[k], v, '%s in frame %d' % (k, f.time()))
        span = {}
        for f in frs:
            for i in f.trajid(): span.setdefault(int(i), [f.time(), 0])[1] = f.time()
        tags = sorted(tuple(int(x) for x in r) for r in sc.trajectory_tags())
        require(tags == sorted((i, a, b) for i, (a, b) in span.items()), 'bounds', tags, span)
        require(sorted(int(i) for i in sc.trajectory_ids()) == sorted(span), 'ids')
        allp = np.concatenate([f.pos() for f in frs])
        mn, mx = sc.bounding_box()
        same(mn, allp.min(axis=0), 'bounding box minimum'); same(mx, allp.max(axis=0), 'bounding box maximum')
        sc._file.close()
        f2 = os.path.join(d, 'y.h5')
        rows = write_hdf(f2, trs)
        sc = SC.Scene(f2)
        mn, mx = sc.bounding_box()
        same(mn, rows['pos'].min(axis=0), 'collected minimum'); same(mx, rows['pos'].max(axis=0), 'collected maximum')
        sc._file.close()

# ---- NPZ ----------------------------------------------------------------------------
@contract('C15')(n=60)
def npz(rng, case):
    f0 = [100, 0, 10001][case % 3]
    trs = mk_trajs(rng, int(rng.integers(1, 8)), first=f0, span=8, extra=EXTRAS[case % 6], float_time=bool(case % 2))
    adds = {}
    for nm in ['rec', 'traj', 'pos', 'q_1'][:case % 5]:
        adds[nm] = {t.trajid(): rng.uniform(0, 1, (len(t) - 1, 2)) if nm != 'traj' else [rng.integers(0, 9, 5), rng.integers(2**60, 2**62, (2, 1)), np.array(['a', 'bc']), np.array(3), np.zeros((0, 2))][case % 5] for t in trs}
    with scratch() as d:
        dn = os.path.join(d, 'a', 'res') if case % 2 else d
        free = {'meta': rng.uniform(0, 1, 3)} if case % 3 else {}
        FIO.save_trajectories(dn, trs, adds, **free)
        for k, v in free.items(): same(np.load(os.path.join(dn, k + '.npy')), v, 'free array')
        for rep in range(5):
            lo = [None, f0 + int(rng.integers(-1, 7))][rep % 3 != 0]
            hi = [None, (lo or f0) + int(rng.integers(0, 6))][rep % 3 != 1]
            if rep == 0: lo = hi = None
            got, ga = FIO.load_trajectories(dn + ['', '/'][rep % 2], lo, hi)
            check_set(got, [t for t in (clip(t, lo, hi) for t in trs) if len(t)], 'load_trajectories(%s, %s)' % (lo, hi))
            require(set(ga) == set(adds), 'names of added arrays', sorted(ga), sorted(adds))
            vis = set(t.trajid() for t in got)
            for nm in adds:
                require(vis <= set(ga[nm]) <= set(adds[nm]), 'ids of added arrays')
                for i in ga[nm]:
                    require(np.asarray(ga[nm][i]).dtype == adds[nm][i].dtype, 'type of added array', nm)
                    same(ga[nm][i], adds[nm][i], 'added array %s of %d' % (nm, i))

# ---- trajAcc and Matlab -------------------------------------------------------------
def make_acc(rng, d, f0, nf=5, lmax=6, gaps=False):
    tmpl = os.path.join(d, 'trajAcc.%d')
    files = []
    for f in range(f0, f0 + nf):
        tab = []
        for k in range(int(rng.integers(1, 5))):
            l = int(rng.integers(1, lmax))
            b = np.round(rng.uniform(-3, 3, (l, 36)), 4); b[:, 33] = np.arange(l) if not gaps else np.cumsum(rng.integers(1, 3, l)) - 1; b[0, 33] = 0
            tab.append(b); files.append((f, (f, b)))
        np.savetxt(tmpl % f, np.vstack(tab), fmt='%.6f')
    open(os.path.join(d, 'trajAcc.txt'), 'w').write('x'); open(os.path.join(d, 'xtrajAcc.%d' % f0), 'w').write('x')
    class A(tuple):
        def __len__(self): return len(self[1])
    return tmpl, [(f, A(t)) for f, t in files]

def check_acc(got, want, ids=True):
    require(len(got) == len(want), 'number of trajectories', len(got), len(want))
    if ids:
        require(len(set(t.trajid() for t in got)) == len(got), 'ids repeat', [t.trajid() for t in got])
    key = lambda a: tuple(np.round(np.ravel(a), 6).tolist())
    g = sorted((int(t.time()[0]), key(t.pos()), key(t.velocity()), key(t.accel()), key(t.time())) for t in got)
    w = sorted((f, key(b[:, :3]), key(b[:, 3:6]), key(b[:, 6:9]), key(b[:, 33] + float(f))) for f, b in want)
    require(g == w, 'trajAcc trajectories', g, w)

@contract('C16')(n=40)
def acc(rng, case):
    with scratch() as d:
        f0 = [98, 0, 10001][case % 3]
        tmpl, files = make_acc(rng, d, f0, gaps=bool(case % 2))
        for lo, hi in ((None, None), (f0, f0 + 4), (f0 + 1, f0 + 3), (f0 + 2, f0 + 2), (None, f0), (f0 + 4, None)):
            got = FIO.trajectories_acc(tmpl, lo, hi)
            check_acc(got, [t for f, t in files if (lo is None or f >= lo) and (hi is None or f <= hi)])

@contract('C16')(n=30)
def collect_acc(rng, case):
    with scratch() as d:
        f0 = [98, 10, 10001][case % 3]
        nf = big(rng, case, 5, 16)
        tmpl, files = make_acc(rng, d, f0, nf, big(rng, case, 6, 18))
        for f in range(f0, f0 + nf):
            rows, segs = [], []
            for g in range(f, f0 - 1, -1):
                here = [b[f - g, [0, 1, 2, 3, 4, 5, 33]] for k, (s, b) in files if k == g and len(b) > f - g]
                rows += here
            for g in range(f, f0 - 1, -1):
                here = [(b[f - g, [0, 1, 2, 3, 4, 5, 33]], b[f - g + 1, [0, 1, 2, 3, 4, 5, 33]]) for k, (s, b) in files if k == g and len(b) > f - g + 1]
                segs.append(here)
            got = FIO.collect_particles(tmpl, f)
            key = lambda r: tuple(np.round(r, 6).tolist())
            require(sorted(map(key, got)) == sorted(map(key, rows)), 'collect_particles', f)
            want = sum(segs, [])
            got = FIO.collect_particles(tmpl, f, path_seg=True)
            require(got.ndim == 3 and got.shape[0] == 2 and got.shape[2] == 7, 'shape', got.shape)
            require(sorted((key(a), key(b)) for a, b in zip(got[0], got[1])) == sorted((key(a), key(b)) for a, b in want), 'segments', f)

@contract('C16')(n=30)
def mat(rng, case):
    from scipy import io as sio
    n = int(rng.integers(1, 6))
    names = ['xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf', 't', 'trajid']
    rec = np.empty((n, 1), dtype=[(k, object) for k in names])
    want = []
    ids = trids(rng, n)
    for i in range(n):
        l = int(rng.integers(1, 7))
        d = {k: rng.uniform(-90, 90, (l, 1)) for k in names[:9]}
        d['t'] = (np.arange(l) + int(rng.integers(0, 99)))[:, None].astype(float)
        d['trajid'] = np.full((l, 1), float(ids[i]))
        for k in names: rec[i, 0][k] = d[k]
        want.append(d)
    with scratch() as dn:
        fn = os.path.join(dn, 'a.mat')
        sio.savemat(fn, {'traj': rec, 'directory': 'abc'} if case % 2 else {'traj': rec})
        for got, least in ((FIO.trajectories_mat(fn), 1), (FIO.trajectories(fn, None, None, 1.), 2)):
            here = [(d, i) for d, i in zip(want, ids) if len(d['t']) >= least]
            require(len(got) == len(here), 'number of trajectories', len(got))
            for t, (d, i) in zip(got, here):
                require(int(t.trajid()) == i, 'id', t.trajid(), i)
                c = lambda *k: np.hstack([d[x] for x in k])/1000.
                same(t.pos(), c('xf', 'yf', 'zf'), 'position', 1e-12); same(t.velocity(), c('uf', 'vf', 'wf'), 'velocity', 1e-12)
                same(t.accel(), c('axf', 'ayf', 'azf'), 'acceleration', 1e-12); same(t.time(), d['t'][:, 0], 'time')
