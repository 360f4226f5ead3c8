import os
from common import *
from flowtracks import sequence as Q, trajectory as T, io as FIO
from flowtracks.particle import Particle
from configparser import ConfigParser

def make(rng, case, d, grid=None, span=9, nmax=7, hdf=False):
    f0 = [100, 0, 10001][case % 3]
    parts = mk_trajs(rng, int(rng.integers(1, nmax)), first=f0, span=span, grid=grid, extra=EXTRAS[case % 4], float_time=bool(case % 2))
    trc = mk_trajs(rng, int(rng.integers(1, nmax)), first=f0, span=span, grid=grid)
    names = []
    for q, (nm, trs) in enumerate((('p', parts), ('t', trc))):
        if not hdf and ((case//2) % 3 == 0) != (q == 1 and case % 7 == 4):
            n = os.path.join(d, nm + '_npz') + '/'
            write_npz(n, trs)
        else:
            n = os.path.join(d, nm + '.h5')
            write_hdf(n, trs, bounds=bool(case % 2))
        names.append(n)
    return f0, parts, trc, names

def visible(trs, lo, hi, minlen):
    """What trajectories() gives a sequence of range lo, hi."""
    r = [clip(t, lo, hi) for t in trs]
    return [t for t in r if len(t) >= max(1, minlen)]

def check_visit(f, frame, nxt, parts, trc):
    for nm, trs in (('particles', parts), ('tracers', trc)):
        a, b = getattr(frame, nm), getattr(nxt, nm)
        require(a.time() == f and b.time() == f + 1, 'times of a visit', f, a.time(), b.time())
        same(a.trajid(), b.trajid(), 'ids in frame and next frame differ')
        by = {t.trajid(): t for t in trs if t.time()[0] <= f and f + 1 <= t.time()[-1]}
        ids = [int(i) for i in a.trajid()]
        require(len(set(ids)) == len(ids) and set(ids) <= set(by), nm + ' in visit of %d' % f, ids, sorted(by))
        at = lambda i: tuple(by[i].pos()[int(f - by[i].time()[0])])
        require(sorted(at(i) for i in ids) == sorted(set(at(i) for i in by)), nm + ' missing in visit of %d' % f, ids, sorted(by))
        for j, i in enumerate(ids):
            t = by[i]; k = int(f - t.time()[0])
            for p, v in t.as_dict().items():
                if p in ('time',): continue
                same(getattr(a, p)()[j], v[k], '%s of %d in frame %d' % (p, i, f))
                same(getattr(b, p)()[j], v[k + 1], '%s of %d in frame after %d' % (p, i, f))

@contract('C07')(n=48)
def iterate(rng, case):
    with scratch() as d:
        span = big(rng, case, 9, 40)
        f0, parts, trc, (pn, tn) = make(rng, case, d, grid=[None, 2][case % 2], span=span, nmax=big(rng, case + 5, 7, 30))
        lo, hi = f0 + int(rng.integers(0, 4)), f0 + int(rng.integers(5, span + 1))
        ml = int(rng.integers(0, 3))
        vp, vt = visible(parts, lo, hi, ml), visible(trc, lo, hi, ml)
        if not vp or not vt: return
        seq = Q.Sequence((lo, hi), 50., Particle(1e-3, 1e3), pn, tn, traj_min_len=ml)
        require(tuple(seq.range()) == (lo, hi), 'range', seq.range())
        ops = ['full', 'full'] + ['full', 'sub', 'abandon', 'abandon_sub', 'sel', 'tsel', 'cache', 'map', 'other', 'iter2', 'snap'] * 2
        rng.shuffle(ops)
        ops = ops[:9] + ['full']
        sp, stt = vp, vt
        def run(it, a, b, what, stop=None):
            want = a
            for frame, nxt in it:
                require(want < b, 'too many frames ' + what, want)
                check_visit(want, frame, nxt, sp, stt)
                want += 1
                if stop is not None and want >= stop: return
            require(want == b, 'iteration ended early, ' + what, want, b)
        for o in ops:
            if o == 'full': run(seq, lo, hi, 'after ' + ' '.join(ops))
            elif o in ('sub', 'abandon_sub'):
                a = int(rng.integers(lo, hi)); b = int(rng.integers(a, hi + 1))
                run(seq.iter_subrange(a, b), a, b, 'of subrange', None if o == 'sub' else int(rng.integers(a + 1, b + 2)))
            elif o == 'iter2':      # iterators are their own iterators
                a = int(rng.integers(lo, hi)); b = int(rng.integers(a, hi + 1))
                run(iter(iter(seq.iter_subrange(a, b))), a, b, 'of subrange')
                run(iter(iter(seq)), lo, hi, 'of iterator')
            elif o == 'other':      # another sequence, interleaved
                sq2 = Q.Sequence((lo, hi), 50., Particle(1e-3, 1e3), tn, pn, traj_min_len=ml)
                for (fr, nx), (fr2, nx2), w in zip(seq, sq2, range(lo, hi)):
                    check_visit(w, fr, nx, sp, stt); check_visit(w, fr2, nx2, vt, vp)
            elif o == 'snap':       # frames are the caller's
                for fr, nx in seq:
                    fr.particles.pos()[...] = 7.; nx.tracers.velocity()[...] = 7.
            elif o == 'abandon': run(seq, lo, hi, 'abandoned', int(rng.integers(lo + 1, hi + 1)))
            elif o == 'sel':
                keep = set(t.trajid() for t in vp if rng.uniform() < .6) or {vp[0].trajid()}
                seq.set_particle_selector(lambda l: [t for t in l if t.trajid() in keep])
                sp = [t for t in vp if t.trajid() in keep]
            elif o == 'tsel':
                tkeep = set(t.trajid() for t in vt if rng.uniform() < .6) or {vt[0].trajid()}
                seq.set_tracer_selector(lambda l: [t for t in l if t.trajid() in tkeep])
                stt = [t for t in vt if t.trajid() in tkeep]
            elif o == 'cache':
                require(sorted(t.trajid() for t in seq.tracer_trajectories()) == sorted(t.trajid() for t in stt), 'tracer_trajectories')
                require(sorted(t.trajid() for t in seq.particle_trajectories()) == sorted(t.trajid() for t in sp), 'particle_trajectories')
            elif o == 'map':
                seq.map_trajectories(lambda s, f, n: {})
        r = seq.subrange()
        require(tuple(r) == (max(lo, min(t.time()[0] for t in sp)), min(hi, max(t.time()[-1] for t in sp))), 'subrange()', r)

@contract('C08')(n=40)
def mapping(rng, case):
    with scratch() as d:
        span = big(rng, case, 9, 40)
        f0, parts, trc, (pn, tn) = make(rng, case, d, span=span, nmax=big(rng, case + 5, 7, 30))
        lo, hi = f0 + int(rng.integers(0, 3)), f0 + int(rng.integers(5, span + 1))
        vp, vt = visible(parts, lo, hi, 0), visible(trc, lo, hi, 0)
        if not vp or not vt: return
        seq = Q.Sequence((lo, hi), 50., Particle(1e-3, 1e3), pn, tn)
        for rep in range(4):
            sub = None
            a, b = lo, hi
            if rep == 2:
                q = int(rng.integers(lo, hi)); q2 = int(rng.integers(q, hi + 1))
                for n, x in enumerate(seq.iter_subrange(q, q2)):
                    if n == 2: break
            if rep % 2:
                a = int(rng.integers(lo, hi)); b = int(rng.integers(a, hi + 1)); sub = (a, b)
            hist, args = bool((case + rep) % 2), ((), ('x', 3))[(case//2) % 2]
            vec = bool(case % 3)
            calls = []
            val = lambda f, i: np.r_[f, i, f*i] if vec else f*1000. + i
            def func(*fa):
                require(fa[0] is seq, 'first argument')
                frame, nxt = fa[1:3]
                rest = fa[3:]
                f = frame.particles.time()
                check_visit(f, frame, nxt, vp, vt)
                if hist:
                    h = rest[0]; rest = rest[1:]
                    for t in vp:
                        fs = [g for g in range(a, b) if t.time()[0] <= g < t.time()[-1]]
                        if not fs:
                            require(t.trajid() not in h, 'history of an absent trajectory'); continue
                        require(len(h[t.trajid()]) == len(fs), 'length of history')
                        for k, g in enumerate(fs):
                            if g < f: same(h[t.trajid()][k], val(g, t.trajid()), 'history')
                require(tuple(rest) == args, 'extra arguments', rest)
                calls.append(f)
                ids = frame.particles.trajid()[::-1] if case % 2 else frame.particles.trajid()
                return {int(i): val(f, int(i)) for i in ids}
            r = seq.map_trajectories(func, sub, hist, args)
            require(calls == list(range(a, b)), 'frames visited', calls, a, b)
            want = {}
            for t in vp:
                fs = [g for g in range(a, b) if t.time()[0] <= g < t.time()[-1]]
                if fs: want[t.trajid()] = np.array([val(g, t.trajid()) for g in fs])
            require(set(int(k) for k in r) == set(want), 'trajectories in the result', sorted(r), sorted(want))
            for k in want: same(r[k], want[k], 'series of %d' % k)

@contract('C09')(n=80)
def config(rng, case):
    with scratch() as d:
        f0 = int(rng.integers(0, 10**6)); f1 = f0 + int(rng.integers(1, 10**5))
        fr = [1., 500., float(rng.uniform(.1, 9999)), 1/3.][case % 4]
        p = Particle(float(rng.uniform(1e-9, 1.)), float(10.**rng.uniform(-3, 5)))
        nm = ['/a/ptv_is.%d', 'x/part_50%%_%d', '/b/q.h5', 'dir/', 'we ird/na=me.%d', '%d', 'a%%d%d%%']
        pn, tn = nm[case % 7], nm[(case//7) % 7]
        sm, ml = bool(case % 2), [0, 0., 3, 12.][(case//2) % 4]
        kw = {}
        if case % 5: kw = dict(smooth_tracers=sm, traj_min_len=ml)
        else: sm, ml = False, 0
        s = Q.Sequence((f0, f1), fr, p, pn, tn, **kw)
        cfg = ConfigParser()
        if case % 3 == 0: cfg.add_section('Particle'); cfg.add_section('Scene')
        s.save_config(cfg)
        fn = os.path.join(d, 'c.ini')
        with open(fn, 'w') as f: cfg.write(f)
        for so in (None, True, False):
            for mo in (None, 0, 7):
                r = Q.read_sequence(fn, so, mo)
                require(tuple(r.range()) == (f0, f1), 'range', r.range(), f0, f1)
                require(r.frate == fr, 'frame rate', r.frate, fr)
                require((r.part.diam, r.part.density) == (p.diam, p.density), 'particle', vars(r.part), vars(p))
                require(r.part_fname() == pn, 'particle file', r.part_fname(), pn)
                require(r._trtmpl == tn, 'tracer file', r._trtmpl, tn)
                require(r._smooth == (sm if so is None else so), 'smoothing', r._smooth, sm, so)
                require(r._minlen == (ml if mo is None else mo), 'minimal length', r._minlen, ml, mo)
                require(r.part_format() == FIO.infer_format(pn), 'particle format')
        for k in ('apply smoothing', 'trajectory minimal length'): cfg.remove_option('Scene', k)
        with open(fn, 'w') as f: cfg.write(f)
        r = Q.read_sequence(fn)
        require(r._smooth is False and r._minlen == 0, 'defaults', r._smooth, r._minlen)
        r = Q.read_sequence(fn, True, 5)
        require(r._smooth is True and r._minlen == 5, 'given values', r._smooth, r._minlen)

@contract('C35')(n=40)
def frame_data(rng, case):
    with scratch() as d:
        f0, parts, trc, (pn, tn) = make(rng, case, d, grid=[None, 2][case % 2])
        f = f0 + int(rng.integers(0, 7))
        vp, vt = visible(parts, f, f + 2, 2), visible(trc, f, f + 2, 2)
        cfg = ConfigParser()
        dm, dn, fr = float(rng.uniform(0, 1)), float(rng.uniform(0, 1e4)), float(rng.uniform(1, 1e4))
        cfg.read_dict({'Particle': {'diameter': repr(dm), 'density': repr(dn)},
            'Scene': {'frame': str(f), 'frame rate': repr(fr), 'tracer_file': tn, 'part_file': pn}})
        fn = os.path.join(d, 'c.ini')
        with open(fn, 'w') as fo: cfg.write(fo)
        if not vp or not vt: return
        p, r, a, b = FIO.read_frame_data(fn)
        require((p.diam, p.density, r) == (dm, dn, fr), 'scalars', p.diam, p.density, r)
        check_visit(f, a, b, vp, vt)

@contract('C35')(n=20)
def dual_config(rng, case):
    from flowtracks.scene import read_dual_scene
    with scratch() as d:
        f0, parts, trc, (pn, tn) = make(rng, 2 + case, d, hdf=True)
        lo, hi = f0 + int(rng.integers(0, 4)), f0 + int(rng.integers(4, 8))
        cfg = ConfigParser()
        dm, dn, fr = float(rng.uniform(0, 1)), float(rng.uniform(0, 1e4)), float(rng.uniform(1, 1e4))
        cfg.read_dict({'Particle': {'diameter': repr(dm), 'density': repr(dn)},
            'Scene': {'first frame': str(lo), 'last frame': str(hi), 'frame rate': repr(fr), 'tracers file': tn, 'particles file': pn}})
        fn = os.path.join(d, 'c.ini')
        with open(fn, 'w') as fo: cfg.write(fo)
        s = read_dual_scene(fn)
        require((s.part.diam, s.part.density, s.frate) == (dm, dn, fr), 'scalars')
        require(tuple(s.get_range()) == (lo, hi + 1), 'range', s.get_range(), lo, hi)
        require(s.get_particles_path() == pn, 'particles path')
        for sc, trs in ((s.get_particles(), parts), (s.get_tracers(), trc)):
            require(tuple(sc.frame_range()) == (lo, hi + 1), 'scene range', sc.frame_range())
            want = sorted((int(t), tr.trajid()) for tr in trs for t in tr.time() if lo <= t <= hi)
            got = sorted((int(fr.time()), int(i)) for fr in sc.iter_frames() for i in fr.trajid())
            require(got == want, 'rows read')
