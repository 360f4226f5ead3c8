from lib import *
import c19
D = SC + '.DualScene.'
S = SC + '.Scene.'
FNS = [D + '__init__', D + 'iter_frames', D + 'iter_segments', D + 'get_range', D + 'get_particles', D + 'get_tracers']
USED = [S + 'iter_frames', S + 'iter_segments', S + 'set_frame_range', S + '__init__', S + '_iter_frame_arrays']
def frame_is(h, snap, hdf, t, what, T):
    h.prove(isinstance(snap, T.ParticleSnapshot), 'a snapshot')
    h.prove(snap.time() == t, 'time of the ' + what)
    tm = hdf.col('time')
    want = hdf.sel(lambda i: tm.at(i) == t)
    same_rows(h, lambda f: snap.__dict__[f](), want, [f for f in hdf.rec.cols if f != 'time'], what)
def make(h, kind):
    p = HDF(h, 'part.h5'); t = HDF(h, 'trac.h5'); hdf_files(h, p, t)
    S, T = h.mod(SC), h.mod(TR)
    rng = frame_range(h, kind)
    part = S.Particle(h.real('diam'), h.real('dens'))
    rate = h.real('rate')
    ds = S.DualScene('trac.h5', 'part.h5', rate, part, rng)
    h.prove(ds.get_range() is rng, 'get_range'); h.prove(ds.frate is rate and ds.part is part, 'rate and particle')
    h.prove(ds.get_particles_path() == 'part.h5', 'path')
    return S, T, p, t, rng, ds
def limits(h, p, t, rng):
    """first and last frame the two scenes are both limited to"""
    a, b = ends(h, p, rng), ends(h, t, rng)
    return a, b
def ranges_are(h, ds, a, b, what):
    for sc, e in ((ds.get_particles(), a), (ds.get_tracers(), b)):
        f, l = sc.frame_range()
        h.prove((f == e[0]) & (l == e[1]), what)
def minlen(a, b): return select(a <= b, a, b)
def run(h, ds, p, t, a, b, segs, arg, T, tag):
    it = (ds.iter_segments if segs else ds.iter_frames)(*arg)
    lst = SList(); lst.extend(it)
    n = lst.vc_len()
    d = 1 if segs else 0
    num = lambda e: select(e[1] - e[0] > d, e[1] - e[0] - d, 0)
    h.prove(n == minlen(num(a), num(b)), tag + 'one for each frame')
    with h.forall(n, 'k') as k:
        x = lst.get(ie(k))
        tm = a[0] + k
        if not segs:
            frame_is(h, x.particles, p, tm, tag + 'particle frame', T); frame_is(h, x.tracers, t, tm, tag + 'tracer frame', T)
        else:
            f, g = x
            for hdf, who in ((p, 'particles'), (t, 'tracers')):
                c19.snap_is(h, getattr(f, who), c19.in_both(h, hdf, tm, tm + 1), tm, tag + who + ' frame', T, hdf)
                c19.snap_is(h, getattr(g, who), c19.in_both(h, hdf, tm + 1, tm), tm + 1, tag + who + ' next frame', T, hdf)
def case(kind, segs):
    def f(h):
        S, T, p, t, rng, ds = make(h, kind)
        a, b = limits(h, p, t, rng)
        h.assume(a[0] == b[0]); h.assume(a[1] == b[1])
        run(h, ds, p, t, a, b, segs, (), T, '')
        ranges_are(h, ds, a, b, 'range after iterating the default range')
    f.__doc__ = 'the range of the dual scene, given by ' + kind
    return f
def given(kind, segs):
    def f(h):
        S, T, p, t, rng, ds = make(h, kind)
        a, b = limits(h, p, t, rng)
        g = (h.int('g0'), h.int('g1'))
        run(h, ds, p, t, g, g, segs, (g,), T, 'given range: ')
        ranges_are(h, ds, a, b, 'the range is restored after the iteration')
    f.__doc__ = 'a range given to the iteration; the range of the dual scene given by ' + kind
    return f
def abandoned(kind, segs):
    def f(h):
        S, T, p, t, rng, ds = make(h, kind)
        a, b = limits(h, p, t, rng)
        g = (h.int('g0'), h.int('g1'))
        it = (ds.iter_segments if segs else ds.iter_frames)(g)
        stop = h.int('stop', 0)
        h.r.notes['abandon'] = lambda out: out is it.lst and bool(SBool(zb(tobool(h.r.notes['tail_time'](out) == stop))))
        def tail_time(out):
            x = out.tail[-1]
            x = x[0] if segs else x
            return x.particles.time() - g[0]
        h.r.notes['tail_time'] = tail_time
        try: it.force()
        except GeneratorExit: pass
        h.r.notes['abandon'] = None
        ranges_are(h, ds, a, b, 'the range is restored after abandoning the iteration')
    f.__doc__ = 'iteration of a given range, abandoned at any frame; the range of the dual scene given by ' + kind
    return f
for segs in (False, True):
    w = 'segments' if segs else 'frames'
    harness('C21', FNS + USED, w + '_both')(case('both', segs))
    harness('C21', FNS + USED, w + '_none')(case('none', segs))
    harness('C21', FNS + USED, w + '_given')(given('first', segs))
    harness('C21', FNS + USED, w + '_given_none')(given('none', segs))
    harness('C21', FNS + USED, w + '_abandoned')(abandoned('both', segs))
    harness('C21', FNS + USED, w + '_abandoned_none')(abandoned('none', segs))
