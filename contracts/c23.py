from lib import *
AN = 'flowtracks.analysis'
def index_spec(h, trids, comps, res, what=''):
    n, m = trids.shape[0], comps.shape[0]
    h.prove(res.shape[0] == m, what + 'one index for each companion')
    with h.forall(m, 'i') as i:
        r = res.at(i)
        h.prove((r < 0) | ((r < n) & (trids.at(r) == comps.at(i))), what + 'an index is that of the companion')
        with h.forall(n, 'j') as j:
            h.assume(trids.at(j) == comps.at(i))
            h.hint(ie(i), ie(j))
            fam_hints(h, [i], [j]); fam_hints(h, [j], [i])
            h.prove(r >= 0, what + 'a companion among the tracers is found')
@harness('C23', AN + '.companion_indices')
def companion_indices(h):
    "any tracer ids (at least one) and companion ids"
    A = h.mod(AN)
    n, m = h.dim('n', 1), h.dim('m')
    trids, comps = h.array('trids', (n,), 'i'), h.array('comps', (m,), 'i')
    t0, c0 = trids.copy(), comps.copy()
    res = A.companion_indices(trids, comps)
    index_spec(h, t0, c0, res)
    with h.forall(m, 'i') as i: h.prove(comps.at(i) == c0.at(i), 'the companions are not changed')
    with h.forall(n, 'i') as i: h.prove(trids.at(i) == t0.at(i), 'the ids are not changed')
class Interp:
    "any interpolant"
    vc_static = True
    def __init__(s, h): s.h = h; s.scene = None; s.calls = 0; s.f = h.r.func('interp', I, I, R)
    def set_scene(s, tracer_pos, interp_points, data=None, companionship=None):
        s.scene = (tracer_pos, interp_points, data, companionship); s.n = interp_points.dims[0]
    def interpolate(s, subset=None):
        s.calls += 1
        return farr(s.f, (s.n, 3))
def case(companions):
    def f(h):
        A, T = h.mod(AN), h.mod(TR)
        n, m = h.dim('ntracers', 1), h.dim('nparts')
        time = h.int('t')
        class Fr: vc_static = True
        fr, nx = Fr(), Fr()
        def snap(nm, n, **k): return T.ParticleSnapshot(fro(h.array(nm + '_pos', (n, 3))), fro(h.array(nm + '_vel', (n, 3))), time, fro(h.array(nm + '_id', (n,), 'i')), **k)
        fr.tracers, nx.tracers = snap('tr', n), snap('trn', n)
        kw = {'companion': fro(h.array('comp', (m,), 'i'))} if companions else {}
        fr.particles = snap('p', m, **kw); nx.particles = snap('pn', m, **({'companion': fro(h.array('compn', (m,), 'i'))} if companions else {}))
        it = Interp(h)
        an = A.FluidVelocitiesAnalyser(it)
        res = an.analyse(fr, nx)
        h.prove(it.scene is not None and it.calls >= 1, 'the interpolant is asked')
        tp, ip, data, comp = it.scene
        for got, want, w in ((tp, fr.tracers.pos(), 'tracer positions'), (ip, fr.particles.pos(), 'particle positions'), (data, fr.tracers.velocity(), 'tracer velocities')):
            h.prove(got.shape[0] == want.shape[0], w)
            with h.forall(want.shape[0], 'i') as i:
                for c in range(3): h.prove(got.at(i, c) == want.at(i, c), w)
        if companions: index_spec(h, fr.tracers.trajid(), fr.particles.companion(), comp, 'companions: ')
        else: h.prove(comp is None, 'no companions')
        d = an.descr()
        h.prove([tuple(x) for x in d] == [('fluid_vel', float, 3), ('rel_vel', float, 3)], 'the described values')
        fv, rv = res
        for a in (fv, rv): h.prove((a.shape[0] == m) & (a.shape[1] == 3), 'one row for each particle')
        with h.forall(m, 'i') as i:
            for c in range(3):
                v = wrap(it.f(lift(ie(i)), z3.IntVal(c)))
                h.prove(fv.at(i, c) == v, "the interpolant's value")
                h.prove(rv.at(i, c) == fr.particles.velocity().at(i, c) - v, 'the relative velocity')
    f.__doc__ = 'any frames, any interpolant, ' + ('particles with companions' if companions else 'no companions')
    return f
FNS = [AN + '.FluidVelocitiesAnalyser.analyse', AN + '.FluidVelocitiesAnalyser.descr', AN + '.companion_indices']
harness('C23', FNS, 'with_companions')(case(True))
harness('C23', FNS, 'without_companions')(case(False))
