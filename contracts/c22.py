from lib import *
AN = 'flowtracks.analysis'
FNS = [AN + '.analysis']
PROPS = [('accel', (3,)), ('companion', ())]
class Frames:
    "what iter_segments of a dual scene gives (contract proved in c21.py): any number of segments"
    def __init__(s, h, T):
        r = h.r
        s.h, s.T = h, T
        s.nseg = h.dim('nseg'); s.np = r.func('np', I, I)
        k = r.bound('k'); r.assume(FA(k, s.np(k) >= 0, [s.np(k)]))
        s.id = r.func('id', I, I, I); s.id2 = r.func('id_next', I, I, I); s.time = r.func('ftime', I, I)
        s.pos = r.func('fpos', I, I, I, R); s.vel = r.func('fvel', I, I, I, R)
        s.asked = []
    def snap(s, k, nxt):
        n = arr.dimsimp(s.np(k))
        sh = 1 if nxt else 0
        p = s.T.ParticleSnapshot(fro(farr(lambda k, *x: s.pos(k + sh, *x), (n, 3), 'f', (k,))), fro(farr(lambda k, *x: s.vel(k + sh, *x), (n, 3), 'f', (k,))),
            mkint(s.time(k) + sh), fro(farr(s.id2 if nxt else s.id, (n,), 'i', (k,))))
        return p
    def scene(s):
        class Fr: vc_static = True
        class Scene:
            vc_static = True
            def get_particles_path(_): return 'particles.h5'
            def iter_segments(_, rng=-1):
                s.asked.append(rng)
                def get(k):
                    a, b = Fr(), Fr()
                    a.k, b.k = mkint(lift(k)), mkint(lift(k) + 1)
                    a.particles, b.particles = s.snap(lift(k), False), s.snap(lift(k), True)
                    return a, b
                return SList.of(ie(s.nseg), get)
        return Scene()
class An:
    "an analyser: any values, of its frame and the next"
    vc_static = True
    def __init__(s, h, fr, name, fields):
        s.fields, s.fr = fields, fr
        s.fs = [(nm, d, h.r.func('%s_%s' % (name, nm), I, I, *([I]*(1 + len(sh)) + [R if d is float else I])), sh) for nm, d, sh in fields]
    def descr(s): return SList([(nm, d) + ((sh[0],) if sh else ()) for nm, d, sh in s.fields])
    def analyse(s, frame, nxt):
        k, k2 = lift(ie(frame.k)), lift(ie(nxt.k))
        n = arr.dimsimp(s.fr.np(k))
        return SList([farr(f, (n,) + sh, 'f' if d is float else 'i', (k, k2)) for nm, d, f, sh in s.fs])
def case(descrs, rng):
    def f(h):
        T, A = h.mod(TR), h.mod(AN)
        fr = Frames(h, T)
        tb = tabm.Tables({}); models.EXTRA['tables'] = tb
        ans = [An(h, fr, 'an%d' % q, d) for q, d in enumerate(descrs)]
        g = {'default': -1, 'given': (h.int('g0'), h.int('g1'))}[rng]
        sc = fr.scene()
        conf = 'an.cfg'
        if rng == 'default': A.analysis(sc, 'out.h5', conf, SList(ans))
        else: A.analysis(sc, 'out.h5', conf, SList(ans), g)
        h.prove(len(fr.asked) == 1 and (fr.asked[0] is g or fr.asked[0] == g), 'the segments of the given range')
        files = tb.files
        h.prove('out.h5' in files and files['written out.h5'].closed == 1, 'the file is written and closed')
        h.prove(list(files['out.h5']) == ['/analysis'], 'the analysis table')
        t = files['out.h5']['/analysis']
        want = [('trajid', int, ()), ('time', int, ())] + [x for d in descrs for x in d]
        h.prove(sorted(t.dt.fields) == sorted(x[0] for x in want), 'exactly the described columns')
        for nm, d, sh in want: h.prove(t.dt.fields[nm][0] == dtype(d, sh), 'column type: ' + nm)
        h.prove(t._v_attrs._d == {'config': conf, 'trajects': 'particles.h5'}, 'the configuration and the trajectories file are recorded')
        n = t.chunks.vc_len()
        if not isz(ie(n)) and ie(n) == 1: raise Unsupported('rows not written segment by segment')
        seg = chunk_of(h, n, fr.nseg, lambda k: SBool(fr.np(lift(k)) > 0), 'the rows of each segment are written once')
        with h.forall(n, 'k') as k:
            c = t.chunks.get(ie(k)); kk = seg(lift(ie(k)))
            h.prove(c.shape[0] == SInt(fr.np(kk)), 'one row for each particle')
            with h.forall(c.shape[0], 'j') as j:
                jj = lift(ie(j))
                h.prove(c.cols['trajid'].at(j) == SInt(fr.id(kk, jj)), 'trajectory id of the particle')
                h.prove(c.cols['time'].at(j) == SInt(fr.time(kk)), 'time of the frame')
                for a in ans:
                    for nm, d, fn, sh in a.fs:
                        v = c.cols[nm]
                        for q in (range(sh[0]) if sh else [None]):
                            ix = (jj,) if q is None else (jj, z3.IntVal(q))
                            h.prove(v.at(*ix) == wrap(fn(kk, kk + 1, *ix)), 'the value the analyser returned')
    f.__doc__ = 'any segments; %d analyser(s) with %s outputs; %s range' % (len(descrs), [len(d) for d in descrs], rng)
    return f
D1 = [('fluid_vel', float, (3,)), ('rel_vel', float, (3,))]
D2 = [('count', int, ()), ('grad', float, (2,))]
harness('C22', FNS, 'no_analyser')(case([], 'default'))
harness('C22', FNS, 'one_analyser')(case([D1], 'given'))
harness('C22', FNS, 'two_analysers')(case([D1, D2], 'default'))
harness('C22', FNS, 'three_analysers')(case([D2, [], D1], 'given'))
