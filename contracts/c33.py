from lib import *
import sums
SG = 'flowtracks.smoothing'
ASSUMPTIONS = ['numpy.linalg.pinv: its product with the values in the window gives the coefficients of the least-squares polynomial (for the design matrix, which is proved to be that of the powers of the offsets in the window); a polynomial of at most the order is its own least-squares fit']
EXTRA = [('accel', (3,)), ('extra', ())]
def fits(h, extra):
    def f(h):
        S = h.mod(SG)
        n = h.dim('ntrajs'); hw = h.int('half', 1); w = 2*hw + 1
        order = h.int('order', 0); h.assume(order + 2 <= w)
        fps = h.real('fps', 0)
        tr = Trajs(h, n, extra=extra, times='any')
        lst = tr.list()
        out = S.savitzky_golay(lst, fps, w, order)
        pv = h.r.notes.get('pinv', [])
        h.prove(len(pv) == 1, 'one least-squares problem')
        b, M = pv[0]
        h.prove((b.shape[0] == w) & (b.shape[1] == order + 1), 'a row for each point of the window, a column for each power')
        with h.forall(w, 'k') as k:
            with h.forall(order + 1, 'i') as i: h.prove(b.at(k, i) == (k - hw)**i, 'powers of the offsets from the middle point')
        long = lambda k: mkbool(lift(tr.L(lift(ie(k)))) >= ie(w))
        m = out.vc_len()
        own = chunk_of(h, m, n, long, 'a trajectory for each as long as the window')
        with h.forall(m, 'item') as q:
            o = own(ie(q)); L = mkint(tr.L(o)); t = out.get(ie(q))
            h.prove(mkint(o) < n, 'made of a trajectory'); h.prove(long(o), 'only those as long as the window')
            d = t.as_dict()
            names = {'pos', 'velocity', 'time', 'accel', 'vel_pp', 'acc_pp'} | {e for e, sh in extra}
            h.prove(set(d) == names, 'the properties')
            h.prove(t.trajid() == mkint(tr.tid(o)), 'the id')
            for p in ('pos', 'velocity', 'accel', 'vel_pp', 'acc_pp'): h.prove((len(d[p].dims) == 2) and (d[p].shape[0] == L) & (d[p].shape[1] == 3), 'one %s for each point' % p)
            h.prove(len(d['time'].dims) == 1 and d['time'].shape[0] == L, 'one time for each point')
            with h.forall(L, 'i') as i:
                h.prove(d['time'].at(i) == mkint(tr.time(o, ie(i))), 'the time')
                for e, (g, sh) in tr.extra.items():
                    if e in ('pos', 'velocity', 'accel', 'vel_pp', 'acc_pp'): continue
                    h.prove((d[e].shape[0] == L), 'other properties: as many values')
                    if sh == (): h.prove(d[e].at(i) == wrap(g(o, ie(i))), 'other properties are copied')
                    else:
                        for c in range(3): h.prove(d[e].at(i, c) == wrap(g(o, ie(i), z3.IntVal(c))), 'other properties are copied')
            # the coefficient of each power: 0 above the order
            co = lambda p, j: select(order >= p, M.at(select(order >= p, p, 0), j), 0.)
            for c in range(3):
                fit = lambda p, i: SArr((ie(L), ie(w)), lambda i, j: co(p, SInt(lift(j)))*mkreal(tr.pos(o, lift(i) - ie(hw) + lift(j), z3.IntVal(c))), 'float64').sum(axis=1).at(ie(i))
                def same(a, b, what):
                    sums.congruent(h.r, a, b); h.prove(a == b, what)
                with h.forall(L - hw, 'i', hw) as i:
                    same(d['pos'].at(i, c), fit(0, i), 'position: the value of the fit')
                    same(d['velocity'].at(i, c), fit(1, i)*fps, 'velocity: its first derivative')
                    same(d['accel'].at(i, c), fit(2, i)*2*fps*fps, 'acceleration: its second derivative')
                    with h.given(i + 1 < L):
                        v, a, jk = fit(1, i)*fps, fit(2, i)*2*fps*fps, fit(3, i)*6*fps*fps*fps
                        same(d['vel_pp'].at(i + 1, c), v + a/fps + jk/2/fps/fps, 'vel_pp: the fit of the preceding point, extrapolated')
                        same(d['acc_pp'].at(i + 1, c), a + jk/fps, 'acc_pp: the fit of the preceding point, extrapolated')
        with h.forall(n, 'k') as k:
            t = lst.get(ie(k)); d = t.as_dict()
            with h.forall(mkint(tr.L(ie(k))), 'i') as i:
                for c in range(3): h.prove((d['pos'].at(i, c) == mkreal(tr.pos(ie(k), ie(i), z3.IntVal(c)))) & (d['velocity'].at(i, c) == mkreal(tr.vel(ie(k), ie(i), z3.IntVal(c)))), 'the original is not changed')
    return f
for nm, ex in (('plain', ()), ('more_properties', EXTRA), ('again', [('accel', (3,)), ('vel_pp', (3,)), ('acc_pp', (3,))])):
    f = fits(None, ex); f.__doc__ = 'any list of trajectories, odd window, order and frame rate; properties: ' + (', '.join(e for e, sh in ex) or 'the least')
    harness('C33', SG + '.savitzky_golay', nm)(f)
