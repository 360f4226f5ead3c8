from lib import *
G = IN + '.GeneralInterpolant.'
FNS = [G + x for x in ('__init__', 'set_scene', 'set_field_positions', 'set_interp_points', 'set_data_on_current_field', '_select_neighbs', '_forego_laziness', 'current_dists', 'current_active_neighbs', 'current_relative_positions')]
def case(method, comp, rad):
    def f(h):
        s = Interp(h, comp, rad); n, m, tp, ip, cp, K, radius = s.n, s.m, s.tp, s.ip, s.cp, s.K, s.radius
        it = h.mod(IN).interpolant(method, K, radius)
        it.set_scene(tp, ip, None, cp)
        act = it.current_active_neighbs(); ds = it.current_dists(); rel = it.current_relative_positions()
        h.prove((act.shape[0] == m) & (act.shape[1] == K) & (ds.shape[0] == m) & (ds.shape[1] == K) & (rel.shape[0] == m) & (rel.shape[1] == K) & (rel.shape[2] == 3), 'a neighbour, distance and relative position for each point and rank')
        miss = lambda i, q: (act.at(i, q) == n)
        with h.forall(m, 'i') as i:
            for t, k2, ub, fs, fr, sc in h.r.notes.get('kd', []): h.hint(fs[0](*[ip.at(i, c).e for c in range(3)]))
            with h.forall(K, 'q') as q:
                a = act.at(i, q)
                h.prove((a >= 0) & (a <= n), 'an index of a tracer, or the number of tracers')
                with h.given(miss(i, q)): h.prove(npm.isinf_(ds.at(i, q)), 'missing neighbours are at an infinite distance')
                with h.given(lnot(miss(i, q))):
                    h.prove(s.eligible(i, a), 'neighbours are eligible')
                    h.prove(lnot(npm.isinf_(ds.at(i, q))), 'neighbours have a distance')
                    h.prove(ds.at(i, q) == s.dist(i, a), 'distance of the neighbour')
                    for c in range(3): h.prove(rel.at(i, q, c) == tp.at(a, c) - ip.at(i, c), 'relative position of the neighbour')
                with h.forall(K, 'p', q + 1) as p:
                    with h.given(lnot(miss(i, p))):
                        h.prove(lnot(miss(i, q)), 'missing neighbours are last')
                        h.prove(ds.at(i, q) <= ds.at(i, p), 'in order of distance')
                        h.prove(act.at(i, q) != act.at(i, p), 'different neighbours')
            with h.forall(n, 'l') as l:
                h.assume(s.eligible(i, l))
                notin = lambda q: act.at(i, q) != l
                h.assume(h.all(K, notin, 'q'))
                for t, k2, ub, fs, fr, sc in h.r.notes.get('kd', []):
                    rk = fs[3](*[ip.at(i, c).e for c in range(3)], ie(l))
                    for d in range(3): h.assume(zimp(zand(rk >= d, rk - d < ie(K)), tobool(notin(SInt(rk - d)))))
                h.prove(lnot(miss(i, K - 1)), 'an eligible tracer is left out only if there are as many neighbours as asked for')
                h.prove(ds.at(i, K - 1) <= s.dist(i, l), 'no eligible tracer that is left out is nearer')
    f.__doc__ = '%s, %s companions, %s radius' % (method, 'with' if comp else 'no', 'with' if rad else 'no')
    return f
for method in ('inv', 'rbf'):
    for comp in (False, True):
        for rad in (False, True): harness('C26', FNS, '%s%s%s' % (method, '_companions' if comp else '', '_radius' if rad else ''))(case(method, comp, rad))
