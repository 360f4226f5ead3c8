from lib import *
IN = 'flowtracks.interpolation'
FN = IN + '.select_neighbs'
def dist(tp, ip, i, j):
    return npm.sqrt_(sum((tp.at(j, c) - ip.at(i, c))*(tp.at(j, c) - ip.at(i, c)) for c in range(3)))
def setup(h, comp):
    n, m = h.dim('ntracers', 1), h.dim('npoints')
    tp, ip = h.array('tracers', (n, 3)), h.array('points', (m, 3))
    cp = h.array('companion', (m,), 'i', rng=(None, n)) if comp else None
    fro(tp, ip)
    if comp: fro(cp)
    return n, m, tp, ip, cp
def elig(tp, ip, cp):
    "not in the same position, not the companion"
    def f(i, j):
        e = lnot((tp.at(j, 0) == ip.at(i, 0)) & (tp.at(j, 1) == ip.at(i, 1)) & (tp.at(j, 2) == ip.at(i, 2)))
        if cp is not None: e = e & lnot(cp.at(i) == j)
        return e
    return f
def dists_are(h, n, m, d, tp, ip, el):
    h.prove((d.shape[0] == m) & (d.shape[1] == n) if len(d.dims) == 2 else False, 'a distance for each point and tracer')
    with h.forall(m, 'i') as i:
        with h.forall(n, 'j') as j:
            v = d.at(i, j)
            h.prove(lnot(npm.isinf_(v)), 'finite distances')
            with h.given(el(i, j)): h.prove(v == dist(tp, ip, i, j), 'Euclidean distance')
            with h.given(lnot(el(i, j))): h.prove(v == 0, '0 for tracers that are not eligible')
def radius(comp):
    def f(h):
        n, m, tp, ip, cp = setup(h, comp); el = elig(tp, ip, cp)
        rad = h.real('radius', 0)
        K = [h.int('num', 0), None][0] if comp else None
        d, u = h.mod(IN).select_neighbs(tp, ip, rad, K, cp)
        dists_are(h, n, m, d, tp, ip, el)
        h.prove((u.shape[0] == m) & (u.shape[1] == n) & (u.dtype == dtype('bool')), 'a mark for each point and tracer')
        with h.forall(m, 'i') as i:
            with h.forall(n, 'j') as j:
                h.prove(tobool(u.at(i, j)) == zb(tobool(el(i, j) & (dist(tp, ip, i, j) < rad))), 'exactly the eligible tracers closer than the radius')
    f.__doc__ = 'a radius given; ' + ('companions and number of neighbours given' if comp else 'no companions')
    return f
def nearest(comp):
    def f(h):
        n, m, tp, ip, cp = setup(h, comp); el = elig(tp, ip, cp)
        K = h.int('num', 0)
        d, u = h.mod(IN).select_neighbs(tp, ip, None, K, cp)
        dists_are(h, n, m, d, tp, ip, el)
        h.prove((u.shape[0] == m) & (u.shape[1] == n), 'a mark for each point and tracer')
        ords = [p for p in h.r.perms if len(p.outd) == 1]
        if len(ords) != 1: raise Unsupported('the ordering of the distances')
        pm = ords[0]      # a permutation of the tracers for each point, as witness
        eff = select(K < n, K, n)
        with h.forall(m, 'i') as i:
            I0 = lift(ie(i))
            with h.forall(n, 'j') as j:
                J = lift(ie(j)); rk = pm.inv(I0, J); h.hint(rk, pm.p(I0, rk))
                D = lambda j: dist(tp, ip, i, j)
                uj = u.at(i, j)
                with h.given(uj):
                    h.prove(el(i, j), 'only eligible tracers')
                    h.prove(SBool(rk < lift(ie(eff))), 'no more than the number of neighbours: each is one of the first in an ordering')
                with h.forall(n, 'l') as l:
                    L = lift(ie(l)); h.hint(pm.inv(I0, L), pm.p(I0, pm.inv(I0, L)))
                    h.assume(el(i, l)); h.assume(lnot(u.at(i, l)))
                    with h.given(uj): h.prove(D(j) <= D(l), 'no eligible tracer that is left out is nearer')
                    with h.forall(eff, 'k') as k:
                        w = pm.p(I0, lift(ie(k)))
                        h.hint(w)
                        h.prove(u.at(i, SInt(w)), 'if an eligible tracer is left out there are as many as asked for')
    f.__doc__ = 'no radius; ' + ('with companions' if comp else 'no companions')
    return f
harness('C25', FN, 'radius')(radius(False))
harness('C25', FN, 'radius_companions')(radius(True))
harness('C25', FN, 'nearest')(nearest(False))
harness('C25', FN, 'nearest_companions')(nearest(True))
@harness('C25', FN)
def neither(h):
    "neither radius nor number: refused"
    n, m, tp, ip, cp = setup(h, False)
    try: h.mod(IN).select_neighbs(tp, ip)
    except ValueError: h.prove(True, 'ValueError'); return
    h.prove(False, 'ValueError')
