from lib import *
G = IN + '.GeneralInterpolant.'; W = IN + '.InverseDistanceWeighter.'
FNS = [W + x for x in ('eulerian_jacobian', 'weights', 'set_interp_points', '_forego_laziness', '_meth_interp', '_apply_weights')] + [
    G + x for x in ('set_scene', 'set_field_positions', 'set_interp_points', 'set_data_on_current_field', '_ensure_matched_data', '_forego_laziness', 'current_relative_positions', 'interpolate')]
ASSUMPTIONS = ['calculus: d(x**a)/dx = a*x**(a-1), the quotient rule and the chain rule; laws of powers']
def case(comp, rad, given=False, par='any', dim='any'):
    def f(h):
        s = Interp(h, comp, rad)
        p = {'any': h.real('power', 0), 'int': 2}[par]
        it = h.mod(IN).interpolant('inv', s.K, s.radius, p)
        d = {'any': h.dim('ncomp', 1), '3': 3}[dim]
        data = fro(h.array('data', (s.n, d)))
        it.set_scene(s.tp, s.ip, data, s.cp)
        act, ds = it.current_active_neighbs(), it.current_dists()
        jac = it.eulerian_jacobian(it.interpolate()) if given else it.eulerian_jacobian()
        h.prove(len(jac.dims) == 3 and (jac.shape[0] == s.m) & (jac.shape[1] == d) & (jac.shape[2] == 3), 'a matrix for each point')
        n = s.n
        here = lambda i, q: act.at(i, q) < n
        tr = lambda i, q: select(here(i, q), act.at(i, q), 0)
        rel = lambda i, q, e: s.tp.at(tr(i, q), e) - s.ip.at(i, e)
        dat = lambda i, q, c: data.at(tr(i, q), c)
        with h.forall(s.m, 'i') as i:
            with h.forall(s.K, 'q') as q:
                with h.given(here(i, q)):
                    h.prove(ds.at(i, q) > 0, 'distances of neighbours are positive')
                    h.prove(ds.at(i, q) == npm.sqrt_(sum(rel(i, q, e)*rel(i, q, e) for e in range(3))), 'which are those from the point')
        # the weight r**-p has the derivative -p*r**(-p-1)*dr, and the distance r = sqrt(sum(rel**2)) dr = -rel/r
        w = lambda i, q: select(here(i, q), ds.at(i, q)**-p, 0.)
        dw = lambda i, q, e: select(here(i, q), p*ds.at(i, q)**(-p - 2)*rel(i, q, e), 0.)
        with h.forall(s.m, 'i') as i:
            with h.forall(s.K, 'q') as q:
                with h.forall(3, 'e') as e:
                    with h.given(here(i, q)):
                        r = ds.at(i, q)
                        h.prove((-p*r**(-p - 1))*(-(rel(i, q, e)/r)) == dw(i, q, e), 'derivative of a weight')
        S = total(s, w).at; N = total(s, lambda i, q, c: w(i, q)*dat(i, q, c), d).at
        dS = total(s, lambda i, q, e: dw(i, q, e), 3).at
        dN = total(s, lambda i, q, c, e: dw(i, q, e)*dat(i, q, c), d, 3).at
        with h.forall(s.m, 'i') as i:
            q0 = h.int('q0', 0); h.assume((q0 < s.K) & here(i, q0))      # it has a neighbour
            h.prove(w(i, q0) > 0, 'a positive weight')
            h.prove(S(i) > 0, 'sum of weights')
            with h.forall(d, 'c') as c:
                for e in range(3):
                    h.prove(jac.at(i, c, e) == (dN(i, c, e)*S(i) - N(i, c)*dS(i, e))/(S(i)*S(i)), 'the derivative of the weighted mean along an axis')
    f.__doc__ = '%s companions, %s radius, power %s%s' % ('with' if comp else 'no', 'with' if rad else 'no', par, ', interpolation given' if given else '')
    return f
for comp, rad, tag, doc in cases(): harness('C28', FNS, 'jacobian' + tag)(case(comp, rad))
harness('C28', FNS, 'given')(case(True, True, True))
harness('C28', FNS, 'power_int')(case(False, False, False, 'int'))
harness('C28', FNS, 'velocity')(case(True, True, False, 'any', '3'))
