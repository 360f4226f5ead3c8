from lib import *
G = IN + '.GeneralInterpolant.'; W = IN + '.InverseDistanceWeighter.'
FNS = [G + x for x in ('set_scene', 'set_field_positions', 'set_interp_points', 'set_data_on_current_field', '_ensure_matched_data', 'interpolate')] + [
    W + x for x in ('__init__', 'weights', 'set_scene', 'set_interp_points', '_forego_laziness', '_apply_weights', '_meth_interp', '__call__')] + [IN + '.interpolant']
def mean(s, sel, act, ds, data, par):
    """the mean of the data of the neighbours, weighted by distance to the power -par; and the
    weights. A neighbour which is missing (or left out of the selection) has no weight."""
    n, d = s.n, data.dims[1]
    def w(i, q): return select(sel.at(i, q) == n, 0., ds.at(i, q)**-par)
    def val(i, q, c): return select(act.at(i, q) < n, data.at(select(act.at(i, q) < n, act.at(i, q), 0), c), 0.)
    tot = total(s, lambda i, q: w(i, q)); num = total(s, lambda i, q, c: w(i, q)*val(i, q, c), d)
    tot, num = tot.at, num.at
    return w, tot, val, num
def check(h, s, res, sel, act, ds, data, d, par, what):
    w, tot, val, num = mean(s, sel, act, ds, data, par)
    h.prove(len(res.dims) == 2 and (res.shape[0] == s.m) & (res.shape[1] == d), what + ': a value for each point and component')
    with h.forall(s.m, 'i') as i:
        with h.forall(d, 'c') as c:
            h.prove(res.at(i, c) == num(i, c)/tot(i), what + ': the weighted mean of the data of the neighbours')
    return w, tot, val, num
def setup(h, comp, rad, par):
    s = Interp(h, comp, rad)
    p = {'any': h.real('power', 0), 'default': None, 'int': 2}[par]
    it = h.mod(IN).interpolant('inv', s.K, s.radius, p)
    return s, it, p, 1 if p is None else p
def shaped(h, s, dim):
    "data, and how they look as one row for each tracer"
    if dim == 'flat':
        a = fro(h.array('data', (s.n,))); return a, a[:, None], 1
    if dim == 'one':
        d = h.dim('ncomp', 1); h.assume(s.n == 1); h.assume(d != 1)
        a = fro(h.array('data', (d,))); return a, a[None, :], d
    d = {'any': h.dim('ncomp', 1), '3': 3}[dim]
    a = fro(h.array('data', (s.n, d))); return a, a, d
def case(comp, rad, par='any', dim='any'):
    def f(h):
        s, it, p0, p = setup(h, comp, rad, par)
        data0, data, d = shaped(h, s, dim)
        it.set_scene(s.tp, s.ip, data0, s.cp)
        res = it.interpolate()
        act, ds = it.current_active_neighbs(), it.current_dists()
        w, tot, val, num = check(h, s, res, act, act, ds, data, d, p, 'recorded scene')
        # off the scene, by this and by a new object
        new = h.mod(IN).interpolant('inv', s.K, s.radius, p0)
        for o, what in ((it, 'called'), (new, 'a new object called')):
            off = o(s.tp, s.ip, data0, s.cp)
            check(h, s, off, act, act, ds, data, d, p, what)
        check(h, s, it.interpolate(), act, act, ds, data, d, p, 'recorded scene again')
    f.__doc__ = '%s companions, %s radius, power %s, data %s' % ('with' if comp else 'no', 'with' if rad else 'no', par, dim)
    return f
for comp, rad, tag, doc in cases(): harness('C27', FNS, 'inv' + tag)(case(comp, rad))
for par in ('default', 'int'): harness('C27', FNS, 'power_' + par)(case(False, False, par))
for dim in ('flat', 'one', '3'): harness('C27', FNS, 'data_' + dim)(case(True, False, 'any', dim))
@harness('C27', FNS)
def subset(h):
    "a subset of the recorded selection"
    s, it, p0, p = setup(h, True, True, 'any')
    data0, data, d = shaped(h, s, 'any')
    it.set_scene(s.tp, s.ip, data0, s.cp)
    act, ds = it.current_active_neighbs(), it.current_dists()
    use = fro(h.array('use', (s.m, s.K), 'b'))
    sub = npm.where(use, act, s.n)
    for what in ('before', 'after'):
        check(h, s, it.interpolate(sub), sub, sub, ds, data, d, p, 'subset, %s interpolating all' % what)
        check(h, s, it.interpolate(), act, act, ds, data, d, p, 'all')

@harness('C27', FNS, 'range')
def in_range(h):
    "the value is in the range of the data of the neighbours"
    s, it, p0, p = setup(h, True, True, 'any')
    data0, data, d = shaped(h, s, 'any')
    it.set_scene(s.tp, s.ip, data0, s.cp)
    res = it.interpolate()
    act, ds = it.current_active_neighbs(), it.current_dists()
    w, tot, val, num = check(h, s, res, act, act, ds, data, d, p, 'recorded scene')
    for bound, sg in ((h.array('lo', (s.m, d)), 1), (h.array('hi', (s.m, d)), -1)):
        off = lambda v, i, c: (v - bound.at(i, c))*sg
        i, q, c = [h.r.bound(x) for x in 'iqc']
        here = act.at(i, q) < s.n
        h.assume(FA([i, q, c], zimp(zand(arr.within(i, ie(s.m)), arr.within(q, ie(s.K)), arr.within(c, ie(d)), tobool(here)), tobool(off(data.at(select(here, act.at(i, q), 0), c), i, c) >= 0)), [(act.at(i, q).e, bound.at(i, c).e)]))
        with h.forall(s.m, 'i') as i:
            with h.forall(s.K, 'q') as q:
                h.prove(w(i, q) >= 0, 'weights are not negative')
                with h.forall(d, 'c') as c: h.prove(w(i, q)*off(val(i, q, c), i, c) >= 0, 'no term is out of the range')
        T = total(s, lambda i, q, c: w(i, q)*off(val(i, q, c), i, c), d)
        with h.forall(s.m, 'i') as i:
            h.assume(tot(i) > 0)    # there is a neighbour
            with h.forall(d, 'c') as c:
                h.prove(T.at(i, c) >= 0, 'sum of the terms')
                h.prove((num(i, c) - bound.at(i, c)*tot(i))*sg >= 0, 'sum of the terms, expanded')
                h.lemma('quotient', lambda v, x, t, l: zimp(zand((t > 0).e, (v*t == x).e, ((x - l*t)*sg >= 0).e), ((v - l)*sg >= 0).e), res.at(i, c), num(i, c), tot(i), bound.at(i, c))
                h.prove(res.at(i, c)*tot(i) == num(i, c), 'the weighted sum')
                h.prove(off(res.at(i, c), i, c) >= 0, 'the value is in the range of the data of the neighbours')
