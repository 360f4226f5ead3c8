from lib import *
G = IN + '.GeneralInterpolant.'; W = IN + '.InverseDistanceWeighter.'
FNS = [G + x for x in ('__init__', 'set_scene', '_drop_neighbours_cache', 'set_field_positions', 'field_positions', 'set_interp_points', 'set_data_on_current_field', 'trim_points', '_select_neighbs', '_forego_laziness',
    'current_relative_positions', 'current_dists', 'current_active_neighbs', 'current_data', '_ensure_matched_data', 'interpolate', '_meth_interp', '__call__', 'eulerian_jacobian', 'neighb_dists')]
FNW = [W + x for x in ('__init__', 'weights', 'set_scene', 'set_interp_points', '_forego_laziness', 'trim_points', '_apply_weights', '__call__', '_meth_interp', 'eulerian_jacobian')]
"""An interpolant's state is compared, attribute by attribute, to that of a new interpolant
which was given the same scene and has calculated everything (the canonical state). Each
attribute is either None, or canonical, or something else, of which nothing is assumed. All
states of this kind which operations lead to are found, beginning with a new interpolant,
and for each the results are those of a new interpolant: an induction over the history."""
NAMES = ('T', 'P', 'C', 'D')
class State:
    "the scene: an array, None (no companions) or missing (not set)"
    def __init__(s, h, tag, n=None, m=None, comp=True, d=None):
        s.n, s.m, s.d = h.dim('n' + tag, 1) if n is None else n, h.dim('m' + tag) if m is None else m, h.dim('d' + tag, 1) if d is None else d
        s.T, s.P = fro(h.array('T' + tag, (s.n, 3)), h.array('P' + tag, (s.m, 3)))
        s.C = fro(h.array('C' + tag, (s.m,), 'i', rng=(-1, s.n))) if comp else None
        s.D = fro(h.array('D' + tag, (s.n, s.d)))
        s.has = set(NAMES)
    def but(s, **k):
        o = State.__new__(State); o.__dict__.update(s.__dict__); o.has = set(s.has)
        for a, v in k.items():
            setattr(o, a, v)
            if a in NAMES: o.has.add(a)
        return o
    def without(s, *a):
        o = s.but(); o.has -= set(a)
        return o
    def key(s): return tuple(sorted(s.has)) + (s.C is None,)
def small(h, s): h.r.assume(arr.zcmp('>=', ie(s.n), 1)); distinct(h, s.T, s.n)
def build(new, s, full=True):
    "a new interpolant given the scene, everything calculated"
    it = new()
    if 'P' in s.has:
        if 'D' in s.has: it.set_scene(s.T, s.P, s.D, s.C)
        else: it.set_scene(s.T, s.P, None, s.C)
        if full:
            it.current_dists()
            if 'D' in s.has: it.interpolate(); it.eulerian_jacobian()
    else:
        it.set_field_positions(s.T)
        if 'D' in s.has: it.set_data_on_current_field(s.D)
    return it
def same(r, a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, scipym.KD): return isinstance(b, scipym.KD) and scipym.samearr(r, a.data, b.data)
    if arr.isarr(a): return arr.isarr(b) and scipym.samearr(r, asarr(a), asarr(b))
    if isinstance(a, (str, tuple, list, dict)) or isinstance(b, (str, tuple, list, dict)): return a == b if type(a) == type(b) and isinstance(a, str) else False
    try: e = tobool(a == b)
    except Exception: return False
    return e is True or (isz(e) and r.engine.quick(r, zb(e)))
def shape(r, got, canon, base):
    out = []
    for k in sorted(set(got) | set(canon)):
        if k in base and k in got and same(r, got[k], base[k]): continue          # as the constructor left it
        if k not in got: out.append((k, 'absent'))
        elif k in canon and same(r, got[k], canon[k]): out.append((k, 'canonical'))
        elif got[k] is None: out.append((k, 'none'))
        elif type(got[k]) in (bool, int, str): out.append((k, 'is', got[k]))
        else: out.append((k, 'other %d' % len(asarr(got[k]).dims) if arr.isarr(got[k]) else 'other'))
    return tuple(out)
class Junk:
    "a value of which nothing is known"
    vc_static = True
def junk(h, kind):
    if kind == 'other': return Junk()
    nd = int(kind.split()[1])
    return h.array('old', tuple(h.dim('old') for _ in range(nd)))
def restore(h, new, sh, canon):
    it = new()
    for k, kind, *v in sh:
        if kind == 'is': it.__dict__[k] = v[0]
        elif kind == 'absent': it.__dict__.pop(k, None)
        elif kind == 'none': it.__dict__[k] = None
        elif kind == 'canonical': v = canon[k]; it.__dict__[k] = v.copy() if arr.isarr(v) else v
        else: it.__dict__[k] = junk(h, kind)
    return it
def equal(h, a, b, what):
    a, b = asarr(a), asarr(b)
    h.prove(len(a.dims) == len(b.dims), what + ': dimensions')
    for x, y in zip(a.shape, b.shape): h.prove(x == y, what + ': shape')
    def at(ix, dims):
        if not dims: h.prove(a.at(*ix) == b.at(*ix), what); return
        with h.forall(pdim(dims[0]), 'x') as i: at(ix + [i], dims[1:])
    at([], b.dims)
RESULTS = ['interpolate', 'subset', 'jacobian', 'dists', 'neighbs', 'relative', 'data', 'positions', 'call', 'call bare']
def needs(o): return {'interpolate': 'TPD', 'subset': 'TPD', 'jacobian': 'TPD', 'dists': 'TP', 'neighbs': 'TP', 'relative': 'TP', 'data': 'D', 'positions': 'T', 'call': '', 'call bare': ''}[o]
def result(o, it, s, off, use):
    "the result of one operation which does not change the scene"
    if o == 'interpolate': return it.interpolate()
    if o == 'subset':
        a = it.current_active_neighbs()
        return it.interpolate(npm.where(use, a, s.n))
    if o == 'jacobian': return it.eulerian_jacobian()
    if o == 'dists': return it.current_dists()
    if o == 'neighbs': return it.current_active_neighbs()
    if o == 'relative': it.current_dists(); return it.current_relative_positions()
    if o == 'data': return it.current_data()
    if o == 'positions': return it.field_positions()
    if o == 'call': return it(off.T, off.P, off.D, off.C)
    if o == 'call bare': return it(off.T, off.P, off.D)
def changes(h, s):
    "operations which change the scene: name, operation, the scene after it"
    out = []
    for comp in (False, True):
        b = State(h, 'new', comp=comp); c = ', companions' if comp else ''
        out.append(('set_scene' + c, b, lambda it, b=b: it.set_scene(b.T, b.P, b.D, b.C), b))
        if 'D' in s.has:
            b1 = State(h, 'same', n=s.n, comp=comp, d=s.d)
            out.append(('set_scene, no data' + c, b1, lambda it, b=b1: it.set_scene(b.T, b.P, None, b.C), b1.but(D=s.D)))
        b2 = State(h, 'points', n=s.n, comp=comp)
        out.append(('set_interp_points' + c, b2, lambda it, b=b2: it.set_interp_points(b.P, b.C), s.but(P=b2.P, C=b2.C, m=b2.m)))
    b = State(h, 'other', m=s.m)
    out.append(('set_field_positions', b, lambda it, b=b: it.set_field_positions(b.T), s.but(T=b.T, n=b.n).without('D', *(['P', 'C'] if s.C is not None else []))))
    b = State(h, 'moved', n=s.n, m=s.m)
    out.append(('set_field_positions, same number', b, lambda it, b=b: it.set_field_positions(b.T), s.but(T=b.T)))
    b = State(h, 'data', n=s.n, m=s.m)
    out.append(('set_data', None, lambda it, b=b: it.set_data_on_current_field(b.D), s.but(D=b.D, d=b.d)))
    if 'P' in s.has:
        w = fro(h.array('trim', (s.m,), 'b'))
        P = s.P[~w]
        out.append(('trim_points', None, lambda it: it.trim_points(w), s.but(P=P, C=None if s.C is None else s.C[~w], m=P.shape[0])))
    return out
def history(method, rad):
    def f(h):
        r = h.r
        models.EXTRA['scipy'] = scipym.SCIPY; stub_select_neighbs(h)
        K = h.int('num', 1); radius = h.real('radius', 0) if rad else None
        par = h.real('par', 0)
        if method != 'inv': numeric_stubs(h)
        new = lambda: h.mod(IN).interpolant(method, K, radius, par)
        base = dict(new().__dict__)
        trace = os.environ.get('VC_TRACE')
        off = State(h, 'off'); small(h, off)
        seen = []
        def reach(got, s, how):
            "the kind of a state"
            canon = build(new, s).__dict__
            return (s.key(), shape(r, got, canon, base)), how
        def firsts():
            out = []
            for comp in (False, True):
                with h.given():
                    b = State(h, 'first', comp=comp); small(h, b)
                    it = new(); it.set_scene(b.T, b.P, b.D, b.C); out.append(reach(it.__dict__, b, 'first'))
                    it = new(); it.set_scene(b.T, b.P, None, b.C); out.append(reach(it.__dict__, b.without('D'), 'first, no data'))
            with h.given():
                b = State(h, 'first'); small(h, b)
                it = new(); it.set_field_positions(b.T); out.append(reach(it.__dict__, b.without('P', 'C', 'D'), 'first, positions'))
            return out
        def job(k, part):
            (has, sh) = k
            s = State(h, 'now', comp=not has[-1]); small(h, s)
            s = s.without(*[x for x in NAMES if x not in has])
            canon = dict(build(new, s).__dict__)
            use = fro(h.array('use', (s.m, K), 'b'))
            out = []
            if part < 2:
                for o in [o for o in RESULTS if all(x in s.has for x in needs(o))][part::2]:
                    with h.given():
                        if trace: print('   RESULT', o)
                        it = restore(h, new, sh, canon)
                        got = result(o, it, s, off, use)
                        want = result(o, build(new, s, False), s, off, use)
                        equal(h, got, want, o)
                        out.append(reach(it.__dict__, s, o))
            else:
                for name, assumed, op, after in changes(h, s)[part - 2::2]:
                    with h.given():
                        if assumed is not None: small(h, assumed)
                        if name == 'trim_points': h.assume(tobool(after.m >= 0))
                        if trace: print('   OP', name)
                        it = restore(h, new, sh, canon)
                        op(it)
                        out.append(reach(it.__dict__, after, name))
            return out
        jobs = [firsts]
        while jobs:
            found = []
            for l in h.parallel(jobs):
                for k, how in l:
                    if k not in seen:
                        seen.append(k); found.append(k)
                        if trace: print('STATE', how, k[0], [(a.split('__')[-1], b, *c) for a, b, *c in k[1] if b != 'canonical'])
            if len(seen) > 40: raise Unsupported('too many kinds of states')
            jobs = [lambda k=k, p=p: job(k, p) for k in found for p in range(4)]
        h.prove(len(seen) > 3, 'states')
    f.__doc__ = 'all histories, %s, %s radius' % (method, 'with' if rad else 'no')
    return f
for rad in (False, True): harness('C29', FNS + FNW, 'inv' + ('_radius' if rad else ''))(history('inv', rad))
