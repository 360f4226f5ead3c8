from lib import *
CLS = [TR + '.ParticleSet.__init__', TR + '.ParticleSet.create_property', TR + '.ParticleSet.has_property', TR + '.ParticleSet.schema', TR + '.ParticleSet.ext_schema',
    TR + '.ParticleSet.as_dict', TR + '.ParticleSet.__len__', TR + '.Trajectory.__init__', TR + '.Trajectory.trajid', TR + '.ParticleSnapshot.__init__', TR + '.ParticleSnapshot.time']
PROPS = [('pos', (3,), 'f'), ('velocity', (3,), 'f'), ('vec', (3,), 'd'), ('num', (), 'd'), ('mat', (2, 4), 'i')]
def make(h, kind, tag, late=('mat',)):
    T = h.mod(TR)
    n = h.dim('n' + tag)
    vals = {p: h.array(p + tag, (n,) + sh, k) for p, sh, k in PROPS}
    kw = {p: vals[p] for p, _, _ in PROPS if p not in ('pos', 'velocity') and p not in late}
    if kind == 'traj':
        vals['time'] = h.array('time' + tag, (n,), 'i'); other = h.int('id' + tag)
        o = T.Trajectory(vals['pos'], vals['velocity'], vals['time'], other, **kw)
    else:
        vals['trajid'] = h.array('ids' + tag, (n,), 'i'); other = h.int('time' + tag)
        o = T.ParticleSnapshot(vals['pos'], vals['velocity'], other, vals['trajid'], **kw)
    for p in late: o.create_property(p, vals[p])
    return o, n, vals, other
def content(h, o, vals, n, what):
    for p, v in vals.items():
        got = o.__dict__[p]()
        h.prove(got.dims == v.dims, 'shape of %s %s' % (p, what))
        qs = [h.r.const('at', I) for _ in v.dims]
        with h.given(*[mkbool(arr.within(q, d)) for q, d in zip(qs, v.dims)]):
            h.prove(same(got.at(*qs), v.at(*qs)), 'value of %s %s' % (p, what))
def same(a, b): return a == b
def kinds(h, f):
    for kind in ('traj', 'snap'): f(h, kind)
def reports(h, o, n, vals, other, kind):
    h.prove(o.vc_len() == n if hasattr(o, 'vc_len') else type(o).__len__(o) == n, 'len')
    for p in vals: h.prove(o.has_property(p) is True, 'has_property of a present property')
    for p in ('nothing', 'density', 'po', '', 'id', 'check_attr', 'set_pos', 'trajid_', 'schema'): h.prove(not o.has_property(p), 'has_property of an absent property')
    sch = o.schema()
    h.prove(sorted(sch) == sorted(vals), 'schema names exactly the properties present')
    for p, v in vals.items(): h.prove(sch[p] == v.dims[1:], 'schema item shape')
    ext = o.ext_schema()
    h.prove(sorted(ext) == sorted(vals), 'ext_schema names exactly the properties present')
    for p, v in vals.items():
        if len(v.dims) < 3: h.prove(ext[p][0] is v.dtype.type and ext[p][1] == (v.dims[1] if len(v.dims) == 2 else ()), 'ext_schema type and shape')
    d = o.as_dict()
    h.prove(sorted(d) == sorted(vals), 'as_dict names exactly the properties present')
    for p in vals: h.prove(d[p] is o.__dict__[p](), 'as_dict gives the current values')
    h.prove((o.trajid() if kind == 'traj' else o.time()) == other, 'scalar id/time')
@harness('C01', CLS)
def construction(h):
    "getters return what was given at construction and with create_property; schema, ext_schema, as_dict, len"
    def f(h, kind):
        o, n, vals, other = make(h, kind, kind)
        orig = {p: v.copy() for p, v in vals.items()}
        content(h, o, orig, n, 'after construction')
        reports(h, o, n, vals, other, kind)
    kinds(h, f)
def set_all(h, kind):
    o, n, vals, other = make(h, kind, kind)
    o2, n2, vals2, other2 = make(h, kind, kind + 'b')
    orig2 = {p: v.copy() for p, v in vals2.items()}
    for p in list(vals):
        new = h.array('new' + p, tuple(pdim(d) for d in vals[p].dims), vals[p].dtype.name)
        o.__dict__['set_' + p](new)
        h.prove(o.__dict__[p]() is new, 'the getter returns what the setter put')
        vals[p] = new.copy()
        content(h, o, vals, n, 'after setting ' + p)
    content(h, o2, orig2, n2, 'of another object, after setting')
    reports(h, o, n, {p: o.__dict__[p]() for p in vals}, other, kind)
@harness('C01', CLS)
def setters(h):
    "a setter replaces its property and no other, in no other object"
    kinds(h, set_all)
def selectors(h, n):
    a, b = h.int('a', 0), h.int('b', 0)
    mask = h.array('mask', (n,), 'b')
    m = h.dim('m'); idx = h.array('idx', (m,), 'i', rng=(0, n))
    one = h.int('one', 0)
    neg = -1 - h.int('neg', 0)
    h.assume(one < n); h.assume(neg >= -n)
    yield 'slice', slice(a, b), None
    yield 'mask', mask, None
    yield 'index array', idx, None
    yield 'integer', one, None
    yield 'negative integer', neg, None
def covers(h, name, sel, n, j):
    "is item j selected?"
    if name == 'slice': return (sel.start <= j) & (j < sel.stop)
    if name == 'mask': return sel.at(j)
    if name == 'index array': return SBool(h.ex(sel.shape[0], lambda k: sel.at(k) == j))
    if name == 'integer': return j == sel
    return j == sel + n
@harness('C01', CLS)
def get_selected(h):
    "a getter with a selector (slice, boolean mask, index array, integer) returns exactly the selected items, in the selector's order"
    o, n, vals, other = make(h, 'traj', '')
    for name, sel, _ in selectors(h, n):
        for p, v in vals.items():
            got = o.__dict__[p](sel)
            rest = [h.r.const('at', I) for _ in v.dims[1:]]
            with h.given(*[mkbool(arr.within(q, d)) for q, d in zip(rest, v.dims[1:])]):
                if name in ('integer', 'negative integer'):
                    at = sel if name == 'integer' else sel + n
                    h.prove(same(asarr(got).at(*rest), v.at(at, *rest)), 'the selected item')
                    continue
                m = got.shape[0]
                h.prove(mkbool(True) if got.dims[1:] == v.dims[1:] else mkbool(False), 'item shape')
                if name == 'slice':
                    stop = vals_min(sel.stop, n); cnt = select(stop > sel.start, stop - sel.start, 0)
                    h.prove(m == cnt, 'as many as selected')
                    with h.forall(m, 'k') as k: h.prove(same(got.at(k, *rest), v.at(sel.start + k, *rest)), 'the selected items in order')
                elif name == 'index array':
                    h.prove(m == sel.shape[0], 'as many as selected')
                    with h.forall(m, 'k') as k: h.prove(same(got.at(k, *rest), v.at(sel.at(k), *rest)), 'the selected items in order')
                else:
                    c = arr.comp_of(sel)
                    h.prove(m == mkint(c.cnt), 'as many as selected')
                    with h.forall(m, 'k') as k: h.prove(same(got.at(k, *rest), v.at(mkint(c.sel(k.e)), *rest)), 'the selected items in order')
def vals_min(a, b): return select(a <= b, a, b)
def set_sel(h, which):
    o, n, vals, other = make(h, 'traj', '')
    o2, n2, vals2, other2 = make(h, 'traj', 'b')
    orig2 = {p: v.copy() for p, v in vals2.items()}
    for name, sel, _ in selectors(h, n):
        if name != which: continue
        for p in ('vec', 'num', 'time', 'pos'):
            before = {q: o.__dict__[q]().copy() for q in vals}
            v = vals[p]
            if name in ('integer', 'negative integer'): new = h.array('nv', tuple(v.dims[1:]), v.dtype.name) if len(v.dims) > 1 else None
            elif name == 'slice':
                h.assume(sel.start <= sel.stop); h.assume(sel.stop <= n)
                new = h.array('nv', (sel.stop - sel.start,) + v.dims[1:], v.dtype.name)
            elif name == 'mask': new = h.array('nv', (mkint(arr.comp_of(sel).cnt),) + v.dims[1:], v.dtype.name)
            else: new = h.array('nv', (sel.shape[0],) + v.dims[1:], v.dtype.name)
            if new is None: new = wrap(h.r.const('nv', arr.sort_of(v.dtype.kind)))
            o.__dict__['set_' + p](new, sel)
            after = o.__dict__[p]()
            rest = [h.r.const('at', I) for _ in v.dims[1:]]
            with h.given(*[mkbool(arr.within(q, d)) for q, d in zip(rest, v.dims[1:])]):
                with h.forall(n, 'j') as j:
                    h.prove(sor(covers(h, name, sel, n, j), same(after.at(j, *rest), before[p].at(j, *rest))), 'items not selected keep their values')
                if name in ('integer', 'negative integer'):
                    at = sel if name == 'integer' else sel + n
                    h.prove(same(after.at(at, *rest), asarr(new).at(*rest)), 'the selected item gets its value')
                elif name == 'slice':
                    with h.forall(new.shape[0], 'k') as k: h.prove(same(after.at(sel.start + k, *rest), new.at(k, *rest)), 'selected items get their values')
                elif name == 'mask':
                    c = arr.comp_of(sel)
                    with h.forall(new.shape[0], 'k') as k: h.prove(same(after.at(mkint(c.sel(k.e)), *rest), new.at(k, *rest)), 'selected items get their values')
                else:
                    # index array without repetition
                    with h.forall(new.shape[0], 'k') as k:
                        h.assume(h.all(new.shape[0], lambda k2: sor(k2 == k, sel.at(k2) != sel.at(k))))
                        h.prove(same(after.at(sel.at(k), *rest), new.at(k, *rest)), 'selected items get their values')
            before.pop(p)
            content(h, o, before, n, 'after setting some of ' + p)
    content(h, o2, orig2, n2, 'of another object')
def sor(a, b): return mkbool(zor(tobool(a), tobool(b)))
for _w in ('slice', 'mask', 'index array', 'integer', 'negative integer'):
    def _f(h, w=_w): set_sel(h, w)
    _f.__doc__ = 'a setter with a selector (%s) changes exactly the selected items, of that property and object' % _w
    harness('C01', CLS, 'set_selected_' + _w.replace(' ', '_'))(_f)
