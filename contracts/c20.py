from lib import *
S = SC + '.Scene.'
FNS = [S + 'collect', S + 'set_frame_range', S + '__init__', SC + '.gen_query_string']
FIELDS20 = [('trajid', 'i', ()), ('time', 'i', ()), ('pos', 'f', (3,)), ('velocity', 'f', (3,)), ('diam', 'f', ()), ('mass', 'f', ()), ('label', 'i', ())]
def rngs(h, spec):
    "a range specification for each name: (min, max, invert), any numbers"
    out = SDict()
    for f, kind, inv in spec:
        a = (h.int if kind == 'i' else h.real)('min_' + f); b = (h.int if kind == 'i' else h.real)('max_' + f)
        out[f] = (a, b, inv)
    return out
def wanted(hdf, rng, where):
    inr = hdf.intime(*(rng or (None, None)))
    def p(i):
        ok = inr(i)
        for f, (a, b, inv) in (where or {}).items():
            v = hdf.col(f).at(i)
            ok = ok & (((v < a) | (v >= b)) if inv else ((v >= a) & (v < b)))
        return ok
    return hdf.sel(p)
KEYS = [['pos'], ['diam'], ['trajid', 'pos', 'time'], ['velocity', 'label'], ['time']]
WHERES = [None, [('diam', 'r', False)], [('diam', 'r', True)], [('diam', 'r', False), ('mass', 'r', True), ('label', 'i', False)], [('label', 'r', True), ('time', 'i', False)], []]
def check(h, sc, hdf, rng, tag):
    for wh in WHERES:
        where = None if wh is None else rngs(h, wh)
        for keys in KEYS:
            got = sc.collect(SList(keys), where)
            h.prove(len(list(got)) == len(keys), tag + 'one array for each key')
            w = wanted(hdf, rng, where)
            for k, f in enumerate(keys):
                g = got[k]
                same_rows(h, lambda _: g, w, [f], tag + 'collect')
def case(kind):
    def f(h):
        hdf = HDF(h, 'f.h5', fields=FIELDS20); hdf_files(h, hdf)
        S = h.mod(SC)
        rng = frame_range(h, kind)
        sc = S.Scene('f.h5', rng)
        check(h, sc, hdf, rng, '')
        rng2 = (h.int('first2'), h.int('last2')) if rng is None else None
        sc.set_frame_range(rng2)
        check(h, sc, hdf, rng2, 'after set_frame_range: ')
    f.__doc__ = 'range given by: %s; selections by 0 to 3 conditions, plain and inverted, of any real or whole limits' % kind
    return f
for kind in RANGES: harness('C20', FNS, 'collect_range_' + kind)(case(kind))
