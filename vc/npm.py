"""The numpy namespace seen by the code under contract: contracts on numpy functions,
assumed (trusted), over symbolic arrays."""
import math, builtins
import z3
from core import *
from vals import *
import core, vals, arr, coll, sums
from arr import *

pi = math.pi; e = math.e; inf = float('inf'); nan = None; newaxis = None
ndarray = SArr
integer = floating = number = generic = object

def U(name):
    def f(*a, **k): raise Unsupported('numpy.' + name)
    return f

# ------------------------------------------------------------------ permutations
class Perm:
    "a permutation of 0..n-1 for each outer index"
    def __init__(s, n, outd=(), base='perm'):
        r = run(); nd = len(outd)
        s.n, s.outd = n, outd
        s.p = r.func(base, *([I]*(nd + 1) + [I])); s.inv = r.func('inv', *([I]*(nd + 1) + [I]))
        o = [r.bound('o') for _ in range(nd)]; k = r.bound('k')
        ino = zand(*[within(x, d) for x, d in zip(o, outd)])
        r.assume(FA(o + [k], zimp(zand(ino, within(k, n)), zand(within(s.p(*o, k), n), s.inv(*o, s.p(*o, k)) == k)), [s.p(*o, k)]))
        r.assume(FA(o + [k], zimp(zand(ino, within(k, n)), zand(within(s.inv(*o, k), n), s.p(*o, s.inv(*o, k)) == k)), [s.inv(*o, k)]))
        s.o, s.ino = o, ino
        r.perms.append(s)
def sorted_axiom(pm, le, extra_pats=None):
    "for k1 < k2: le(p(k1), p(k2))"
    r = run()
    k1, k2 = r.bound('k'), r.bound('k')
    a, b = pm.p(*pm.o, k1), pm.p(*pm.o, k2)
    r.assume(FA(pm.o + [k1, k2], zimp(zand(pm.ino, 0 <= k1, k1 < k2, zb(zcmp('<', k2, pm.n))), le(a, b)), [(a, b)]))
def vkey(v):
    v = nat(v)
    return v
def vle(a, b): return zb(tobool(compare('<=', a, b)))
def vlt(a, b): return zb(tobool(compare('<', a, b)))
def veq(a, b): return zb(tobool(compare('==', a, b)))

def lexsort(keys, axis=-1):
    """np.lexsort: a stable permutation ordering by the last key, then the one before..."""
    if isinstance(keys, (tuple, list)) or type(keys).__name__ == 'SList':
        ks = [asarr(x) for x in keys]
        for x in ks[1:]: same_dim(x.dims[0], ks[0].dims[0])
        gs = [x.reader() for x in ks]; n = ks[0].dims[0]
    else:
        if len(keys.dims) != 2: raise Unsupported('lexsort')
        if isz(keys.dims[0]): raise Unsupported('lexsort by a symbolic number of keys')
        g = keys.reader(); n = keys.dims[1]
        gs = [(lambda k, q=q: g(q, k)) for q in range(keys.dims[0])]
    pm = Perm(n, base='lexsort')
    def le(a, b):
        # lexicographic, last key first; ties in index order
        res = a < b
        for gg in gs:
            x, y = gg(a), gg(b)
            res = z3.Or(vlt(x, y), z3.And(veq(x, y), res))
        return res
    sorted_axiom(pm, le)
    r = run()
    pm.keys = gs
    return SArr((n,), lambda k: mkint(pm.p(k)), 'int64')

def argsort(a, axis=-1, kind=None, stable=None):
    a = asarr(a)
    nd = len(a.dims)
    ax = nat(axis)
    if ax is None: a = a.flatten(); nd = 1; ax = 0
    if ax < 0: ax += nd
    if ax != nd - 1: raise Unsupported('argsort over axis %d' % ax)
    g = a.reader(); n = a.dims[-1]
    pm = Perm(n, a.dims[:-1], 'argsort')
    st = kind in ('stable', 'mergesort') or stable
    def le(x, y):
        u, v = g(*pm.o, x), g(*pm.o, y)
        return z3.Or(vlt(u, v), z3.And(veq(u, v), x < y)) if st else vle(u, v)
    sorted_axiom(pm, le)
    return SArr(a.dims, lambda *ix: mkint(pm.p(*ix)), 'int64')
def sort(a, axis=-1, kind=None):
    a = asarr(a)
    if len(a.dims) != 1: raise Unsupported('sort of a many-dimensional array')
    g = a.reader(); n = a.dims[0]
    if not isz(n) and n <= 1: return a.copy()
    pm = Perm(n, base='sortp')
    r = run()
    srt = sort_of(a.dtype.kind)
    # the sorted values as a function: monotone, equal to the values permuted
    f = r.func('sorted', I, srt)
    val = (lambda t: lift(ie(g(t)))) if srt == I else (lambda t: re_(g(t)))
    if srt == R and r.engine.flags.get('inf') and not isinstance(g(z3.Int('smp')), (int, float)) and getattr(g(z3.Int('smp')), 'pinf', False) is not False: raise Unsupported('sorting infinities')
    k, k2 = r.bound('k'), r.bound('k')
    r.assume(FA(k, zimp(within(k, n), f(k) == val(pm.p(k))), [f(k)]))
    vk = val(k)
    r.assume(FA(k, zimp(within(k, n), f(pm.inv(k)) == vk), [pm.inv(k)] + good_pats(vk, k)))
    r.assume(FA([k, k2], zimp(zand(0 <= k, k < k2, zb(zcmp('<', k2, n))), f(k) <= f(k2)), [(f(k), f(k2))]))
    return SArr((n,), lambda t: wrap(f(t)), a.dtype)

def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = asarr(a)
    if axis is not None or return_counts: raise Unsupported('np.unique options')
    if len(a.dims) != 1: a = a.flatten()
    r = run(); g = a.reader(); n = a.dims[0]
    srt = sort_of(a.dtype.kind)
    val = (lambda t: lift(ie(g(t)))) if srt == I else (lambda t: re_(g(t)))
    c = r.const('ucnt', I); f = r.func('uniq', I, srt); w = r.func('uniqat', I, I); pos = r.func('uniqpos', I, I); at = r.func('uniqof', srt, I)
    k, k2, j = r.bound('k'), r.bound('k'), r.bound('j')
    r.assume(zand(c >= 0, c <= lift(n))); r.assume(zimp(zb(zcmp('>', n, 0)), c > 0))
    r.assume(FA(k, zimp(within(k, c), zand(within(w(k), n), f(k) == val(w(k)), pos(w(k)) == k)), [f(k), w(k)]))
    r.assume(FA(k, zimp(within(k, c), at(f(k)) == k), [f(k)]))
    r.assume(FA([k, k2], zimp(zand(0 <= k, k < k2, k2 < c), f(k) < f(k2)), [(f(k), f(k2))]))
    vj = val(j)
    r.assume(FA(j, zimp(within(j, n), zand(within(pos(j), c), f(pos(j)) == vj, pos(j) == at(vj))), [pos(j)] + good_pats(vj, j)))
    # the first occurrence
    r.assume(FA([k, j], zimp(zand(within(k, c), within(j, n), vj == f(k)), w(k) <= j), [(w(k), x) for x in good_pats(vj, j)] or None))
    u = SArr((c,), lambda t: wrap(f(t)), a.dtype)
    r.engine.flags.setdefault('uniques', {})[str(f.decl)] = (f.decl, w.decl, pos.decl, len(f.ix))
    u.uniq = (w, pos); r.notes.setdefault('unique', []).append((f, w, pos))
    out = [u]
    if return_index: out.append(SArr((c,), lambda t: mkint(w(t)), 'int64'))
    if return_inverse: out.append(SArr((n,), lambda t: mkint(pos(t)), 'int64'))
    return out[0] if len(out) == 1 else tuple(out)

def nonzero(a):
    a = asarr(a)
    if a.dtype.kind != 'b': a = ew(lambda x: mkbool(tobool(x != 0)), a, dt='bool')
    if len(a.dims) == 1:
        c = comp_of(a)
        cnt = dimsimp(c.cnt)
        x = SArr((cnt,), lambda k: mkint(c.sel(k)), 'int64')
        return (x,)
    if len(a.dims) == 2:
        # row-major: positions (row(k), col(k)), k increasing lexicographically
        r = run(); n, m = a.dims; g = a.reader()
        cnt = r.const('cnt2', I); row = r.func('row', I, I); col = r.func('col', I, I); rk = r.func('rank2', I, I, I)
        k, k2, i, j = r.bound('k'), r.bound('k'), r.bound('i'), r.bound('j')
        M = lambda x, y: zb(tobool(g(x, y)))
        r.assume(cnt >= 0)
        r.assume(FA(k, zimp(within(k, cnt), zand(within(row(k), n), within(col(k), m), M(row(k), col(k)), rk(row(k), col(k)) == k)), [row(k), col(k)]))
        mij = M(i, j)
        r.assume(FA([i, j], zimp(zand(within(i, n), within(j, m), mij), zand(within(rk(i, j), cnt), row(rk(i, j)) == i, col(rk(i, j)) == j)), [rk(i, j)] + good_pats(mij, i, j) + pairs_pats(mij, i, j)))
        r.assume(FA([k, k2], zimp(zand(0 <= k, k < k2, k2 < cnt), z3.Or(row(k) < row(k2), z3.And(row(k) == row(k2), col(k) < col(k2)))), [(row(k), row(k2))]))
        return SArr((cnt,), lambda t: mkint(row(t)), 'int64'), SArr((cnt,), lambda t: mkint(col(t)), 'int64')
    raise Unsupported('nonzero of %d dimensions' % len(a.dims))
def pairs_pats(e, i, j):
    a, b = good_pats(e, i), good_pats(e, j)
    return [(x, y) for x in a[:1] for y in b[:1]]
def flatnonzero(a): return nonzero(asarr(a).flatten())[0]
def argwhere(a):
    return stack([x for x in nonzero(a)], axis=1)
def count_nonzero(a): 
    a = asarr(a)
    return (a if a.dtype.kind == 'b' else (a != 0)).sum()
def where(c, *xy):
    if not xy: return nonzero(c)
    return ew(lambda q, x, y: select(q, x, y), asarr(c), xy[0], xy[1])

def argext(a, axis, op):
    "the first position of the extreme (booleans: of True)"
    r = run()
    nd = len(a.dims)
    if axis is None:
        if nd != 1: raise Unsupported('argmin of a flattened array')
        axis = 0
    axis = nat(axis)
    if axis < 0: axis += nd
    n = a.dims[axis]; outd = a.dims[:axis] + a.dims[axis+1:]
    g = a.reader()
    r.safety(zb(zcmp('>', n, 0)), 'argmin/argmax of a nonempty sequence')
    put = lambda ix, k: tuple(ix[:axis]) + (k,) + tuple(ix[axis:])
    f = r.func('argext', *([I]*len(outd) + [I]))
    r.engine.flags.setdefault('argexts', {})[f.decl.name()] = (g, put, f.ix)
    o = [r.bound('o') for _ in outd]; k = r.bound('k')
    ino = zand(*[within(x, d) for x, d in zip(o, outd)])
    if a.dtype.kind == 'b':
        better = lambda x, y: zand(tobool(x), znot(tobool(y)))   # x strictly better than y
        if op == '<': better = lambda x, y: zand(tobool(y), znot(tobool(x)))
    else: better = (lambda x, y: tobool(compare(op, x, y)))
    fo = f(*o)
    best = g(*put(tuple(o), fo))
    bk = g(*put(tuple(o), k))
    r.assume(FA(o, zimp(ino, within(fo, n)), [fo]) if o else within(fo, n))
    term = bk.e if isinstance(bk, SVal) else z3.BoolVal(True)
    body = zand(zimp(k < fo, better(best, bk)), znot(better(bk, best)))
    pats = good_pats(term, *(o + [k])) 
    if o: pats = pats + [(fo, x) for x in good_pats(term, k)]
    # (of any values there is a first extreme one: the instances hold whatever path is taken)
    r.engine.flags['argexts'][f.decl.name()] += (lambda *ix: substz(zb(zimp(zand(ino, within(k, n)), zand(within(fo, n), body))), list(zip(o + [k], ix))),)
    r.assume(FA(o + [k], zimp(zand(ino, within(k, n)), body), pats))
    if not outd: return mkint(fo)
    return SArr(outd, lambda *ix: mkint(f(*ix)), 'int64')
def argmin(a, axis=None): return asarr(a).argmin(axis)
def argmax(a, axis=None): return asarr(a).argmax(axis)

# ------------------------------------------------------------------ sums
def sum_term(n, body, lo=0):
    "sum of body(k), 0 <= k < n"
    k = z3.Int('sum_k')
    return sums.total(n, zb_num(body(k)), k, [], [])()
def zb_num(v):
    v = toint(v)
    if isinstance(v, SInt): return v.e
    if isinstance(v, SReal):
        if v.pinf is not False or v.ninf is not False: raise Unsupported('sum of infinities')
        return v.e
    return lift(v)
def sym_sum(a, g, axis, n, outd, put):
    nd = len(outd)
    o = [z3.Int('sum_o%d' % q) for q in range(nd)]; k = z3.Int('sum_k')
    f = sums.total(n, zb_num(g(*put(tuple(o), k))), k, o, outd)
    return lambda *ix: wrap(f(*ix))
def cumsum(a, axis=None): raise Unsupported('cumsum')
def dot(a, b): 
    a, b = asarr(a), asarr(b)
    if len(a.dims) == 1 and len(b.dims) == 1: return (a*b).sum()
    if len(a.dims) == 2 and len(b.dims) == 1: return (a*b).sum(axis=1)
    raise Unsupported('dot')

# ------------------------------------------------------------------ construction
def array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, coll.GenSeq): return SArr((), lambda: x, 'object')
    a = asarr(x, dtype)
    if isinstance(x, (SArr, SRec)): a = a.copy()
    while len(a.dims) < ndmin: a = a[None]
    if isinstance(a, SArr) and not isinstance(x, SArr):
        a = SArr(a.dims, a.reader(), a.dtype)
    return a
def asarray(x, dtype=None): return asarr(x, dtype)
asanyarray = ascontiguousarray = asarray
def shape_(s): return dims(s) if isinstance(s, (tuple, list)) or type(s).__name__ == 'SList' else (dim(s),)
def chk(sh):
    for d in sh:
        if isz(d): run().safety(d >= 0, 'dimensions are not negative')
        elif d < 0: raise ValueError('negative dimensions are not allowed')
    return sh
def filled(sh, v, dt):
    dt = arr.dtype(dt)
    sh = chk(shape_(sh))
    if dt.fields is not None: return new_rec(sh[0], dt, v)
    sh = sh + tuple(dt.shape); dt = arr.dtype(dt.name) if dt.shape else dt
    c = arr.castto(v, dt) if dt.kind in 'bif' else v
    return SArr(sh, lambda *ix: c, dt)
def zeros(shape, dtype=None): return filled(shape, 0, dtype)
def ones(shape, dtype=None): return filled(shape, 1, dtype)
def full(shape, v, dtype=None):
    if dtype is None: dtype = KDT(kindof(v))
    return filled(shape, v, dtype)
def empty(shape, dtype=None):
    dt = arr.dtype(dtype)
    sh = chk(shape_(shape))
    if dt.fields is not None:
        r = SRec(sh[0], {}, dt)
        return new_rec_fresh(sh[0], dt)
    sh = sh + tuple(dt.shape); dt = arr.dtype(dt.name) if dt.shape else dt
    return fresh_arr('empty', sh, dt)
def new_rec_fresh(n, dt): return new_rec(n, dt)
def like(f):
    def g(a, *v, dtype=None, **k):
        a = asarr(a)
        if isinstance(a, SRec): return empty(a.dims, a.dtype)
        return f(tuple(pdim(d) for d in a.dims), *v, dtype=a.dtype if dtype is None else dtype)
    return g
zeros_like, ones_like, empty_like = like(zeros), like(ones), like(empty)
full_like = like(full)
def arange(*a, dtype=None):
    a = [nat(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if builtins.any(isinstance(x, (float, SReal)) for x in (lo, hi, st)):
        if builtins.all(not isinstance(x, SVal) for x in (lo, hi, st)):
            import numpy
            return asarr(numpy.arange(lo, hi, st).tolist(), dtype)
        raise Unsupported('arange of reals')
    if not isinstance(st, int) or st != 1:
        if builtins.all(not isinstance(x, SVal) for x in (lo, hi, st)): return asarr(list(range(lo, hi, st)), dtype or 'int64')
        raise Unsupported('arange step')
    q = coll.SRange(ie(lo), ie(hi))
    r = SArr((q.n,), lambda k: q.get(k), 'int64')
    return r if dtype is None else r.astype(dtype)
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if dtype is not None or retstep or nat(endpoint) is not True: raise Unsupported('linspace options')
    a, b, n = nat(start), nat(stop), nat(num)
    if isinstance(a, SArr) or isinstance(b, SArr): raise Unsupported('linspace of arrays')
    if not isinstance(n, SVal):
        if n == 1: return asarr([a*1.])
        return SArr((n,), lambda k: arith('+', a, arith('/', arith('*', arith('-', b, a), mkint(k) if isz(k) else k), n - 1)), 'f')
    r = run(); n = ie(n); x, y = re_(a), re_(b)
    if not r.engine.quick(r, zb(zcmp('>=', n, 2))): raise Unsupported('linspace of one item or none')
    # the definition, and its facts for the ends and the order
    st = r.const('step', R); f = r.func('lin', I, R); k, j = r.bound('k'), r.bound('k')
    r.assume(st*z3.ToReal(n - 1) == y - x)
    r.assume(z3.And(f(0) == x, f(n - 1) == y, (st > 0) == (x < y), (st == 0) == (x == y)))
    r.assume(FA(k, f(k) == x + st*z3.ToReal(k), [f(k)]))
    r.assume(FA([j, k], zimp(j < k, z3.And((x < y) == (f(j) < f(k)), (x == y) == (f(j) == f(k)))), [(f(j), f(k))]))
    return SArr((n,), lambda q: mkreal(f(lift(q))), 'f')
def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    e = linspace(start, stop, num, endpoint)
    b = nat(base)
    if dtype is not None or isinstance(b, SVal) or b <= 1: raise Unsupported('logspace options')
    return power(b, e)
def geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    "positive ends"
    a, b = nat(start), nat(stop); r = run()
    r.safety(zb(tobool(land(a > 0, b > 0))), 'geomspace: positive ends')
    e = logspace(log10(a), log10(b), num, endpoint)
    e[0], e[-1] = a, b
    return e
def eye(n, dtype=None):
    return SArr((dim(n), dim(n)), lambda i, j: select(mkbool(simp(zb(zeq_i(i, j)))), 1., 0.), 'f')
identity = eye
def atleast_1d(x):
    if isinstance(x, arr.SRec): return x
    if isinstance(x, arr.SRow): return arr.SRec(1, {k: asarr(v)[None] for k, v in x.vals.items()}, x.dtype)
    a = asarr(x)
    return a if len(a.dims) >= 1 else a[None]
def atleast_2d(x):
    a = asarr(x)
    if len(a.dims) >= 2: return a
    return a[None, :] if len(a.dims) == 1 else a[None][None]
def copy(a): return asarr(a).copy()
def iscomplexobj(a): return False

# ------------------------------------------------------------------ joining
def seq_items(xs):
    if isinstance(xs, SArr): 
        if isz(xs.dims[0]): return None
        return [xs[k] for k in range(xs.dims[0])]
    if coll.is_sym(xs): return None
    return [asarr(x) for x in xs]
def concatenate(xs, axis=0):
    items = seq_items(xs)
    if items is None: return concat_sym(xs, nat(axis))
    if not items: raise ValueError('need at least one array to concatenate')
    if isinstance(items[0], SRec): 
        return SRec(concatenate([x.cols[next(iter(x.cols))] for x in items]).dims[0], {k: concatenate([x.cols[k] for x in items]) for k in items[0].cols}, items[0].dtype)
    ax = nat(axis); nd = len(items[0].dims)
    if nd == 0: raise ValueError('zero-dimensional arrays cannot be concatenated')
    if ax < 0: ax += nd
    if len(items) == 1: return items[0].copy()
    dt = items[0].dtype
    for x in items[1:]:
        if len(x.dims) != nd: raise ValueError('all the input array dimensions must match')
        for q in range(nd):
            if q != ax and not same_dim(x.dims[q], items[0].dims[q], 'joined arrays have matching shapes'): raise ValueError('dimensions must match')
        dt = join_dt(dt, x.dtype)
    offs = [0]
    for x in items: offs.append(dadd(offs[-1], x.dims[ax]))
    gs = [x.reader() for x in items]
    cv = (lambda v: cast(v, dt.kind)) if dt.kind in 'if' else (lambda v: v)
    def fn(*ix):
        k = ix[ax]
        def rec(q):
            own = lambda: cv(gs[q](*(ix[:ax] + (dsub(k, offs[q]),) + ix[ax+1:])))
            if q == len(items) - 1: return own()
            c = zcmp('<', k, offs[q + 1])
            if c is True: 
                return own()
            if c is False: return rec(q + 1)
            return merge(c, own(), rec(q + 1))
        return rec(0)
    sh = [x if not (isz(x)) else x for x in items[0].dims]
    for q in range(nd):
        for x in items:
            if not isz(x.dims[q]): sh[q] = x.dims[q]
    sh[ax] = offs[-1]
    return SArr(tuple(sh), fn, dt)
def concat_sym(xs, ax):
    "joining a symbolic number of arrays: of one row each, or of varying numbers of rows"
    q = coll.as_seq(xs); r = run()
    n = q.n
    j = z3.Int('cat_j')
    x = q.get(j)
    if not isinstance(x, SArr): x = asarr(x)
    r.safety(zb(zcmp('>', n, 0)), 'need at least one array to concatenate')
    nd = len(x.dims)
    if ax < 0: ax += nd
    for k, d in enumerate(x.dims):
        if k != ax and isz(d) and 'cat_j' in consts_of(d): raise Unsupported('joining rows of varying length')
    if not isz(x.dims[ax]) and x.dims[ax] == 1:
        def fn(*ix):
            v = q.get(ix[ax])
            v = asarr(v)
            return v.reader()(*(ix[:ax] + (0,) + ix[ax+1:]))
        return SArr(x.dims[:ax] + (n,) + x.dims[ax+1:], fn, x.dtype)
    # varying lengths: offsets off(j), total; which(k): the array that row k is from
    ln = lambda t: lift(asarr(q.get(t)).dims[ax])
    off = r.func('off', I, I); wh = r.func('which', I, I); tot = r.const('total', I)
    a, b, k = r.bound('a'), r.bound('b'), r.bound('k')
    r.assume(off(0) == 0); r.assume(tot == off(n)); r.assume(tot >= 0)
    r.assume(FA(a, zimp(within(a, n), zand(off(a + 1) == off(a) + ln(a), off(a) >= 0, off(a) + ln(a) <= tot)), [off(a)]))
    r.assume(FA([a, b], zimp(zand(0 <= a, a < b, zb(zcmp('<=', b, n))), off(a) + ln(a) <= off(b)), [(off(a), off(b))]))
    r.assume(FA(k, zimp(within(k, tot), zand(within(wh(k), n), off(wh(k)) <= k, k < off(wh(k)) + ln(wh(k)))), [wh(k)]))
    r.assume(FA([a, k], zimp(zand(within(a, n), off(a) <= k, k < off(a) + ln(a)), wh(k) == a), [(off(a), wh(k))]))
    def fn(*ix):
        w = wh(ix[ax])
        return asarr(q.get(w)).reader()(*(ix[:ax] + (dimsimp(lift(ix[ax]) - off(w)),) + ix[ax+1:]))
    res = SArr(x.dims[:ax] + (tot,) + x.dims[ax+1:], fn, x.dtype)
    res.cat = (off, wh, n); r.notes.setdefault('cats', []).append((off, wh, n, tot))
    res.chunk = lambda t: asarr(q.get(t))
    return res
def hstack(xs):
    items = seq_items(xs)
    if items is None: return concat_sym(xs, 0 if len(asarr(coll.as_seq(xs).get(z3.Int('cat_j'))).dims) == 1 else 1)
    items = [atleast_1d(x) for x in items]
    return concatenate(items, 0 if len(items[0].dims) == 1 else 1)
def vstack(xs):
    items = seq_items(xs)
    if items is None:
        q = coll.as_seq(xs)
        return concat_sym(coll.SSeq(q.n, lambda k: atleast_2d(q.get(k))), 0)
    return concatenate([atleast_2d(x) for x in items], 0)
row_stack = vstack
def column_stack(xs):
    return concatenate([x if len(x.dims) > 1 else x[:, None] for x in [asarr(x) for x in xs]], 1)
def stack(xs, axis=0):
    items = seq_items(xs)
    if items is None: raise Unsupported('stack')
    return concatenate([x[None] if axis == 0 else x[(slice(None),)*axis + (None,)] for x in items], axis)
class _R:
    vc_static = True
    def __getitem__(s, k):
        if not isinstance(k, tuple): k = (k,)
        parts = []
        for x in k:
            if isinstance(x, slice):
                if isinstance(nat(x.step), complex): raise Unsupported('r_')
                parts.append(arange(x.start or 0, x.stop, 1 if x.step is None else x.step))
            elif isinstance(x, str): raise Unsupported('r_ with a directive')
            else: parts.append(atleast_1d(x))
        return concatenate(parts, 0)
r_ = _R()
class _C:
    vc_static = True
    def __getitem__(s, k):
        if not isinstance(k, tuple): k = (k,)
        return column_stack([atleast_1d(x) for x in k])
c_ = _C()
def append(a, b, axis=None):
    if axis is None: return concatenate((asarr(a).flatten(), atleast_1d(b).flatten()))
    return concatenate((asarr(a), asarr(b)), axis)
def ix_(a, b):
    a, b = asarr(a), asarr(b)
    return (a[:, None], b[None, :])
def tile(a, n): raise Unsupported('tile')
def repeat(a, n, axis=None):
    a = asarr(a); n = nat(n)
    if isinstance(n, (SArr,)): raise Unsupported('repeat by an array')
    g = a.reader()
    if axis is None or (len(a.dims) == 1 and axis in (0, -1)):
        if len(a.dims) != 1: a = a.flatten(); g = a.reader()
        k = dim(n)
        if not isz(k):
            return SArr((dmul(a.dims[0], k),), lambda q: g(q//k if not isz(q) else dimsimp(q/k)), a.dtype)
        # item q of the result is item q // k: kept in two dimensions
        res = SArr((dmul(a.dims[0], k),), lambda q: g(dimsimp(lift(q)/lift(k))), a.dtype)
        res.flat2 = ((a.dims[0], k), lambda i, j: g(i), res.store.version)
        return res
    ax = nat(axis)
    if ax < 0: ax += len(a.dims)
    k = dim(n)
    if not isz(a.dims[ax]) and a.dims[ax] == 1:
        return SArr(a.dims[:ax] + (k,) + a.dims[ax+1:], lambda *ix: g(*(ix[:ax] + (0,) + ix[ax+1:])), a.dtype)
    raise Unsupported('repeat over an axis')
def broadcast_to(a, shape):
    a = asarr(a); sh = shape_(shape); g = a.reader(); m = bmap(a.dims, broadcast([a.dims, sh]))
    return SArr(sh, lambda *ix: g(*m(ix)), a.dtype)
def broadcast_arrays(*xs):
    sh = broadcast([asarr(x).dims for x in xs])
    return [broadcast_to(x, tuple(pdim(d) for d in sh)) for x in xs]
def roll(a, k, axis=None):
    a = asarr(a); k = nat(k)
    if len(a.dims) != 1 or not isinstance(k, int): raise Unsupported('roll')
    n = a.dims[0]; g = a.reader()
    if k == -1: return SArr(a.dims, lambda q: (g(dadd(q, 1)) if zcmp('<', dadd(q, 1), n) is True else merge(zb(zcmp('<', dadd(q, 1), n)), g(dadd(q, 1)), g(0))) if isz(q) or isz(n) else g((q + 1) % n), a.dtype)
    if k == 1: return SArr(a.dims, lambda q: merge(zb(zcmp('>', q, 0)), g(dsub(q, 1)), g(dsub(n, 1))) if isz(q) or isz(n) else g((q - 1) % n), a.dtype)
    raise Unsupported('roll')
def flipud(a): return asarr(a)[::-1]
flip = flipud
def diff(a, n=1, axis=-1):
    a = asarr(a)
    if n != 1: raise Unsupported('diff n')
    nd = len(a.dims); ax = nat(axis)
    if ax < 0: ax += nd
    lead = (slice(None),)*ax
    x, y = a[lead + (slice(1, None),)], a[lead + (slice(None, -1),)]
    if a.dtype.kind == 'b': return x != y
    return x - y
def transpose(a): return asarr(a).T
def squeeze(a): return asarr(a).squeeze()
def ravel(a): return asarr(a).flatten()
def reshape(a, s): return asarr(a).reshape(s)
def swapaxes(a, i, j):
    if {i, j} == {0, 1} and len(a.dims) == 2: return a.T
    raise Unsupported('swapaxes')
def expand_dims(a, axis): 
    a = asarr(a)
    if axis < 0: axis += len(a.dims) + 1
    return a[(slice(None),)*axis + (None,)]
def delete(*a): raise Unsupported('delete')

# ------------------------------------------------------------------ elementwise functions
def isinf_(v):
    v = nat(v)
    if isinstance(v, (int, float)): return v in (inf, -inf)
    if isinstance(v, SReal): return mkbool(simp(zb(zor(v.pinf, v.ninf))))
    return False
def isinf(a): return ew(isinf_, a, dt='bool')
def isposinf(a): return ew(lambda v: (v == inf), a, dt='bool')
def isfinite(a): return ew(lambda v: lnot(isinf_(v)), a, dt='bool')
def isnan(a): return ew(lambda v: False, a, dt='bool')
SQRT = z3.Function('sqrt_', R, R); EXP = z3.Function('exp_', R, R); LOG = z3.Function('log_', R, R)
def once(key, f):
    r = run()
    if not r.notes.get(key):
        r.notes[key] = True
        for x in f(): r.axiom(x)
def sqrt_(v):
    v = nat(v)
    if isinstance(v, (int, float)): return math.sqrt(v)
    def ax():
        x = z3.Real('sq_x'); y = z3.Real('sq_y')
        return [z3.ForAll(x, z3.Implies(x >= 0, z3.And(SQRT(x) >= 0, SQRT(x)*SQRT(x) == x)), patterns=[SQRT(x)]),
            z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0), (x < y) == (SQRT(x) < SQRT(y))), patterns=[z3.MultiPattern(SQRT(x), SQRT(y))])]
    once('sqrt', ax)
    x, p, n = real3(v)
    return mkreal(SQRT(x), p)
def sqrt_order(a, b):
    "an instance of the axiom"
    run().add(z3.Implies(z3.And(a >= 0, b >= 0), (a < b) == (SQRT(a) < SQRT(b))))
def sqrt(a): return ew(sqrt_, a)
def unary(F, fpy, pos=None):
    def f(v):
        v = nat(v)
        if isinstance(v, (int, float)): return fpy(v)
        x, p, n = real3(v)
        if p is not False or n is not False: raise Unsupported('function of an infinity')
        if pos:
            def ax():
                q = z3.Real('un_x')
                return [z3.ForAll(q, F(q) > 0, patterns=[F(q)])]
            once(F.name(), ax)
        return SReal(F(x))
    return lambda a: ew(f, a)
exp = unary(EXP, math.exp, True); log10 = unary(LOG10, math.log10); log = unary(LOG, math.log)
def abs(a): return ew(lambda v: v.__abs__(), a) if not isinstance(nat(a), (int, float)) else nat(a).__abs__()
absolute = fabs = abs
def square(a): return asarr(a)**2 if isinstance(a, SArr) else a*a
def power(a, b): return a**b
def sign(a): return ew(lambda v: select(v > 0, 1, select(v < 0, -1, 0)), a)
def maximum(a, b): return ew(lambda x, y: select(x >= y, x, y), a, b)
def minimum(a, b): return ew(lambda x, y: select(x <= y, x, y), a, b)
fmax, fmin = maximum, minimum
def clip(a, lo, hi): return minimum(maximum(a, lo), hi)
def logical_and(a, b): return asarr(a).astype('bool') & asarr(b).astype('bool')
def logical_or(a, b): return asarr(a).astype('bool') | asarr(b).astype('bool')
def logical_not(a): return ~asarr(a).astype('bool') if isinstance(a, SArr) else lnot(a)
logical_xor = U('logical_xor')
def add(a, b): return a + b
def subtract(a, b): return a - b
def multiply(a, b): return a*b
def divide(a, b): return a/b
def equal(a, b): return asarr(a) == b
def not_equal(a, b): return asarr(a) != b
def less(a, b): return asarr(a) < b
def less_equal(a, b): return asarr(a) <= b
def greater(a, b): return asarr(a) > b
def greater_equal(a, b): return asarr(a) >= b
invert = lambda a: ~a
def isclose(*a, **k): raise Unsupported('isclose')
allclose = isclose
def floor(a): 
    def f(v):
        if isinstance(v, SReal): return SReal(z3.ToReal(z3.ToInt(v.e)))
        return arr.cast(v, 'f') if isinstance(v, SVal) else float(math.floor(v))
    return ew(f, a)
def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if len(a.dims) != len(b.dims): return False
    for x, y in zip(a.dims, b.dims):
        c = deq(x, y)
        if c is False: return False
        if c is not True and not run().fork(c): return False
    return (a == b).all()

def red(op):
    def f(a, axis=None, keepdims=False, initial=None, out=None, dtype=None):
        a = asarr(a)
        if isinstance(axis, tuple):
            res = a
            for x in sorted(axis, reverse=True): res = reduce_(asarr(res), op, x)
            return res
        if op in ('any', 'all') and a.dtype.kind != 'b': a = a != 0
        return reduce_(a, op, axis, keepdims)
    return f
sum, any, all, min, max = red('sum'), red('any'), red('all'), red('min'), red('max')
amin, amax = min, max
def mean(a, axis=None): return asarr(a).mean(axis)
def prod(x, axis=None):
    if isinstance(x, (tuple, list)) or type(x).__name__ == 'SList':
        p = 1
        for v in x: p = p*v
        return p
    raise Unsupported('prod')
def shape(a): return asarr(a).shape
def ndim(a): return asarr(a).ndim
def size(a): return asarr(a).size
def vlen(a): return a.vc_len()

def bool_of(x):
    x = nat(x)
    if isinstance(x, SVal): return run().fork(zb(tobool(x)))
    return builtins.bool(x)
def digitize(x, bins, right=False):
    x, b = asarr(x), asarr(bins)
    r = run(); g = b.reader(); n = b.dims[0]
    # assumed precondition: bins increase
    def f(v):
        d = r.const('bin', I)
        return v
    xv = x
    e = lambda t: re_(g(t))
    right = bool_of(right)
    D = r.notes.get(('digi', b.key(), right))
    if D is None:
        D = z3.Function(r.fname('digitize'), R, I) if not r.frames else None
        if D is None: raise Unsupported('digitize in a loop')
        v, k = z3.Real('dg_v'), r.bound('k')
        r.assume(z3.ForAll(v, z3.And(D(v) >= 0, D(v) <= lift(n)), patterns=[D(v)]))
        r.assume(z3.ForAll([v, k], zb(zimp(within(k, n), zand(zimp(k < D(v), e(k) < v if right else e(k) <= v), zimp(k >= D(v), v <= e(k) if right else v < e(k))))), patterns=[z3.MultiPattern(D(v), e(k))] if good_pats(e(k), k) else []))
        r.notes[('digi', b.key(), right)] = D
    return ew(lambda v: mkint(D(re_(v))), x, dt='int64')
def searchsorted(a, v, side='left'):
    b = asarr(a); r = run(); g = b.reader(); n = b.dims[0]
    raise Unsupported('searchsorted')
def isin(a, b, invert=False):
    s = coll.SSet(b if not isinstance(b, SArr) or len(b.dims) == 1 else b.flatten())
    if isinstance(asarr(b), SArr) and not isz(asarr(b).dims[0]) :
        items = [asarr(b).at(k) for k in range(asarr(b).dims[0])]
    res = ew(lambda v: s.has(v), a, dt='bool')
    return ~res if invert and isinstance(res, SArr) else (lnot(res) if invert else res)
in1d = isin
def setdiff1d(*a, **k): raise Unsupported('setdiff1d')
def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices: raise Unsupported('intersect1d')
    u = unique(a); s = coll.SSet(asarr(b))
    return u[ew(lambda v: s.has(v), u, dt='bool')]
def take(a, idx, axis=None): return asarr(a).take(idx, axis)
def compress(c, a, axis=None): return asarr(a)[asarr(c)]
def extract(c, a): return asarr(a)[asarr(c)]
def asmatrix(x): return asarr(x)
matrix = mat = asmatrix
def histogram(a, bins=10, range=None, density=None, weights=None):
    """the documented contract, of 1-d samples: bins are half open but for the last; all the samples
    within the edges are in one bin"""
    if range is not None or weights is not None: raise Unsupported('histogram options')
    a = asarr(a); r = run()
    if len(a.dims) != 1: a = a.flatten()
    b = nat(bins)
    if isinstance(b, str): raise Unsupported('histogram bins')
    if not isinstance(b, SArr) and not isinstance(b, (list, tuple)):
        if tobool(b < 1) is True or not isint(b): raise ValueError('bins must be a positive integer')
        r.safety(zb(tobool(b >= 1)), 'histogram: a positive number of bins')
        lo, hi = a.min(), a.max()
        same = lo == hi
        e = linspace(select(same, lo - .5, lo), select(same, hi + .5, hi), b + 1)
    else: e = asarr(b).copy()
    n, ne = a.dims[0], e.dims[0]; m = dsub(ne, 1)
    k = r.const('k', I)
    with core.Scope(r, None, None, 0, [zb(within(k, m))]): r.safety(zb(tobool(e.at(k) <= e.at(dadd(k, 1)))), 'histogram: bins increase')
    last = dsub(m, 1)
    inbin = lambda i, k: land(e.at(k) <= a.at(i), lor(a.at(i) < e.at(dadd(k, 1)), land(mkbool(zb(zeq_i(k, last))), a.at(i) == e.at(dadd(k, 1)))))
    cnt = SArr((n, m), lambda i, k: select(inbin(i, k), 1., 0.), 'float64').sum(axis=0)
    tot = SArr((n,), lambda i: select(land(e.at(0) <= a.at(i), a.at(i) <= e.at(m)), 1., 0.), 'float64').sum()
    r.assume(zb(tobool(cnt.sum() == tot)))
    if not tobool(bool_of(density) if density is not None else False): return cnt, e
    return SArr((m,), lambda k: cnt.at(k)/(e.at(dadd(k, 1)) - e.at(k))/tot, 'float64'), e
def einsum(sub, *ops, optimize=False):
    ops = [asarr(a) for a in ops]
    if not isinstance(sub, str) or '.' in sub: raise Unsupported('einsum')
    ins, _, out = sub.replace(' ', '').partition('->')
    ins = ins.split(',')
    if '->' not in sub: out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
    if len(ins) != len(ops) or any([len(i) != len(a.dims) or len(set(i)) != len(i) for i, a in zip(ins, ops)]): raise Unsupported('einsum')
    dims = {}
    for i, a in zip(ins, ops):
        for c, d in zip(i, a.dims):
            if c in dims and not arr.same_dim(dims[c], d, 'einsum: dimensions agree'): raise ValueError('operands could not be broadcast together')
            dims.setdefault(c, d)
    order = list(out) + [c for c in dims if c not in out]
    gs = [(i, a.reader()) for i, a in zip(ins, ops)]
    def fn(*ix):
        at = dict(zip(order, ix)); p = None
        for i, g in gs:
            v = g(*[at[c] for c in i]); p = v if p is None else p*v
        return p
    res = SArr(tuple(dims[c] for c in order), fn, 'float64' if any([a.dtype.kind == 'f' for a in ops]) else ops[0].dtype)
    for c in order[len(out):][::-1]: res = res.sum(axis=len(res.dims) - 1)
    return res
def convolve(a, v, mode='full'):
    a, v = asarr(a), asarr(v); r = run()
    if mode != 'valid' or len(a.dims) != 1 or len(v.dims) != 1: raise Unsupported('convolve')
    if tobool(bool_of(mkbool(zb(zcmp('<', a.dims[0], v.dims[0]))))) is True: a, v = v, a
    r.safety(zb(zcmp('>=', v.dims[0], 1)), 'convolve: not empty')
    # out[i] = sum over j of a[i + j]*v[n - 1 - j]
    n = v.dims[0]; f, g = a.reader(), v.reader()
    return SArr((dadd(dsub(a.dims[0], n), 1), n), lambda i, j: f(dadd(i, j))*g(dsub(dsub(n, 1), j)), 'float64').sum(axis=1)
def correlate(a, v, mode='valid'):
    v = asarr(v)
    return convolve(a, v[::-1], mode)
def vander(x, N=None, increasing=False):
    x = asarr(x); g = x.reader(); n = dim(N) if N is not None else x.dims[0]; inc = bool_of(increasing)
    return SArr((x.dims[0], n), lambda i, j: g(i)**mkint(lift(j) if inc else lift(n) - 1 - j), x.dtype)
interp = tensordot = apply_along_axis = meshgrid = gradient = median = std = var = U('numeric routine')
loadtxt = genfromtxt = savez = save = load = savetxt = U('file access')
def errstate(**k):
    import contextlib
    return contextlib.nullcontext()
def seterr(**k): return {}
def vectorize(f): raise Unsupported('vectorize')
def iterable(x): return hasattr(x, '__iter__')
def isscalar(x): return not isinstance(x, SArr)
def may_share_memory(a, b): return a.store is b.store
shares_memory = may_share_memory
def cross(a, b): raise Unsupported('cross')

class linalg:
    vc_static = True
    LinAlgError = ArithmeticError
    @staticmethod
    def norm(a, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2): raise Unsupported('norm order')
        return sqrt((a*a).sum(axis, keepdims) if keepdims else (a*a).sum(axis))
    @staticmethod
    def solve(K, d):
        "K x = d: the contract of the solution (K regular is the caller's duty)"
        K, d = asarr(K), asarr(d)
        r = run()
        same_dim(K.dims[0], K.dims[1], 'square matrix'); same_dim(K.dims[0], d.dims[0], 'right-hand side of the matrix size')
        key = None
        x = fresh_arr('solved', d.dims, 'f')
        r.notes.setdefault('solved', []).append((K, d, x))
        return x
    @staticmethod
    def pinv(a):
        "an unknown matrix: what it is, the contract in which it is used says (Savitzky-Golay)"
        a = asarr(a).copy(); r = run()
        if len(a.dims) != 2: raise Unsupported('pinv')
        if r.frames: raise Unsupported('pinv in a loop')
        x = fresh_arr('pinv', (a.dims[1], a.dims[0]), 'f')
        x.store.static = True
        r.notes.setdefault('pinv', []).append((a, x))
        return x.copy()

def dtype(x): return arr.dtype(x)
int64, int32, int16, int8, uint8, intp = [TYPES[k] for k in ('int64', 'int32', 'int16', 'int8', 'uint8', 'intp')]
float64, float32 = TYPES['float64'], TYPES['float32']
bool_ = TYPES['bool']
int_, float_ = int64, float64
globals()['bool'] = TYPES['bool']
__version__ = '2'
class random: vc_static = True

class NpzFile(dict):
    "the arrays of an NPZ file"
    vc_static = True
    @property
    def files(s): return list(s)
    def close(s): pass
    def __enter__(s): return s
    def __exit__(s, *a): return False
def load(fn, *a, **k):
    if a or k: raise Unsupported('load with options')
    import models
    if 'load' in models.EXTRA: return models.EXTRA['load'](fn)
    f = run().notes.get('npz', {}).get(fn)
    if f is None: raise Unsupported('file which is not there')
    return NpzFile({x: y.copy() for x, y in f.items()})
def _file(nm):
    def f(*a, **k):
        import models
        m = models.EXTRA.get(nm)
        if m is None: raise Unsupported('numpy.' + nm)
        return m(*a, **k)
    return f
loadtxt, save, savez = _file('loadtxt'), _file('save'), _file('savez')
savez_compressed = savez
