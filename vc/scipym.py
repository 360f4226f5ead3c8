"""Contracts assumed on scipy."""
import z3
from core import *
from vals import *
import core, vals, arr, npm
from arr import SArr, asarr, within, zcmp, deq, dim

def samearr(r, a, b):
    if len(a.dims) != len(b.dims): return False
    for x, y in zip(a.dims, b.dims):
        if deq(x, y) is not True and not r.engine.quick(r, zb(deq(x, y))): return False
    q = [r.bound('sa') for _ in a.dims]
    return r.engine.quick(r, zb(zimp(zand(*[within(x, d) for x, d in zip(q, a.dims)]), tobool(a.at(*q) == b.at(*q)))))
class KD:
    """cKDTree: query gives for each point the nearest data points closer than the upper bound,
    in order of distance, as a function of the point's position"""
    vc_static = True
    def __init__(s, data, leafsize=16, compact_nodes=True, copy_data=False, balanced_tree=True, boxsize=None):
        a = asarr(data)
        if boxsize is not None: raise Unsupported('periodic tree')
        if len(a.dims) != 2: raise ValueError('data must be 2 dimensions')
        if isz(a.dims[1]): raise Unsupported('tree of unknown dimension')
        s.data = a.copy().astype('f'); s.n = a.dims[0]; s.m = a.dims[1]
    def query(s, x, k=1, eps=0, p=2, distance_upper_bound=INF, workers=1):
        r = run(); k = dim(k); ub = nat(distance_upper_bound)
        if eps != 0 or p != 2: raise Unsupported('approximate query')
        x = asarr(x)
        if len(x.dims) != 2: raise Unsupported('query of one point')
        if not arr.same_dim(x.dims[1], s.m, 'points have the dimension of the tree'): raise ValueError('x must consist of vectors of length %s' % s.m)
        if r.fork(zb(zcmp('<=', k, 1))):
            if not isz(k) and k < 1: raise ValueError('k must be an integer of at least 1')
            raise Unsupported('query for one neighbour')
        fs = s.funcs(r, k, ub)
        C, D, J, RK = fs
        g = x.astype('f').reader()
        P = lambda i: tuple(re_(g(i, c)) for c in range(s.m))
        kk = k
        ds = SArr((x.dims[0], kk), lambda i, q: mkreal(D(*P(i), q), simp(lift(q) >= C(*P(i)))), 'float64')
        js = SArr((x.dims[0], kk), lambda i, q: mkint(J(*P(i), q)), 'int64')
        return ds, js
    def funcs(s, r, k, ub):
        reg = r.notes.setdefault('kd', [])
        for t, k2, ub2, fs, fr, sc in reg:
            if fr != r.frames[:len(fr)] or not sc <= r.scopes: continue
            if t is not s and not samearr(r, t.data, s.data): continue
            if deq(k, k2) is not True and not r.engine.quick(r, zb(deq(k, k2))): continue
            if ub is not ub2:
                e = tobool(ub == ub2)
                if e is not True and not (isz(e) and r.engine.quick(r, e)): continue
            return fs
        m = s.m
        RS = [R]*m
        cf = r.func('kd_count', *RS, I); D = r.func('kd_dist', *RS, I, R); J = r.func('kd_index', *RS, I, I); RK = r.func('kd_rank', *RS, I, I)
        r.nfresh += 1
        p = [z3.Real('kd_x%s_%d' % (r.fname('p'), c)) for c in range(m)]
        q, q2, l = r.bound('q'), r.bound('q'), r.bound('l')
        t = s.data
        def dist(j): return re_(npm.sqrt_(sum_([(t.at(j, c) - SReal(p[c]))*(t.at(j, c) - SReal(p[c])) for c in range(m)])))
        C = cf(*p); n = lift(s.n); k_ = lift(k)
        _, up, un = real3(ub); ue = real3(ub)[0]
        inub = lambda d: True if up is True else zor(up, d < ue)
        r.assume(FA(p, z3.And(C >= 0, C <= k_, C <= n), [C]))
        jq = J(*p, q); dq = D(*p, q)
        r.assume(FA(p + [q], zimp(zand(q >= 0, q < C), zand(jq >= 0, jq < n, dq == dist(jq), dq >= 0, inub(dq), RK(*p, jq) == q)), [jq, dq]))
        r.assume(FA(p + [q], zimp(zand(q >= C, q < k_), jq == n), [jq]))
        r.assume(FA(p + [q, q2], zimp(zand(q >= 0, q < q2, q2 < C), dq <= D(*p, q2)), [(dq, D(*p, q2))]))
        rk = RK(*p, l)
        member = zand(rk >= 0, rk < C, J(*p, rk) == l)
        out = z3.If(C < k_, zb(znot(inub(dist(l)))), D(*p, k_ - 1) <= dist(l))
        r.assume(FA(p + [l], zimp(zand(l >= 0, l < n), zor(member, out)), [rk]))
        reg.append((s, k, ub, (cf, D, J, RK), list(r.frames), r.scopes))
        return cf, D, J, RK
def sum_(xs):
    t = xs[0]
    for x in xs[1:]: t = t + x
    return t
class Scipy:
    vc_static = True
    class spatial:
        vc_static = True
        cKDTree = KD
        KDTree = KD
SCIPY = Scipy()
