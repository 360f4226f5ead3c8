"""Sums over an unknown number of terms. A sum of reals is expanded into monomials, and
factors which do not depend on the index are taken out (the linearity of sums); what
remains is one symbol for equal sums: the same number of terms, and terms provably equal."""
from fractions import Fraction
import z3
from core import *
import core, arr, nla, algebra
from vals import tobool, SVal
from arr import deq, within, zcmp, good_pats

class Mono:
    def __init__(s, coef=Fraction(1), guards=(), nums=(), dens=()): s.coef, s.guards, s.nums, s.dens = coef, guards, nums, dens
    def __mul__(s, o): return Mono(s.coef*o.coef, s.guards + tuple(g for g in o.guards if not any(g.eq(h) for h in s.guards)), s.nums + o.nums, s.dens + o.dens)
LIMIT = 60
def expand(e):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        c = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
        return [Mono(c)] if c else []
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD: return sum((expand(c) for c in e.children()), [])
        if k == z3.Z3_OP_SUB:
            out = expand(e.arg(0))
            for c in e.children()[1:]: out = out + [Mono(-m.coef, m.guards, m.nums, m.dens) for m in expand(c)]
            return out
        if k == z3.Z3_OP_UMINUS: return [Mono(-m.coef, m.guards, m.nums, m.dens) for m in expand(e.arg(0))]
        if k == z3.Z3_OP_MUL:
            out = [Mono()]
            for c in e.children():
                x = expand(c)
                if len(out)*len(x) > LIMIT: x = [Mono(nums=(c,))]
                out = [m*q for m in out for q in x]
            return out
        if k == z3.Z3_OP_DIV:
            d = e.arg(1)
            if nla.isnum(d):
                f = z3.simplify(d).as_fraction()
                if f == 0: return [Mono(nums=(e,))]
                return [Mono(m.coef/f, m.guards, m.nums, m.dens) for m in expand(e.arg(0))]
            ds = d.children() if d.decl().kind() == z3.Z3_OP_MUL else [d]
            cf = Fraction(1); dd = []
            for x in ds:
                if nla.isnum(x): cf *= z3.simplify(x).as_fraction()
                else: dd.append(x)
            if cf == 0: return [Mono(nums=(e,))]
            return [Mono(m.coef/cf, m.guards, m.nums, m.dens + tuple(dd)) for m in expand(e.arg(0))]
        if k == z3.Z3_OP_ITE:
            c, a, b = e.children()
            ea, eb = expand(a), expand(b)
            if not eb: return [Mono(m.coef, (c,) + m.guards, m.nums, m.dens) for m in ea]
            if not ea: return [Mono(m.coef, (z3.Not(c),) + m.guards, m.nums, m.dens) for m in eb]
        if k == z3.Z3_OP_TO_REAL and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_ADD, z3.Z3_OP_UMINUS):
            x = e.arg(0); k2 = x.decl().kind()
            if k2 == z3.Z3_OP_ITE: return expand(z3.If(x.arg(0), z3.ToReal(x.arg(1)), z3.ToReal(x.arg(2))))
            if k2 == z3.Z3_OP_ADD: return sum((expand(z3.simplify(z3.ToReal(c)) if z3.is_int_value(c) else z3.ToReal(c)) for c in x.children()), [])
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(e.arg(0)): return expand(z3.RealVal(e.arg(0).as_long()))
    return [Mono(nums=(e,))]
def prod(xs):
    r = None
    for x in xs: r = x if r is None else r*x
    return r
def term(guards, nums, dens, coef=Fraction(1)):
    t = prod(nums)
    if t is None: t = z3.RealVal(1)
    if dens: t = t/prod(dens)
    if coef != 1: t = z3.RealVal(coef)*t
    if guards: t = z3.If(z3.And(*guards) if len(guards) > 1 else guards[0], t, z3.RealVal(0))
    return t
def ctx(m):
    "factors, given the guards"
    sub = [(g.arg(0), z3.BoolVal(False)) if z3.is_not(g) else (g, z3.BoolVal(True)) for g in m.guards]
    if not sub: return
    f = lambda t: z3.simplify(z3.substitute(t, *sub))
    m.nums = tuple(f(t) for t in m.nums); m.dens = tuple(f(t) for t in m.dens)
def split(b):
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and isz(b.arg(2)) and nla.isnum(b.arg(2)) and z3.simplify(b.arg(2)).eq(z3.RealVal(0)): return b.arg(0), b.arg(1)
    return z3.BoolVal(True), b
def equal(r, hyp, a, b):
    "two terms are equal given hyp"
    if same(r, z3.Implies(hyp, a == b)): return True
    if a.sort() != R or not (nla.ab(a)[1] or nla.ab(b)[1]): return False
    (g, t), (h, u) = split(a), split(b)
    if not same(r, z3.Implies(hyp, g == h)): return False
    with core.Scope(r, None, None, 0, [hyp, g]): return algebra.equal(r, t, u)
def same(r, f):
    "f holds (with products abstracted if need be)"
    return r.engine.quick(r, f)
def total(n, b, k, o, outd):
    "a function of the outer indices"
    r = run()
    if isz(n):
        # a sum over selected items is one over all items, with the others 0
        for c in arr.selections(r, n):
            x = z3.Int(k.decl().name() + '_all')
            b2 = z3.substitute(b, (c.sel(k), x))
            if k.decl().name() in consts_of(b2) or x.decl().name() not in consts_of(b2): continue
            b2 = z3.substitute(b2, (x, k))
            n, b = c.n, z3.If(zb(tobool(c.m(k))), b2, z3.RealVal(0) if b.sort() == R else z3.IntVal(0))
            break
    def at(t):
        def f(*ix):
            pairs = [(x, lift(y)) for x, y in zip(o, ix)]
            return z3.substitute(t, *pairs) if pairs else t
        return f
    if b.sort() == R:
        monos = expand(b)
        if len(monos) == 0: return lambda *ix: z3.RealVal(0)
        if len(monos) <= LIMIT:
            parts = None
            for m in monos:
                free = lambda t: k.decl().name() not in consts_of(t)
                ctx(m)
                dep = [x for x in m.nums if not free(x)]; dd = [x for x in m.dens if not free(x)]; dg = [x for x in m.guards if not free(x)]
                dep.sort(key=lambda x: x.get_id()); dd.sort(key=lambda x: x.get_id()); dg.sort(key=lambda x: x.get_id())
                if dg and not dep and not dd and same(r, z3.Implies(zb(zand(*[within(x, d) for x, d in zip(o, outd)], within(k, n), *[x for x in m.guards if free(x)])), z3.And(*dg))):
                    m.guards = tuple(x for x in m.guards if free(x)); dg = []      # the guards hold for every item
                if not dep and not dd and not dg:
                    s = z3.ToReal(lift(n)); s = z3.If(s > 0, s, z3.RealVal(0))
                else: s = symbol(r, n, term(dg, dep, dd), k, o, outd)
                s = term([x for x in m.guards if free(x)], [x for x in m.nums if free(x)] + [s], [x for x in m.dens if free(x)], m.coef)
                parts = s if parts is None else parts + s
            if len(monos) == 1 and monos[0].coef == 1 and not any(free(x) for x in monos[0].nums + monos[0].dens + monos[0].guards): return at(parts)
            t = parts
            # the sign of the whole
            ino = zand(*[within(x, d) for x, d in zip(o, outd)])
            if same(r, z3.Implies(zb(zand(ino, within(k, n))), b >= 0)):
                fact = t >= 0
                if o:
                    oo = [r.bound('o') for _ in o]
                    tt = z3.substitute(t, *zip(o, oo))
                    r.assume(FA(oo, zimp(zand(*[within(x, d) for x, d in zip(oo, outd)]), tt >= 0), good_pats(tt, *oo) or None))
                else: r.assume(fact)
            return at(t)
    return at(symbol(r, n, b, k, o, outd))
def symbol(r, n, b, k, o, outd):
    "a term over o, shared by pointwise equal sums"
    reg = r.notes.setdefault('sums', [])
    used = consts_of(b) | (consts_of(n) if isz(n) else set())
    keep = [j for j, x in enumerate(o) if x.decl().name() in used]
    o, outd = [o[j] for j in keep], [outd[j] for j in keep]
    if o:
        # by position among those
        co = [z3.Int('sumc_%d' % j) for j in range(len(o))]
        sub = list(zip(o, co))
        t = symbol1(r, substz(n, sub), z3.substitute(b, *sub), k, co, [substz(d, sub) for d in outd], reg)
        return z3.substitute(t, *[(y, x) for x, y in sub])
    return symbol1(r, n, b, k, o, outd, reg)
def sc2ok(r, c): return c[4] <= r.scopes and c[3] == r.frames[:len(c[3])]
HEADS = {}
def heads(e):
    h = HEADS.get(e.get_id())
    if h is not None: return h[1]
    out = set(); st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): out.add(x.decl().name())
            st.extend(x.children())
    HEADS[e.get_id()] = (e, out)
    return out
def symbol1(r, n, b, k, o, outd, reg):
    nd = len(o)
    ino = zand(*[within(x, d) for x, d in zip(o, outd)])
    cand = [c for c in reg if c[4] <= r.scopes and c[3] == r.frames[:len(c[3])] and c[5] == nd and c[1].sort() == b.sort() and deq(n, c[0]) is not False]
    for c in cand:
        if deq(n, c[0]) is True and b.eq(c[1]): return c[2]
    for c in cand:
        if deq(n, c[0]) is not True and not same(r, zb(zeq(n, c[0]))): continue
        if equal(r, zb(zand(ino, within(k, n))), b, c[1]): return c[2]
    if nd: f = r.func('osum', *([I]*nd + [b.sort()])); t = f(*o)
    else: t = r.const('sum', b.sort())
    reg.append((n, b, t, list(r.frames), r.scopes, nd, list(outd)))
    r.engine.flags.setdefault('sumdefs', {})[t.decl().name()] = (n, b, t)
    oo = [r.bound('o') for _ in o]; kk = r.bound('k')
    sub = lambda e: z3.substitute(e, *(list(zip(o, oo)) + [(k, kk)]))
    ino2 = zand(*[within(x, d) for x, d in zip(oo, outd)])
    tt, bb = sub(t), sub(b)
    def fact(body, pats): r.assume(FA(oo, zimp(ino2, body), pats) if oo else zb(body))
    fact(zimp(zb(zcmp('<=', n, 0)), tt == 0), [tt])
    # the same sums for fixed values of an index
    for n2, b2, t2, fr2, sc2, nd2, dims2 in [c for c in reg[:-1] if sc2ok(r, c)]:
        if abs(nd2 - nd) != 1 or b2.sort() != b.sort() or deq(n, n2) is not True: continue
        small, big = ((b, t, nd, outd), (b2, t2, nd2, dims2)) if nd < nd2 else ((b2, t2, nd2, dims2), (b, t, nd, outd))
        if heads(small[0]) != heads(big[0]): continue
        for j in range(big[2]):
            d = big[3][j]
            if isz(d) and not z3.is_int_value(d): continue
            if int(str(d)) > 4: continue
            for v in range(int(str(d))):
                cs = [z3.Int('sumc_%d' % x) for x in range(big[2])]
                sub = list(zip(cs, [cs[x] if x < j else z3.IntVal(v) if x == j else cs[x - 1] for x in range(big[2])]))
                bb2 = z3.substitute(big[0], *sub)
                ino3 = zand(*[within(cs[x], small[3][x]) for x in range(small[2])])
                if not equal(r, zb(zand(ino3, within(k, n))), small[0], bb2): continue
                ts, tb = small[1], z3.substitute(big[1], *sub)
                os_ = [r.bound('o') for _ in range(small[2])]
                sb = list(zip(cs, os_))
                body = z3.substitute(zb(zimp(ino3, ts == tb)), *sb)
                r.assume(FA(os_, body, [z3.substitute(ts, *sb), z3.substitute(tb, *sb)]) if os_ else body)
    # sums of nonnegative terms
    if same(r, z3.Implies(zb(zand(ino, within(k, n))), b >= 0)):
        fact(tt >= 0, [tt])
        if nd: w = r.func('sumw', *([I]*nd + [I]))(*oo)
        else: w = r.const('sumw', I)
        fact(zimp(tt > 0, zand(within(w, n), z3.substitute(bb, (kk, w)) > 0)), [tt])
        r.assume(FA(oo + [kk], zimp(zand(ino2, within(kk, n), tt == 0), bb == 0), good_pats(bb, *(oo + [kk]))))
    return t
def congruent(r, *terms):
    """sums over equally many, pointwise equal terms are equal: found among the sums in terms, and assumed
    where that is shown (under the assumptions in effect)"""
    reg = r.engine.flags.get('sumdefs', {})
    apps = {}; st = [t.e if isinstance(t, SVal) else t for t in terms]; seen = set()
    while st:
        x = st.pop()
        if not isz(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in reg: apps[x.get_id()] = x
            st.extend(x.children())
    k = r.bound('k'); k0 = z3.Int('sum_k')
    def inst(x):
        n, b, t = reg[x.decl().name()]
        sub = [(a, y) for a, y in zip(t.children(), x.children()) if z3.is_const(a) and not a.eq(y)]
        return substz(n, sub), z3.substitute(b, *(sub + [(k0, k)])), x
    xs = [inst(x) for x in apps.values()]
    for i in range(len(xs)):
        for j in range(i):
            (n, b, x), (m, c, y) = xs[i], xs[j]
            if b.sort() != c.sort() or deq(n, m) is False or heads(b).isdisjoint(heads(c)): continue
            if deq(n, m) is not True and not same(r, zb(zeq(n, m))): continue
            e = equal(r, zb(within(k, n)), b, c)
            if e: r.add(x == y)
