"""Equality of rational expressions of unknown reals: both sides brought to a quotient of
polynomials over atoms. Denominators have to be provably nonzero; powers x**(a+k) with a
whole k are x**a*x**k for x provably positive; conditions which are decided are resolved."""
from fractions import Fraction
import z3
from core import *
import vals
LIMIT = 4000
class Fail(Exception): pass
class Alg:
    def __init__(s, r):
        s.r, s.eng = r, r.engine
        s.atoms = {}; s.cache = {}; s.pos = {}
    def atom(s, e):
        e = z3.simplify(e)
        k = e.get_id()
        s.atoms.setdefault(k, e)
        return {((k, 1),): Fraction(1)}
    # polynomials: {((atom, power),...): coefficient}
    def add(s, a, b, c=1):
        o = dict(a)
        for m, v in b.items():
            o[m] = o.get(m, 0) + c*v
            if o[m] == 0: del o[m]
        return o
    def mul(s, a, b):
        if len(a)*len(b) > LIMIT: raise Fail('too large')
        o = {}
        for m, v in a.items():
            for n, w in b.items():
                d = dict(m)
                for k, e in n: d[k] = d.get(k, 0) + e
                t = tuple(sorted((k, e) for k, e in d.items() if e))
                o[t] = o.get(t, 0) + v*w
                if o[t] == 0: del o[t]
        return o
    ONE = {(): Fraction(1)}
    def num(s, c): return ({(): Fraction(c)} if c else {}, s.ONE)
    def qadd(s, a, b, c=1):
        if a[1] == b[1]: return s.add(a[0], b[0], c), a[1]
        return s.add(s.mul(a[0], b[1]), s.mul(b[0], a[1]), c), s.mul(a[1], b[1])
    def qmul(s, a, b): return s.mul(a[0], b[0]), s.mul(a[1], b[1])
    def known(s, f):
        f = z3.simplify(f)
        return z3.is_true(f) or (not z3.is_false(f) and s.eng.quick(s.r, f))
    def positive(s, x):
        k = x.get_id()
        if k not in s.pos: s.pos[k] = (x, s.known(x > 0))
        return s.pos[k][1]
    def rat(s, e):
        k = e.get_id()
        if k not in s.cache: s.cache[k] = (e, s.rat0(e))
        return s.cache[k][1]
    def power(s, q, k):
        if k < 0: q = (q[1], q[0]); k = -k
        o = s.num(1)
        for _ in range(k): o = s.qmul(o, q)
        return o
    def rat0(s, e):
        if z3.is_rational_value(e): return s.num(e.as_fraction())
        if z3.is_int_value(e): return s.num(e.as_long())
        if not z3.is_app(e): raise Fail('term')
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            o = s.num(0)
            for c in e.children(): o = s.qadd(o, s.rat(c))
            return o
        if k == z3.Z3_OP_SUB:
            o = s.rat(e.arg(0))
            for c in e.children()[1:]: o = s.qadd(o, s.rat(c), -1)
            return o
        if k == z3.Z3_OP_UMINUS: return s.qadd(s.num(0), s.rat(e.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            o = s.num(1)
            for c in e.children(): o = s.qmul(o, s.rat(c))
            return o
        if k == z3.Z3_OP_DIV:
            a, b = s.rat(e.arg(0)), s.rat(e.arg(1))
            if not s.known(e.arg(1) != 0): raise Fail('denominator')
            return s.qmul(a, (b[1], b[0]))
        if k == z3.Z3_OP_POWER and (z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1))):
            v = z3.simplify(e.arg(1)); v = v.as_fraction() if z3.is_rational_value(v) else Fraction(v.as_long())
            if v.denominator == 1 and 0 <= v <= 8: return s.power(s.rat(e.arg(0)), int(v))
        if k == z3.Z3_OP_ITE:
            c = e.arg(0)
            if s.known(c): return s.rat(e.arg(1))
            if s.known(z3.Not(c)): return s.rat(e.arg(2))
        if k == z3.Z3_OP_TO_REAL:
            x = e.arg(0); k2 = x.decl().kind()
            if k2 in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_SUB, z3.Z3_OP_ITE):
                cs = [z3.ToReal(c) if c.sort() == I else c for c in x.children()]
                y = {z3.Z3_OP_ADD: lambda: z3.Sum(cs), z3.Z3_OP_MUL: lambda: z3.Product(cs), z3.Z3_OP_UMINUS: lambda: -cs[0], z3.Z3_OP_SUB: lambda: cs[0] - z3.Sum(cs[1:]), z3.Z3_OP_ITE: lambda: z3.If(*cs)}[k2]()
                return s.rat(y)
            if z3.is_int_value(x): return s.num(x.as_long())
        if e.decl().eq(vals.POWR):
            x, y = s.resolve(e.arg(0)), e.arg(1)
            if s.positive(x):
                p = s.rat(y)
                if p[1] == s.ONE:
                    c = p[0].get((), Fraction(0)); w = c.numerator//c.denominator
                    rest = {m: v for m, v in p[0].items() if m}
                    if c != w: rest[()] = c - w
                    o = s.power(s.rat(x), w)
                    if rest:
                        first = min(m for m in rest)
                        neg = rest[first] < 0
                        if neg: rest = {m: -v for m, v in rest.items()}
                        t = s.atom(vals.POWR(x, s.term(rest)))
                        o = s.qmul(o, (s.ONE, t) if neg else (t, s.ONE))
                    return o
        return s.atom(e), s.ONE
    def resolve(s, e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            if s.known(e.arg(0)): return s.resolve(e.arg(1))
            if s.known(z3.Not(e.arg(0))): return s.resolve(e.arg(2))
        return e
    def term(s, p):
        t = None
        for m, v in sorted(p.items()):
            x = None
            for k, n in m:
                for _ in range(n): x = s.atoms[k] if x is None else x*s.atoms[k]
            q = z3.RealVal(v) if x is None else (x if v == 1 else z3.RealVal(v)*x)
            t = q if t is None else t + q
        return t if t is not None else z3.RealVal(0)
def equal(r, a, b):
    s = Alg(r)
    try:
        p = s.qadd(s.rat(a), s.rat(b), -1)
        if not p[0]: return True
        # atoms that are provably equal
        ks = sorted({k for m in p[0] for k, e in m})
        sub = {}
        for i, k in enumerate(ks):
            for j in ks[:i]:
                x, y = s.atoms[j], s.atoms[k]
                if j not in sub and x.sort() == y.sort() and (x.decl().eq(y.decl()) or x.decl().name()[:4] == y.decl().name()[:4] == 'osum') and s.known(x == y): sub[k] = j; break
        if not sub: return False
        o = {}
        for m, v in p[0].items():
            d = {}
            for k, e in m: d[sub.get(k, k)] = d.get(sub.get(k, k), 0) + e
            t = tuple(sorted(d.items())); o[t] = o.get(t, 0) + v
        return not any(o.values())
    except Fail: return False
def prove(r, g):
    if z3.is_eq(g) and g.arg(0).sort() == R: return equal(r, g.arg(0), g.arg(1))
    return False
