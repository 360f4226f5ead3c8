"""Abstraction of non-linear real arithmetic: products and quotients of two unknown
terms become applications of uninterpreted functions with the axioms below. The
result is implied by the original, so that a proof of it is a proof of the original."""
import z3
from core import R, I, B, isz
MUL = z3.Function('mul_', R, R, R); DIV = z3.Function('div_', R, R, R)
_x, _y = z3.Reals('mx my')
AX = [z3.ForAll([_x, _y], MUL(_x, _y) == MUL(_y, _x), patterns=[MUL(_x, _y)]),
    z3.ForAll([_x], z3.And(MUL(_x, _x) >= 0, (MUL(_x, _x) == 0) == (_x == 0)), patterns=[MUL(_x, _x)]),
    z3.ForAll([_x, _y], z3.Implies(_y != 0, MUL(DIV(_x, _y), _y) == _x), patterns=[DIV(_x, _y)]),
    z3.ForAll([_x, _y], z3.And(z3.Implies(z3.And(_x > 0, _y > 0), MUL(_x, _y) > 0), z3.Implies(z3.And(_x >= 0, _y >= 0), MUL(_x, _y) >= 0),
        z3.Implies(z3.Or(_x == 0, _y == 0), MUL(_x, _y) == 0), z3.Implies(_x == 1, MUL(_x, _y) == _y)), patterns=[MUL(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(_y != 0, DIV(_x, _y) == MUL(_x, DIV(1, _y))), patterns=[DIV(_x, _y)]),
    z3.ForAll([_x, _y], z3.Implies(z3.And(_x > 0, _y > 0), DIV(_x, _y) > 0), patterns=[DIV(_x, _y)])]
SQUARES = [z3.ForAll([_x, _y], z3.Implies(_x + _y == 0, MUL(_x, _x) == MUL(_y, _y)), patterns=[z3.MultiPattern(MUL(_x, _x), MUL(_y, _y))])]
CACHE = {}     # id -> (term, abstraction, changed)
def isnum(t): return z3.is_rational_value(t) or z3.is_int_value(t) or (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL) and isnum(t.arg(0)))
def ab(t):
    "(abstraction, changed)"
    k = t.get_id()
    h = CACHE.get(k)
    if h is not None: return h[1], h[2]
    res = ab0(t)
    CACHE[k] = (t,) + res
    return res
def ab0(t):
    if z3.is_quantifier(t):
        n = t.num_vars()
        vs = [z3.Const('%s!b%d' % (t.var_name(i), i), t.var_sort(i)) for i in range(n)]
        def inst(x): return z3.substitute_vars(x, *reversed(vs))
        body, ch = ab(inst(t.body()))
        if not ch: return t, False
        pats = []
        for i in range(t.num_patterns()):
            ps = [ab(inst(p))[0] for p in t.pattern(i).children()]
            pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        if t.is_lambda(): return t, False
        f = z3.ForAll if t.is_forall() else z3.Exists
        return f(vs, body, patterns=pats), True
    if z3.is_var(t) or not z3.is_app(t) or t.num_args() == 0: return t, False
    cs = [ab(c) for c in t.children()]
    ch = any(c for _, c in cs); a = [c for c, _ in cs]
    kd = t.decl().kind()
    if kd == z3.Z3_OP_MUL and t.sort() == R:
        nums = [x for x in a if isnum(x)]; oth = sorted([x for x in a if not isnum(x)], key=lambda x: x.get_id())
        if len(oth) >= 2:
            p = oth[0]
            for q in oth[1:]: p = MUL(p, q)
            for q in nums: p = q*p
            return p, True
    if kd == z3.Z3_OP_POWER and t.sort() == R and isnum(t.arg(1)) and t.arg(1).sort() == R:
        e = z3.simplify(t.arg(1)).as_fraction()
        if e.denominator == 1 and 2 <= e <= 4:
            p = a[0]
            for _ in range(int(e) - 1): p = MUL(p, a[0])
            return p, True
    if kd == z3.Z3_OP_DIV and not isnum(a[1]): return DIV(a[0], a[1]), True
    if not ch: return t, False
    if kd == z3.Z3_OP_ADD: return z3.Sum(a) if len(a) > 1 else a[0], True
    if kd == z3.Z3_OP_MUL: return z3.Product(a), True
    if kd == z3.Z3_OP_AND: return z3.And(*a), True
    if kd == z3.Z3_OP_OR: return z3.Or(*a), True
    if kd == z3.Z3_OP_DISTINCT: return z3.Distinct(*a), True
    if kd == z3.Z3_OP_SUB:
        p = a[0]
        for q in a[1:]: p = p - q
        return p, True
    return t.decl()(*a), True
def problem(facts, goal):
    "the abstracted facts and negated goal, or None where there is nothing to abstract"
    out = []; any_ = False
    for f in facts + [z3.Not(goal)]:
        g, c = ab(f); any_ = any_ or c
        out.append(g)
    return AX + out if any_ else None
