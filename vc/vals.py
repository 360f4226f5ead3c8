"""Symbolic scalars, and substitution / merging of arbitrary values."""
import types, math
import z3
from core import *
import core

INF = float('inf')

class SVal:
    ndim = 0; shape = (); size = 1
    __array_priority__ = 1000
    __slots__ = ('e',)
    def __hash__(s): raise Unsupported('hash of a symbolic value')
    def __repr__(s): return '<%s %s>' % (type(s).__name__, str(s.e)[:80])
    def squeeze(s): return s
    def item(s): return s
    def copy(s): return s
    def __getitem__(s, k):
        import arr
        return arr.asarr(s)[k]
    def reshape(s, *a):
        import arr
        return arr.asarr(s).reshape(*a)
    def flatten(s): return s.reshape(-1)
    def __str__(s):
        import strs
        return strs.hole('s', s)
    def __format__(s, spec):
        import strs
        return strs.hole(spec or 's', s)

def isarr(x):
    import arr
    return isinstance(x, (arr.SArr, arr.SRec)) or type(x).__name__ == 'SList'

class SBool(SVal):
    __slots__ = ()
    def __init__(s, e): s.e = e
    def __bool__(s): return run().fork(s.e)
    def __and__(s, o): return NotImplemented if isarr(o) else mkbool(zand(s.e, tobool(o)))
    __rand__ = __and__
    def __or__(s, o): return NotImplemented if isarr(o) else mkbool(zor(s.e, tobool(o)))
    __ror__ = __or__
    def __invert__(s): return mkbool(znot(s.e))
    def __xor__(s, o): return NotImplemented if isarr(o) else mkbool(simp(z3.Xor(zb(s.e), zb(tobool(o)))))
    __rxor__ = __xor__
    def __eq__(s, o):
        if isarr(o): return NotImplemented
        if o is None or isinstance(o, str): return False
        if isinstance(o, (bool, SBool)): return mkbool(zeq(zb(s.e), zb(tobool(o))))
        return toint(s) == o
    def __ne__(s, o):
        r = s.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    __hash__ = SVal.__hash__
    def any(s, axis=None): return s
    def all(s, axis=None): return s
    def __add__(s, o): return toint(s) + o
    __radd__ = __add__
    def __sub__(s, o): return toint(s) - o
    def __rsub__(s, o): return o - toint(s)
    def __mul__(s, o): return toint(s)*o
    __rmul__ = __mul__
    def __lt__(s, o): return toint(s) < o
    def __gt__(s, o): return toint(s) > o
    def __le__(s, o): return toint(s) <= o
    def __ge__(s, o): return toint(s) >= o
    def sum(s, axis=None): return toint(s)

def mkbool(e):
    if isinstance(e, SBool): return e
    e = e if isinstance(e, bool) else e
    if isz(e):
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return SBool(e)
    return bool(e)
def tobool(o):
    "z3 bool / python bool of a value"
    if isinstance(o, SBool): return o.e
    if isinstance(o, bool): return o
    if isz(o): return o
    if isinstance(o, (SInt, SReal)): return simp(o.e != 0)
    if isinstance(o, (int, float)): return o != 0
    if type(o).__name__ == 'bool_': return bool(o)
    raise Unsupported('truth value of %r' % type(o))
def lnot(r): return mkbool(znot(tobool(r)))
def land(*r): return mkbool(zand(*[tobool(x) for x in r]))
def lor(*r): return mkbool(zor(*[tobool(x) for x in r]))
def toint(b):
    if isinstance(b, SBool): return mkint(z3.If(b.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(b, bool): return int(b)
    return b

class SNum(SVal):
    __slots__ = ()
    def __bool__(s): return run().fork(simp(s.e != 0))
    # arithmetic, dispatching on the pair
    def __add__(s, o): return arith('+', s, o)
    def __radd__(s, o): return arith('+', o, s)
    def __sub__(s, o): return arith('-', s, o)
    def __rsub__(s, o): return arith('-', o, s)
    def __mul__(s, o): return arith('*', s, o)
    def __rmul__(s, o): return arith('*', o, s)
    def __truediv__(s, o): return arith('/', s, o)
    def __rtruediv__(s, o): return arith('/', o, s)
    def __floordiv__(s, o): return arith('//', s, o)
    def __rfloordiv__(s, o): return arith('//', o, s)
    def __mod__(s, o): return arith('%', s, o)
    def __rmod__(s, o): return arith('%', o, s)
    def __pow__(s, o): return arith('**', s, o)
    def __rpow__(s, o): return arith('**', o, s)
    def __neg__(s): return arith('-', 0, s)
    def __pos__(s): return s
    def __abs__(s):
        return select(compare('>=', s, 0), s, -s)
    def __lt__(s, o): return compare('<', s, o)
    def __le__(s, o): return compare('<=', s, o)
    def __gt__(s, o): return compare('>', s, o)
    def __ge__(s, o): return compare('>=', s, o)
    def __eq__(s, o): return compare('==', s, o)
    def __ne__(s, o):
        r = compare('==', s, o)
        return r if r is NotImplemented else lnot(r)
    __hash__ = SVal.__hash__
    def astype(s, t):
        import arr
        return arr.cast(s, arr.dtype(t).kind)
    def sum(s, *a, **k): return s
    def min(s, *a, **k): return s
    def max(s, *a, **k): return s

class SInt(SNum):
    __slots__ = ()
    def __init__(s, e): s.e = e
    def __index__(s): raise Unsupported('a symbolic integer used natively')
    def __int__(s): raise Unsupported('a symbolic integer used natively')
    def is_integer(s): return True
    @property
    def dtype(s):
        import arr
        return arr.dtype('i')
    def __getnewargs__(s): raise Unsupported('copy')

class SReal(SNum):
    "a real number, or +-infinity where the flag terms say so"
    __slots__ = ('pinf', 'ninf')
    def __init__(s, e, pinf=False, ninf=False): s.e = e; s.pinf = pinf; s.ninf = ninf
    def __float__(s): raise Unsupported('a symbolic number used natively')
    @property
    def dtype(s):
        import arr
        return arr.dtype('f')
    def fin(s): return znot(zor(s.pinf, s.ninf))

class SOpaque(SVal):
    "a value of which nothing is known but identity (elements of user data)"
    __slots__ = ()
    def __init__(s, e): s.e = e
    def __eq__(s, o):
        if isarr(o): return NotImplemented
        if not isinstance(o, SOpaque): raise Unsupported('comparing opaque data')
        return mkbool(zeq(s.e, o.e))
    def __ne__(s, o):
        r = s.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    __hash__ = SVal.__hash__

DATA = z3.DeclareSort('Data')

def mkint(e):
    if isinstance(e, SInt): return e
    if isz(e):
        e = z3.simplify(e) if e.num_args() < 4 else e
        if z3.is_int_value(e): return e.as_long()
        return SInt(e)
    return int(e)
def mkreal(e, pinf=False, ninf=False):
    if pinf is True: return INF
    if ninf is True: return -INF
    return SReal(lift(e, z3.RealVal(0)) if not isz(e) else (z3.ToReal(e) if e.sort() == I else e), pinf, ninf)
def wrap(e):
    if not isz(e): return e
    s = e.sort()
    if s == I: return mkint(e)
    if s == R: return SReal(e)
    if s == B: return mkbool(e)
    if s == DATA: return SOpaque(e)
    raise Unsupported('sort %s' % s)
def isnum(x): return isinstance(x, (int, float, SNum, SBool)) or type(x).__module__ == 'numpy'
def nat(x):
    "numpy scalars are python numbers here"
    if isz(x): return wrap(x)
    if type(x).__module__ == 'numpy' and hasattr(x, 'item'): return x.item()
    return x
def real3(x):
    x = nat(x)
    if isinstance(x, SReal): return x.e, x.pinf, x.ninf
    if isinstance(x, SInt): return z3.ToReal(x.e), False, False
    if isinstance(x, SBool): return z3.If(x.e, z3.RealVal(1), z3.RealVal(0)), False, False
    if isinstance(x, bool): return z3.RealVal(int(x)), False, False
    if isinstance(x, (int, float)):
        if x == INF: return z3.RealVal(0), True, False
        if x == -INF: return z3.RealVal(0), False, True
        if x != x: raise Unsupported('NaN')
        return lift(x, z3.RealVal(0)), False, False
    raise Unsupported('number expected: %r' % type(x))
def isint(x):
    x = nat(x)
    return isinstance(x, (int, SInt, SBool)) 
def ie(x):
    "z3/py int term"
    x = nat(x)
    if isinstance(x, SInt): return x.e
    if isinstance(x, SBool): return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isz(x): return x
    raise Unsupported('integer expected: %r' % type(x))
def re_(x):
    e, p, n = real3(x)
    return e

POWR = z3.Function('pow_', R, R, R)
def powaxioms(r):
    if r.notes.get('powax'): return
    r.notes['powax'] = True
    x, y, z = z3.Reals('px py pz')
    f = z3.ForAll([x, y], z3.Implies(x > 0, z3.And(POWR(x, y) > 0, z3.Implies(y == 0, POWR(x, y) == 1), z3.Implies(y == 1, POWR(x, y) == x), z3.Implies(y == -1, POWR(x, y) == 1/x), POWR(x, -y) == 1/POWR(x, y))), patterns=[POWR(x, y)])
    r.axiom(f)
    # the decimal logarithm is the inverse, and both increase
    ten = z3.RealVal(10)
    r.axiom(z3.ForAll([x], z3.And(LOG10(POWR(ten, x)) == x), patterns=[POWR(ten, x)]))
    r.axiom(z3.ForAll([x], z3.Implies(x > 0, POWR(ten, LOG10(x)) == x), patterns=[LOG10(x)]))
    r.axiom(z3.ForAll([x, y], (x < y) == (POWR(ten, x) < POWR(ten, y)), patterns=[z3.MultiPattern(POWR(ten, x), POWR(ten, y))]))
LOG10 = z3.Function('log10_', R, R)
POWI = z3.Function('powi_', I, I, I)
def intpow(r):
    if r.notes.get('powi'): return
    r.notes['powi'] = True
    x, y = z3.Ints('pix piy')
    r.axiom(z3.ForAll([x, y], z3.Implies(y >= 0, z3.And(POWI(x, 0) == 1, POWI(x, 1) == x, z3.ToReal(POWI(x, y)) == POWR(z3.ToReal(x), z3.ToReal(y)))), patterns=[POWI(x, y)]))
    r.axiom(z3.ForAll([x, y], z3.Implies(y >= 0, z3.ToReal(POWI(x, y)) == POWR(z3.ToReal(x), z3.ToReal(y))), patterns=[POWR(z3.ToReal(x), z3.ToReal(y))]))

NONLIN = dict(opaque=False)
def arith(op, a, b):
    if isarr(a) or isarr(b): 
        if isarr(b) and not isarr(a):
            import arr
            return arr.ew(lambda x, y: arith(op, x, y), a, b)
        return NotImplemented
    if type(a).__name__ == 'ndarray' or type(b).__name__ == 'ndarray':
        return NotImplemented
    a, b = nat(a), nat(b)
    if not (isnum(a) and isnum(b)): return NotImplemented
    if not isinstance(a, SVal) and not isinstance(b, SVal):
        return pyarith(op, a, b)
    if isint(a) and isint(b) and op in '+-*//%':
        x, y = ie(a), ie(b)
        if op == '+': return mkint(lift(x) + y)
        if op == '-': return mkint(lift(x) - y)
        if op == '*': return mkint(lift(x)*y)
        if op in ('//', '%'):
            # python floor semantics; z3 div is floor for positive divisors
            run().safety(zb(simp(lift(y) != 0)), 'no division by zero') if isz(y) else None
            if not isz(y) and y == 0: raise ZeroDivisionError()
            if isz(y): raise Unsupported('integer division by a symbolic divisor')
            if y < 0: raise Unsupported('integer division by a negative divisor')
            return mkint(lift(x)/y if op == '//' else lift(x) % y)
    if op == '**': return spow(a, b)
    x, xp, xn = real3(a); y, yp, yn = real3(b)
    fin = xp is False and xn is False and yp is False and yn is False
    if op == '+':
        if fin: return SReal(x + y)
        # inf - inf would be NaN: kept out by callers; flagged values win
        return mkreal(x + y, zor(xp, yp), zor(xn, yn))
    if op == '-':
        if fin: return SReal(x - y)
        return mkreal(x - y, zor(xp, yn), zor(xn, yp))
    if op == '*':
        if fin: return SReal(rmul(x, y))
        if not isinstance(a, SVal) and a > 0: return mkreal(rmul(x, y), yp, yn)
        if not isinstance(b, SVal) and b > 0: return mkreal(rmul(x, y), xp, xn)
        if not isinstance(a, SVal) and a == -1: return mkreal(-y, yn, yp)
        raise Unsupported('multiplying an infinity')
    if op == '/':
        if yp is False and yn is False:
            if not isinstance(b, SVal) and b == 0: raise Unsupported('division by the constant 0')
            if xp is False and xn is False: return SReal(rdiv(x, y))
            if not isinstance(b, SVal) and b > 0: return mkreal(rdiv(x, y), xp, xn)
            raise Unsupported('dividing an infinity')
        if xp is False and xn is False:
            return SReal(zite(zor(yp, yn), z3.RealVal(0), rdiv(x, y)))
        raise Unsupported('dividing an infinity')
    if op in ('//', '%') and fin:
        raise Unsupported('floor division of reals')
    raise Unsupported('operator %s' % op)
def pyarith(op, a, b):
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a*b
    if op == '/':
        return a/b
    if op == '//': return a//b
    if op == '%': return a % b
    if op == '**': return a**b
RMUL = z3.Function('mul', R, R, R)
def plus_or_minus(x):
    "x or -x: the same for both, of a difference of two named things"
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SUB and x.num_args() == 2:
        a, b = x.arg(0), x.arg(1)
        if z3.is_app(a) and z3.is_app(b) and a.decl().kind() == b.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() > b.decl().name(): return b - a
    return x
def rmul(x, y):
    if x.eq(y): x = y = plus_or_minus(x)
    if z3.is_rational_value(x) or z3.is_rational_value(y): return x*y
    return x*y
def rdiv(x, y):
    return x/y
def spow(a, b):
    if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8 :
        x, xp, xn = real3(a)
        if b == 0: return 1 if isint(a) else 1.
        if b == 1: return a
        if b % 2 == 0 and not isint(a): x = plus_or_minus(x)
        if xp is not False or xn is not False:
            if b % 2 == 0: return mkreal(x*x if b == 2 else x**b, zor(xp, xn))
            return mkreal(x*x*x if b == 3 else x**b, xp, xn)
        if isint(a):
            r = lift(ie(a)); p = r
            for _ in range(b - 1): p = p*r
            return mkint(p)
        p = x
        for _ in range(b - 1): p = p*x
        return SReal(p)
    if isinstance(b, int) and not isinstance(b, bool) and -8 <= b < 0 and not isint(a):
        x, xp, xn = real3(a)
        p = x
        for _ in range(-b - 1): p = p*x
        return SReal(zite(zor(xp, xn), z3.RealVal(0), 1/p))
    r = run()
    if isint(a) and isint(b) and not isinstance(a, bool) and not isinstance(b, bool):
        x, y = lift(ie(a)), lift(ie(b))
        r.safety(y >= 0, 'whole powers of whole numbers')
        intpow(r)
        return mkint(POWI(x, y))
    powaxioms(r)
    x, xp, xn = real3(a); y, yp, yn = real3(b)
    if xp is False and xn is False and yp is False and yn is False and isint(b): intpow(r)
    if not (yp is False and yn is False): raise Unsupported('infinite exponent')
    if xp is False and xn is False: return SReal(POWR(x, y))
    # inf**y: 0 for y < 0, inf for y > 0, 1 for 0
    isinf = xp
    if xn is not False: raise Unsupported('power of minus infinity')
    neg = sure(y < 0); pos = sure(y > 0)
    if neg is True: pos = False
    return mkreal(zite(isinf, zite(neg, z3.RealVal(0), z3.RealVal(1)), POWR(x, y)), zand(isinf, pos))

def sure(c):
    "a condition, or what it is known to be"
    c = simp(c); r = run()
    if not isz(c): return c
    if r.engine.quick(r, c): return True
    if r.engine.quick(r, z3.Not(c)): return False
    return c
def compare(op, a, b):
    if isz(a): a = wrap(a)
    if isz(b): b = wrap(b)
    if isarr(a) or isarr(b): return NotImplemented
    if type(a).__name__ == 'ndarray' or type(b).__name__ == 'ndarray': return NotImplemented
    a, b = nat(a), nat(b)
    if not (isnum(a) and isnum(b)):
        if op == '==': return False
        return NotImplemented
    if isint(a) and isint(b):
        x, y = ie(a), ie(b)
        if not isz(x) and not isz(y): return pycmp(op, x, y)
        x, y = lift(x), lift(y)
        return mkbool(simp(cmpz(op, x, y)))
    x, xp, xn = real3(a); y, yp, yn = real3(b)
    if xp is False and xn is False and yp is False and yn is False:
        return mkbool(simp(cmpz(op, x, y)))
    xf, yf = znot(zor(xp, xn)), znot(zor(yp, yn))
    lt = zor(zand(xn, znot(yn)), zand(yp, znot(xp)), zand(xf, yf, x < y))
    eq = zor(zand(xp, yp), zand(xn, yn), zand(xf, yf, x == y))
    gt = zor(zand(yn, znot(xn)), zand(xp, znot(yp)), zand(xf, yf, x > y))
    r = {'<': lambda: lt, '>': lambda: gt, '==': lambda: eq,
         '<=': lambda: zor(lt, eq), '>=': lambda: zor(gt, eq)}[op]()
    return mkbool(simp(r))
def cmpz(op, x, y):
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y}[op]()
def pycmp(op, x, y):
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y}[op]()

def select(c, a, b):
    "the value a where c, b elsewhere (scalars)"
    c = tobool(c)
    if c is True: return a
    if c is False: return b
    return merge(c, a, b)

def merge(c, a, b):
    "ite over arbitrary values of the same structure; c a z3 Bool"
    if a is b: return a
    if c is True: return a
    if c is False: return b
    import arr, coll
    if isinstance(a, (SVal, bool, int, float)) and isinstance(b, (SVal, bool, int, float)) or (isnum(a) and isnum(b)):
        a, b = nat(a), nat(b)
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            if isinstance(a, SOpaque) and isinstance(b, SOpaque): return SOpaque(zite(c, a.e, b.e))
            raise Unsupported('merging opaque and number')
        ab, bb = isinstance(a, (bool, SBool)), isinstance(b, (bool, SBool))
        if ab and bb: return mkbool(simp(z3.If(c, zb(tobool(a)), zb(tobool(b)))))
        if isint(a) and isint(b): return mkint(zite(c, ie(a), ie(b)))
        if not isinstance(a, SVal) and not isinstance(b, SVal) and a == b: return a
        x, xp, xn = real3(a); y, yp, yn = real3(b)
        return mkreal(zite(c, x, y), simp(zite(c, xp, yp)), simp(zite(c, xn, yn)))
    if isinstance(a, arr.SArr) and isinstance(b, arr.SArr): return arr.merge_arr(c, a, b)
    if isinstance(a, arr.SRec) and isinstance(b, arr.SRec): return arr.merge_rec(c, a, b)
    if a is None and b is None: return None
    if type(a) != type(b): raise Unsupported('merging %s and %s' % (type(a).__name__, type(b).__name__))
    if isinstance(a, str):
        if a == b: return a
        import strs
        if strs.has(a) and strs.has(b): return strs.merge(c, a, b)
        raise Unsupported('merging strings')
    if isinstance(a, tuple) and len(a) == len(b): return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, coll.SList): return coll.merge_list(c, a, b)
    if isinstance(a, dict) and list(a) == list(b):
        r = type(a)()
        for k in a: dict.__setitem__(r, k, merge(c, a[k], b[k]))
        return r
    if isinstance(a, (types.FunctionType, type, types.ModuleType)):
        if a == b: return a
        if isinstance(a, types.FunctionType) and a.__code__ is b.__code__: return a
        raise Unsupported('merging functions')
    if isinstance(a, types.MethodType):
        if a.__func__.__code__ is b.__func__.__code__: return a
        raise Unsupported('merging methods')
    if hasattr(a, '__dict__'):
        if a.__dict__.keys() != b.__dict__.keys(): raise Unsupported('merging objects of different attributes')
        new = object.__new__(type(a))
        return rebuild(new, {k: (a.__dict__[k], merge(c, a.__dict__[k], b.__dict__[k])) for k in a.__dict__}, a)
    raise Unsupported('merging %s' % type(a).__name__)

def rebuild(new, vals, old):
    for k, (o, v) in vals.items():
        if isinstance(o, types.MethodType) and o.__self__ is old: v = types.MethodType(o.__func__, new)
        new.__dict__[k] = v
    return new

def subst(v, pairs, memo=None):
    "the value v with constants replaced by terms: v(i := t)"
    import arr, coll
    if memo is None: memo = {}
    if type(v) is str and '\ue000' in v:
        import strs
        return strs.subst(v, pairs, memo)
    if v is None or isinstance(v, (bool, int, float, str, type, types.ModuleType, types.BuiltinFunctionType)): return v
    if id(v) in memo: return memo[id(v)][0]
    def keep(x):
        memo[id(v)] = (x, v)
        return x
    if isinstance(v, SInt): return keep(mkint(substz(v.e, pairs)))
    if isinstance(v, SReal): return keep(SReal(substz(v.e, pairs), substz(v.pinf, pairs), substz(v.ninf, pairs)))
    if isinstance(v, SBool): return keep(mkbool(substz(v.e, pairs)))
    if isinstance(v, SOpaque): return keep(SOpaque(substz(v.e, pairs)))
    if isz(v): return substz(v, pairs)
    if isinstance(v, tuple): return tuple(subst(x, pairs, memo) for x in v)
    if hasattr(v, 'vc_subst'): return keep(v.vc_subst(pairs, memo))
    if isinstance(v, dict):
        r = type(v)()
        memo[id(v)] = (r, v)
        for k, x in dict.items(v): dict.__setitem__(r, k, subst(x, pairs, memo))
        if isinstance(v, coll.SDict) and v.log is not None: r.log = subst(v.log, pairs, memo)
        return r
    if isinstance(v, list): return keep([subst(x, pairs, memo) for x in v])
    if isinstance(v, types.MethodType):
        return types.MethodType(v.__func__, subst(v.__self__, pairs, memo))
    if isinstance(v, types.FunctionType):
        for c in v.__closure__ or ():
            try: x = c.cell_contents
            except ValueError: continue
            if isinstance(x, SVal) or isz(x): raise Unsupported('a closure over a symbolic value, in a loop')
        return v
    if hasattr(v, '__dict__') and not hasattr(v, 'vc_static'):
        new = object.__new__(type(v))
        memo[id(v)] = (new, v)
        for k, x in v.__dict__.items(): new.__dict__[k] = subst(x, pairs, memo)
        return new
    return v
