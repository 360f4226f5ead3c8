"""Symbolic numpy arrays: a shape (concrete or symbolic dimensions) and an element
function from index terms to values. Views share the storage they view, writes go
through. Selections by boolean arrays, sorts and searches introduce functions with
axioms (their numpy contracts); these are the trusted contracts on numpy."""
import builtins
import z3
from core import *
from vals import *
import vals

# ------------------------------------------------------------------ types
class NPType:
    "np.int64 and the like: a type object which casts"
    def __init__(s, name, kind): s.name, s.kind, s.__name__ = name, kind, name
    def __call__(s, x=0):
        if isinstance(x, (SArr, list, tuple)) or type(x).__name__ == 'SList': return asarr(x).astype(s)
        return castto(x, dtype(s))
    def __repr__(s): return 'np.' + s.name
    vc_static = True
TYPES = {n: NPType(n, k) for n, k in dict(int64='i', int32='i', int16='i', int8='i', uint8='i', intp='i', uint64='i', float64='f', float32='f', bool='b', object='o', data='d', void='r').items()}
class DT:
    vc_static = True
    def __init__(s, name, kind, fields=None, shape=()):
        s.name, s.kind, s.fields, s.shape = name, kind, fields, shape
        s.names = tuple(fields) if fields is not None else None
        s.type = TYPES.get(name)
        s.base = s
        s.itemsize = 8
    def __eq__(s, o):
        try: o = dtype(o)
        except Unsupported: return False
        return s.name == o.name and s.shape == o.shape and ((s.fields is None) == (o.fields is None)) and (s.fields is None or (list(s.fields) == list(o.fields) and all(s.fields[k][0] == o.fields[k][0] for k in s.fields)))
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((s.name, s.shape))
    def __repr__(s): return 'dtype(%s%s)' % (s.name, s.shape or '')
    def __getitem__(s, k): return s.fields[k][0]
    @property
    def descr(s): return [(k,) + ((v[0].name, v[0].shape) if v[0].shape else (v[0].name,)) for k, v in s.fields.items()]
_DT = {}
def dtype(x, shape=()):
    if isinstance(x, DT):
        return x if not shape else DT(x.name, x.kind, x.fields, tuple(shape))
    name = None
    if isinstance(x, NPType): name = x.name
    elif x is int or x is VInt: name = 'int64'
    elif x is float or x is VFloat: name = 'float64'
    elif x is bool or x is VBool: name = 'bool'
    elif x is None: name = 'float64'
    elif x is object: name = 'object'
    elif isinstance(x, str):
        t = x.lstrip('<>=|')
        if t and t[0].isdigit():
            k = ''.join(c for c in t if c.isdigit())
            num = ''
            while t and (t[0].isdigit()): num += t[0]; t = t[1:]
            if num != '1': return dtype(t, (int(num),))
        name = {'i': 'int64', 'f': 'float64', 'd': 'float64', 'b': 'bool', '?': 'bool', 'i8': 'int64', 'i4': 'int32', 'f8': 'float64', 'f4': 'float32', 'data': 'data', 'int': 'int64', 'float': 'float64', 'O': 'object', 'o': 'object'}.get(t, t if t in TYPES else None)
    elif isinstance(x, (list, tuple)) or type(x).__name__ == 'SList':
        if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], (tuple, str)) :
            return dtype(x[0], x[1] if isinstance(x[1], tuple) else (x[1],))
        fields = {}
        for f in x:
            f = tuple(f)
            sh = f[2] if len(f) > 2 else ()
            if not isinstance(sh, tuple): 
                sh = (sh,)
            fields[f[0]] = (dtype(f[1], tuple(sh)) if len(sh) else dtype(f[1]), len(fields))
        return DT('void', 'r', fields)
    elif hasattr(x, 'dtype') and isinstance(x.dtype, DT): return x.dtype
    elif type(x).__module__ == 'numpy' or (isinstance(x, type) and x.__module__ == 'numpy'):
        import numpy
        return dtype(numpy.dtype(x).name)
    if name is None: raise Unsupported('dtype %r' % (x,))
    k = (name, tuple(shape))
    if k not in _DT: _DT[k] = DT(name, TYPES[name].kind, None, tuple(shape))
    return _DT[k]
class VInt: pass
class VFloat: pass
class VBool: pass

def cast(v, kind):
    "numpy's astype on one element"
    v = nat(v)
    if kind == 'i':
        if isinstance(v, (bool, SBool)): return toint(v)
        if isinstance(v, (int, SInt)): return v
        if isinstance(v, float): return int(v)
        if isinstance(v, SReal):
            e = v.e
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: return mkint(e.arg(0))
            x = z3.simplify(e)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return mkint(x.arg(0))
            return mkint(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
    if kind == 'f':
        if isinstance(v, float): return v
        if isinstance(v, (bool, int)): return float(v)
        if isinstance(v, SReal): return v
        return SReal(real3(v)[0])
    if kind == 'b': return mkbool(tobool(v))
    if kind in 'od': return v
    raise Unsupported('cast of %r to %s' % (type(v), kind))
F32 = z3.Function('float32', R, R)
NARROW = dict(int32=(-2**31, 2**31), int16=(-2**15, 2**15), int8=(-128, 128), uint8=(0, 256), uint64=(0, 2**64))
def castto(v, dt, src=None):
    "element of dtype src stored in dtype dt: narrow types do not hold every value"
    v = cast(v, dt.kind)
    if src is not None and src.name == dt.name: return v
    if dt.name == 'float32' and not (src is not None and src.kind == 'b'):
        if isinstance(v, float):
            import numpy
            if v != v or float(numpy.float32(v)) == v: return v
        x, p, n = real3(v)
        x = lift(x) if not isz(x) else x
        if z3.is_app(x) and x.decl().eq(F32): return v
        return mkreal(F32(x if x.sort() == R else z3.ToReal(x)), p, n)
    if dt.name in NARROW and not (src is not None and (src.kind == 'b' or (src.kind == 'i' and src.name in NARROW and NARROW[src.name][0] >= NARROW[dt.name][0] and NARROW[src.name][1] <= NARROW[dt.name][1]))):
        lo, hi = NARROW[dt.name]
        if isinstance(v, int):
            if lo <= v < hi: return v
            return (v - lo) % (hi - lo) + lo
        e = ie(v)
        return mkint(z3.If(z3.And(e >= lo, e < hi), e, z3.Function('wrap_' + dt.name, I, I)(e)))
    return v
def kindof(v):
    v = nat(v)
    if isinstance(v, (bool, SBool)): return 'b'
    if isinstance(v, (int, SInt)): return 'i'
    if isinstance(v, (float, SReal)): return 'f'
    if isinstance(v, SOpaque): return 'd'
    return 'o'
KDT = lambda k: dtype({'b': 'bool', 'i': 'int64', 'f': 'float64', 'o': 'object', 'd': 'data'}[k])
def join_kind(a, b):
    o = 'bif'
    if a in o and b in o: return o[max(o.index(a), o.index(b))]
    return 'd' if 'd' in (a, b) else 'o'
def join_dt(a, b):
    if a == b: return a
    if a.kind == b.kind:
        return a if '64' in a.name else b
    if join_kind(a.kind, b.kind) == 'f' and {a.name, b.name} == {'float32', 'bool'}: return dtype('f4')
    return KDT(join_kind(a.kind, b.kind))

# ------------------------------------------------------------------ dims
def dim(x):
    x = nat(x)
    if isinstance(x, SInt): return dimsimp(x.e)
    if isinstance(x, SReal):
        raise Unsupported('float dimension')
    if isz(x): return dimsimp(x)
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    raise Unsupported('dimension %r' % (x,))
def pdim(d): return SInt(d) if isz(d) else d
def dims(shape):
    if type(shape).__name__ == 'SList': shape = tuple(shape)
    if isinstance(shape, (tuple, list)): return tuple(dim(x) for x in shape)
    return (dim(shape),)
def dadd(a, b):
    return dimsimp(lift(a) + b if isz(a) or isz(b) else a + b)
def dsub(a, b): return dimsimp(lift(a) - b if isz(a) or isz(b) else a - b)
def dmul(a, b):
    return dimsimp(lift(a)*b if isz(a) or isz(b) else a*b)
def deq(a, b): return simp(zeq(a, b))
def same_dim(a, b, what='equal dimensions'):
    c = deq(a, b)
    if c is True: return True
    if c is False: return False
    run().safety(c, what)
    return True
def tadd(a, b):
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    if not isz(a) and not isz(b): return a + b
    return dimsimp(lift(a) + lift(b))
def within(i, n):
    "0 <= i < n as raw bool"
    return zand(zcmp('<=', 0, i), zcmp('<', i, n))
def zcmp(op, a, b):
    if not isz(a) and not isz(b): return pycmp(op, a, b)
    return simp(cmpz(op, lift(a), lift(b)))

# ------------------------------------------------------------------ storage
class Store:
    def __init__(s, shape, fn):
        s.shape, s._fn = shape, fn
        s.journal = []
        s.oid = run().newid(s)
        s.memo = {}
        s.version = 0
        s.static = False; s.sealed = False
    def fn(s, idx):
        key = tuple(x.get_id() if isz(x) else ('c', x) for x in idx)
        h = s.memo.get(key)
        if h is None:
            v = s._fn(*idx)
            s.memo[key] = (v, idx)
            return v
        return h[0]
    def write(s, cond, val):
        """for all idx with cond(idx): element = val(idx)"""
        r = run(); r.alive()
        if s.sealed: raise Unsupported('writing into a selection by a mask')
        if s.static: raise Unsupported('writing to an input that the contract says is only read')
        old = s.snapshot()
        if r.frames and s.oid <= r.frames[-1].oid0 or any(s.oid <= f.oid0 for f in r.frames):
            s.journal.append((len(r.taken), cond, val))
        def fn(*idx):
            c = simp(cond(*idx))
            if c is True: return val(*idx)
            if c is False: return old(idx)
            return merge(c, val(*idx), old(idx))
        s._fn = fn; s.memo = {}; s.version += 1
    def snapshot(s):
        "the present element function, unaffected by later writes"
        f, memo = s._fn, s.memo
        def get(idx):
            key = tuple(x.get_id() if isz(x) else ('c', x) for x in idx)
            h = memo.get(key)
            if h is None:
                v = f(*idx)
                memo[key] = (v, idx)
                return v
            return h[0]
        return get
    def take_effect(s, frame):
        es = [(c, v) for p, c, v in s.journal if p >= frame.dec0]
        return ('write', es) if es else None
    def apply_summary(s, summ, lo, hi):
        "the writes of all iterations lo <= i < hi"
        i = summ.idx
        r = run()
        per = []
        for b in summ.ends:
            ef = b.effects.get(s.oid)
            for c, v in (ef[1] if ef else []): per.append((b.pc, c, v))
        if not per: return
        nd = len(s.shape)
        # direct case: the first index written is i + const
        q = [z3.Int('w_%d' % k) for k in range(nd)]
        j0 = q[0]
        def at(t, idx):
            "(condition, value thunk) of iteration t at element idx"
            out = []
            for pc, c, v in per:
                cc = zand(substz(zb(pc), [(i, t)]), subst_raw(c(*idx), [(i, t)]))
                out.append((cc, lambda v=v: subst(v(*idx), [(i, t)])))
            return out
        sol = None
        for pc, c, v in per:
            e = simp(c(*q))
            o = find_offset(e, j0, i)
            if o is None or (sol is not None and not (deq(o, sol) is True)): sol = 'no'; break
            sol = o
        if sol is not None and not isinstance(sol, str):
            def cond(*idx):
                t = dsub(idx[0], sol)
                return zand(zcmp('<=', lo, t), zcmp('<', t, hi), zor(*[c for c, v in at(lift(t), idx)]))
            def val(*idx):
                t = lift(dsub(idx[0], sol))
                parts = at(t, idx)
                res = parts[0][1]()
                for c, v in parts[1:]: res = merge(simp(zb(c)), v(), res)
                return res
            s.write(cond, val)
            return
        # general case: the last iteration that writes the element
        hasw = r.func('haswr', *([I]*nd + [B])); wr = r.func('lastwr', *([I]*nd + [I]))
        q = [r.bound() for _ in range(nd)]; t = r.bound('t')
        wq = wr(*q)
        anyw = lambda tt, idx: zor(*[c for c, v in at(tt, idx)])
        inr = zand(*[within(x, d) for x, d in zip(q, s.shape)])
        r.assume(FA(q, zimp(zand(inr, hasw(*q)), zand(within_lo(wq, lo, hi), anyw(wq, q))), [wq, hasw(*q)]))
        last = zb(zimp(zand(inr, within_lo(t, lo, hi), anyw(t, q)), zand(hasw(*q), t <= wq)))
        gen = z3.ForAll(q + [t], last); r.lastwr[gen.get_id()] = gen; r.assume(gen)
        r.notes.setdefault('lastwr', []).append((nd, lambda tt, *ix: substz(last, list(zip(q, ix)) + [(t, tt)])))
        def cond(*idx): return hasw(*idx)
        def val(*idx):
            parts = at(wr(*idx), idx)
            res = parts[0][1]()
            for c, v in parts[1:]: res = merge(simp(zb(c)), v(), res)
            return res
        s.write(cond, val)

def within_lo(t, lo, hi): return zand(zcmp('<=', lo, t), zcmp('<', t, hi))
def subst_raw(e, pairs): return substz(e, pairs) if isz(e) else e
def find_offset(e, j, i):
    "e implies j == i + c: return c"
    if not isz(e): return None
    conj = []
    st = [e]
    while st:
        x = st.pop()
        if z3.is_and(x): st.extend(x.children())
        else: conj.append(x)
    for x in conj:
        if z3.is_eq(x) and x.arg(0).sort() == I:
            d = dimsimp(x.arg(0) - x.arg(1))
            # d = +-(j - i - c)
            c = dimsimp(z3.substitute(lift(d), (j, i)))
            if isz(c) and (i.decl().name() in consts_of(c) or j.decl().name() in consts_of(c)): continue
            for sgn in (1, -1):
                if dimsimp(lift(d) - sgn*(j - i)) is not None:
                    rest = dimsimp(lift(d) - sgn*(j - i))
                    if isz(rest) and (i.decl().name() in consts_of(rest) or j.decl().name() in consts_of(rest)): continue
                    # sgn*(j - i) + rest == 0  =>  j = i - sgn*rest
                    return dimsimp(-sgn*lift(rest))
    return None

# ------------------------------------------------------------------ arrays
class SArr:
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(s, shape, fn=None, dt=None, store=None, vmap=None, masked=None):
        s.dims = tuple(dimsimp(d) if isz(d) else d for d in shape)
        s.dtype = dtype(dt)
        s.store = store if store is not None else Store(s.dims, fn)
        s.vmap = vmap
        s._masked = masked; s._mver = s.store.version
        if masked is not None and masked.nd: s.store.sealed = True
        s.ptag = None; s.flat2 = None
    # basics
    @property
    def masked(s):
        """what this is a selection of, while nothing has been written into it"""
        m = s._masked
        if m is None or m.nd: return m
        if s._mver != s.store.version or any(s.store.oid <= f.oid0 for f in run().frames): return None
        return m
    @property
    def shape(s): return tuple(pdim(d) for d in s.dims)
    @property
    def ndim(s): return len(s.dims)
    @property
    def size(s):
        p = 1
        for d in s.dims: p = dmul(p, d)
        return pdim(p)
    @property
    def T(s):
        n = len(s.dims)
        vm = s.vmap
        return SArr(tuple(reversed(s.dims)), dt=s.dtype, store=s.store,
            vmap=(lambda *ix: tuple(reversed(ix))) if vm is None else (lambda *ix: vm(*tuple(reversed(ix)))))
    @property
    def A(s): return s
    def __repr__(s): return '<array %s %s>' % (s.dims, s.dtype.name)
    def __hash__(s): return id(s)
    def __len__(s):
        if not s.dims: raise TypeError('len() of unsized object')
        if isz(s.dims[0]): raise Unsupported('native len() of a symbolic array')
        return s.dims[0]
    def vc_len(s):
        if not s.dims: raise TypeError('len() of unsized object')
        return pdim(s.dims[0])
    def reader(s):
        "element function (raw index terms), unaffected by later writes"
        run().note_read(s.store.oid, obj=s.store)
        g = s.store.snapshot()
        vm = s.vmap
        if vm is None: return lambda *ix: g(ix)
        return lambda *ix: g(vm(*ix))
    def at(s, *ix):
        "the element at index terms (no bounds check)"
        ix = tuple(ie(x) for x in ix)
        return s.reader()(*ix)
    def key(s):
        return (s.store.oid, s.store.version, s.vmap, tuple(str(d) for d in s.dims))
    def copy(s, *a):
        r = SArr(s.dims, s.reader(), s.dtype)
        if s.flat2 is not None and s.flat2[2] == s.store.version: r.flat2 = s.flat2[:2] + (r.store.version,)
        return r
    def __copy__(s): return s.copy()
    def __deepcopy__(s, m): return s.copy()
    def vc_subst(s, pairs, memo):
        g = s.reader()
        fvs = [(a, b) for a, b in pairs]
        def fn(*ix):
            # index terms may contain the substituted constant: protect them
            tmp = [z3.FreshInt('sx') if isz(x) else x for x in ix]
            v = subst(g(*tmp), fvs)
            back = [(t, x) for t, x in zip(tmp, ix) if isz(t)]
            return subst(v, back)
        r = SArr(tuple(subst_raw(d, pairs) if isz(d) else d for d in s.dims), fn, s.dtype)
        return r
    def astype(s, t, copy=True):
        t = dtype(t)
        g = s.reader()
        if t.kind == 'r': return s
        if s.masked: return s.mask_map(lambda v: castto(v, t, s.dtype), t)
        return SArr(s.dims, lambda *ix: castto(g(*ix), t, s.dtype), t)
    def tolist(s):
        import coll
        g = s.reader()
        return coll.SList.of(s.dims[0], lambda k: wrapat(g, k))
    def mask_map(s, f, dt):
        m = s.masked
        g = None if m.nd else s.reader()
        return SArr(s.dims, (lambda *ix: f(g(*ix))) if g else nomask, dt, masked=m.with_fn(lambda *ix: f(m.fn(*ix))))
    # arithmetic
    def __add__(s, o): return ew2('+', s, o)
    def __radd__(s, o): return ew2('+', o, s)
    def __sub__(s, o): return ew2('-', s, o)
    def __rsub__(s, o): return ew2('-', o, s)
    def __mul__(s, o): return ew2('*', s, o)
    def __rmul__(s, o): return ew2('*', o, s)
    def __truediv__(s, o): return ew2('/', s, o)
    def __rtruediv__(s, o): return ew2('/', o, s)
    def __floordiv__(s, o): return ew2('//', s, o)
    def __mod__(s, o): return ew2('%', s, o)
    def __pow__(s, o): return ew2('**', s, o)
    def __rpow__(s, o): return ew2('**', o, s)
    def __neg__(s): return ew(lambda x: -x, s)
    def __abs__(s): return ew(lambda x: abs(x), s)
    def _inplace(s, op, o):
        r = ew2(op, s, o)
        if join_kind(s.dtype.kind, r.dtype.kind) != s.dtype.kind: raise TypeError('Cannot cast ufunc output')
        m = s.masked; m2 = r.masked if m is not None else None
        if m is not None and m.nd:
            if m2 is None or any(s.store.oid <= f.oid0 for f in run().frames): raise Unsupported('a selection by a mask, written into')
        else: s[...] = r
        if m is not None:
            k = r.dtype
            s._masked = None if m2 is None else m2.with_fn(lambda *ix: castto(m2.fn(*ix), s.dtype, k)); s._mver = s.store.version
        return s
    def __iadd__(s, o): return s._inplace('+', o)
    def __isub__(s, o): return s._inplace('-', o)
    def __imul__(s, o): return s._inplace('*', o)
    def __itruediv__(s, o): return s._inplace('/', o)
    def __lt__(s, o): return ewc('<', s, o)
    def __le__(s, o): return ewc('<=', s, o)
    def __gt__(s, o): return ewc('>', s, o)
    def __ge__(s, o): return ewc('>=', s, o)
    def __eq__(s, o): return False if o is None else ewc('==', s, o)
    def __ne__(s, o): return True if o is None else ew(lambda x: lnot(x), ewc('==', s, o))
    def __and__(s, o): return ew(lambda x, y: x & y, s, o)
    __rand__ = __and__
    def __or__(s, o): return ew(lambda x, y: x | y, s, o)
    __ror__ = __or__
    def __xor__(s, o): return ew(lambda x, y: x ^ y, s, o)
    def __invert__(s):
        if s.dtype.kind != 'b': raise Unsupported('~ of integers')
        return ew(lambda x: lnot(x), s)
    def __iand__(s, o): s[...] = s & o; return s
    def __ior__(s, o): s[...] = s | o; return s
    def __bool__(s):
        if len(s.dims) == 0 or all(d == 1 for d in s.dims): return bool(s.at(*[0]*len(s.dims)))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __int__(s): raise Unsupported('int of array')
    def __contains__(s, x):
        return bool((s == x).any())
    def __iter__(s):
        if isz(s.dims[0]): raise Unsupported('native iteration over a symbolic array')
        return (s[k] for k in range(s.dims[0]))
    # reductions
    def any(s, axis=None): return reduce_(s, 'any', axis)
    def all(s, axis=None): return reduce_(s, 'all', axis)
    def sum(s, axis=None, keepdims=False): return reduce_(s, 'sum', axis, keepdims)
    def min(s, axis=None): return reduce_(s, 'min', axis)
    def max(s, axis=None): return reduce_(s, 'max', axis)
    def mean(s, axis=None): 
        n = s.dims[0 if axis is None else axis]
        return s.sum(axis)/pdim(n)
    def argmin(s, axis=None): 
        import npm
        return npm.argext(s, axis, '<')
    def argmax(s, axis=None):
        import npm
        return npm.argext(s, axis, '>')
    def nonzero(s):
        import npm
        return npm.nonzero(s)
    def argsort(s, axis=-1, kind=None):
        import npm
        return npm.argsort(s, axis)
    def sort(s, axis=-1, kind=None):
        import npm
        s[...] = npm.sort(s)
    # shape
    def reshape(s, *shape, **kw):
        if len(shape) == 1 and (isinstance(shape[0], (tuple, list)) or type(shape[0]).__name__ == 'SList'): shape = tuple(shape[0])
        return reshape(s, dims(shape))
    def flatten(s, *a): return reshape(s, (-1,)).copy() if not s.masked else s
    def ravel(s, *a): return s.flatten()
    def squeeze(s, axis=None):
        keep = [k for k, d in enumerate(s.dims) if not (not isz(d) and d == 1)]
        if any(isz(s.dims[k]) for k in keep): 
            for k in keep:
                if isz(s.dims[k]) and run().fork(lift(s.dims[k]) == 1): keep = [x for x in keep if x != k]
        vm = s.vmap; nd = len(s.dims)
        def m(*ix):
            full = [0]*nd
            for k, x in zip(keep, ix): full[k] = x
            return tuple(full) if vm is None else vm(*full)
        if not keep: return s.at(*[0]*nd)
        return SArr(tuple(s.dims[k] for k in keep), dt=s.dtype, store=s.store, vmap=m)
    def transpose(s, *a):
        if a: raise Unsupported('transpose with axes')
        return s.T
    def repeat(s, n, axis=None):
        import npm
        return npm.repeat(s, n, axis)
    def take(s, idx, axis=None):
        if axis in (None, 0) : return s[asarr(idx)]
        return s[(slice(None),)*axis + (asarr(idx),)]
    def fill(s, v): s[...] = v
    def item(s, *a): return s.at(*([0]*len(s.dims) if not a else a))
    def dot(s, o):
        import npm
        return npm.dot(s, o)
    def tobytes(s): raise Unsupported('tobytes')
    # indexing
    def __getitem__(s, k): return getitem(s, k)
    def __setitem__(s, k, v): setitem(s, k, v)

def nomask(*ix): raise Unsupported('position in a selection by a many-dimensional mask')
def wrapat(g, k): return g(k)

class Masked:
    """what a 1D array selected by a mask is: the values fn at the positions
    (in row-major order) where mask is true."""
    vc_static = True
    def __init__(s, shape, mask, fn, key): s.shape, s.mask, s.fn, s.key = shape, mask, fn, key; s.nd = len(shape) > 1
    def with_fn(s, fn): return Masked(s.shape, s.mask, fn, s.key)

def asarr(x, dt=None):
    import coll
    if isinstance(x, SArr): return x if dt is None or dtype(dt) == x.dtype else x.astype(dt)
    if isinstance(x, SRec): return x
    x = nat(x)
    if isinstance(x, (bool, int, float, SVal)):
        r = SArr((), lambda: x, KDT(kindof(x)))
        return r if dt is None else r.astype(dt)
    if isinstance(x, coll.SList) and x.sym(): 
        return from_list(x, dt)
    if type(x).__name__ == 'ndarray':
        return asarr(x.tolist(), dt if dt is not None else x.dtype.name)
    if isinstance(x, (list, tuple, range)) or type(x).__name__ in ('SList', 'SSeq'):
        if type(x).__name__ == 'SSeq' and isz(x.n): return from_list(x, dt)
        x = list(x)
        if not x: return SArr((0,), lambda k: 0., dt or 'f')
        if any(v is None or isinstance(v, str) for v in x):
            return SArr((len(x),), lambda k: pick([(lambda v=v: v) for v in x], k), 'object')
        parts = [asarr(v) for v in x]
        sh = parts[0].dims
        for p in parts[1:]:
            if len(p.dims) != len(sh): raise ValueError('setting an array element with a sequence')
            for a, b in zip(p.dims, sh): 
                if not same_dim(a, b, 'rows of an array have one length'): raise ValueError('inhomogeneous shape')
        d = parts[0].dtype
        for p in parts[1:]: d = join_dt(d, p.dtype)
        gs = [p.reader() for p in parts]
        if d.kind == 'f': gs = [(lambda *ix, g=g: cast(g(*ix), 'f')) for g in gs]
        r = SArr((len(parts),) + sh, lambda k, *ix: pick([(lambda g=g: g(*ix)) for g in gs], k), d)
        return r if dt is None else r.astype(dt)
    if hasattr(x, 'vc_array'): return x.vc_array()
    raise Unsupported('array of %r' % type(x))
def pick(thunks, k):
    if not isz(k): return thunks[k]()
    res = thunks[-1]()
    for j in range(len(thunks) - 2, -1, -1): res = merge(k == j, thunks[j](), res)
    return res
def from_list(x, dt=None):
    "np.array of a list of symbolic length"
    import coll
    seq = coll.as_seq(x)
    r = run()
    n = seq.n
    j = z3.Int('el_%s' % r.digest())
    e = seq.get(j)
    if isinstance(e, (tuple,)) or type(e).__name__ == 'SList': e = asarr(e)
    if isinstance(e, SArr):
        sh = e.dims
        for d in sh:
            if isz(d) and 'el_%s' % r.digest() in consts_of(d): 
                t = r.bound()
                raise Unsupported('np.array of rows of varying length')
        def fn(k, *ix):
            v = seq.get(k)
            if isinstance(v, tuple) or type(v).__name__ == 'SList': v = asarr(v)
            return v.reader()(*ix)
        a = SArr((n,) + sh, fn, e.dtype)
    elif isinstance(e, (SVal, bool, int, float)) or isnum(e):
        a = SArr((n,), lambda k: nat(seq.get(k)), KDT(kindof(e)))
    elif e is None or hasattr(e, '__dict__'):
        a = SArr((n,), lambda k: seq.get(k), 'object')
    else: raise Unsupported('np.array of a list of %s' % type(e).__name__)
    return a if dt is None else a.astype(dt)

# ------------------------------------------------------------------ elementwise
def broadcast(shapes):
    nd = max(len(x) for x in shapes)
    out = []
    for k in range(nd):
        cur = None
        for sh in shapes:
            p = k - (nd - len(sh))
            if p < 0: continue
            d = sh[p]
            if not isz(d) and d == 1: 
                if cur is None: cur = 1
                continue
            if cur is None or (not isz(cur) and cur == 1): cur = d
            else:
                if not same_dim(cur, d, 'operands have the same shape'):
                    raise ValueError('operands could not be broadcast together')
                if not isz(d): cur = d
        out.append(cur)
    return tuple(out)
def bmap(sh, out):
    "index map from broadcast shape to own"
    off = len(out) - len(sh)
    one = [not isz(d) and d == 1 for d in sh]
    oone = [not isz(d) and d == 1 for d in out]
    return lambda ix: tuple(0 if one[k] else ix[off + k] for k in range(len(sh)))
def ew(f, *args, dt=None):
    if any(isinstance(a, SRec) for a in args): raise Unsupported('arithmetic on records')
    arrs = [asarr(a) for a in args]
    # selections by one mask combine position by position
    ms = [a.masked for a in arrs if a.masked]
    if ms and any(m.nd for m in ms):
        m0 = [m for m in ms if m.nd][0]
        for a in arrs:
            if a.masked is None and a.dims != (): raise Unsupported('mixing masked selections')
            if a.masked and a.masked.key != m0.key: raise Unsupported('mixing selections of different masks')
            if a.masked and [str(d) for d in getattr(a.masked, 'rest', ())] != [str(d) for d in getattr(m0, 'rest', ())]: raise Unsupported('mixing selected rows of different dimensions')
        gs = [(a.masked.fn if a.masked else (lambda *ix, a=a: a.at())) for a in arrs]
        k = dt or probe(f, arrs)
        return SArr(arrs[[bool(a.masked) for a in arrs].index(True)].dims, nomask, k, masked=m0.with_fn(lambda *ix: f(*[g(*ix) for g in gs])))
    out = broadcast([a.dims for a in arrs])
    gs = [(a.reader(), bmap(a.dims, out)) for a in arrs]
    if out == (): return f(*[g() for g, m in gs])
    k = dt or probe(f, arrs)
    return SArr(out, lambda *ix: f(*[g(*m(ix)) for g, m in gs]), k)
def sample(a):
    k = a.dtype.kind
    if k == 'b': return SBool(z3.Bool('sample_b'))
    if k == 'i': return SInt(z3.Int('sample_i'))
    if k == 'f': return SReal(z3.Real('sample_f'))
    if k == 'd': return SOpaque(z3.Const('sample_d', DATA))
    raise Unsupported('arithmetic on objects')
def probe(f, arrs):
    if any(a.dtype.kind == 'o' for a in arrs): return 'object'
    return KDT(kindof(f(*[sample(a) for a in arrs])))
def ew2(op, a, b):
    a, b = coerce(a), coerce(b)
    if a is None or b is None: raise TypeError('unsupported operand')
    A, B_ = asarr(a), asarr(b)
    k = join_dt(A.dtype, B_.dtype)
    if A.dims == () and k.kind == B_.dtype.kind: k = B_.dtype
    if B_.dims == () and k.kind == A.dtype.kind: k = A.dtype
    if op == '/' : k = k if k.kind == 'f' else KDT('f')
    if k.kind == 'b':
        if op == '-': raise TypeError('numpy boolean subtract')
        if op in '+*': 
            return ew((lambda x, y: x | y) if op == '+' else (lambda x, y: x & y), A, B_, dt='bool')
        k = KDT('i')
    if op == '**' and k.kind == 'i' and not (not isinstance(b, SArr) and isinstance(b, int) and b >= 0):
        raise Unsupported('integer power')
    if k.kind == 'd': raise Unsupported('arithmetic on opaque data')
    return ew(lambda x, y: arith(op, x, y), A, B_, dt=k)
def ewc(op, a, b):
    return ew(lambda x, y: cmpany(op, x, y), a, coerce(b), dt='bool')
def cmpany(op, x, y):
    if op == '==':
        if isinstance(x, SOpaque) or isinstance(y, SOpaque): return x == y
        return compare('==', x, y)
    return compare(op, x, y)
def coerce(b):
    if isinstance(b, (list, tuple)) or type(b).__name__ in ('SList', 'ndarray'): return asarr(b)
    return b

# ------------------------------------------------------------------ compaction
class Comp:
    "the increasing positions at which a 1D mask is true: np.nonzero's contract"
    vc_static = True
    def __init__(s, n, m, r, base='sel'):
        s.n, s.m = n, m
        s.cnt = r.const('cnt', I)
        s.sel = r.func(base, I, I); s.rank = r.func('rank', I, I)
        c, sel, rank = s.cnt, s.sel, s.rank
        M = lambda j: zb(tobool(m(j)))
        k, j, k2 = r.bound('k'), r.bound('j'), r.bound('k')
        r.assume(c >= 0); r.assume(c <= n)
        r.assume(FA(k, zimp(within(k, c), zand(within(sel(k), n), M(sel(k)), rank(sel(k)) == k)), [sel(k)]))
        mj = M(j)
        r.assume(FA(j, zimp(zand(within(j, n), mj), zand(within(rank(j), c), sel(rank(j)) == j)), [rank(j)] + good_pats(mj, j)))
        r.assume(FA([k, k2], zimp(zand(0 <= k, k < k2, k2 < c), sel(k) < sel(k2)), [(sel(k), sel(k2))]))
        r.assume(zimp(c > 0, zand(within(sel(0), n), M(sel(0)), rank(sel(0)) == 0)))
        if not isz(n) and n <= 6:
            r.assume(c == z3.Sum(*[z3.If(M(z3.IntVal(q)), 1, 0) for q in range(n)]) if n > 1 else (c == z3.If(M(z3.IntVal(0)), 1, 0) if n else c == 0))
def good_pats(e, *vs):
    "uninterpreted applications in e directly on the bound variables, as triggers"
    out = []; seen = set()
    names = {v.decl().name() for v in vs}
    st = [e]
    while st:
        x = st.pop()
        if not isz(x) or x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                args = x.children()
                if names <= set().union(*[consts_of(a) for a in args]) and patok(x) and simple_args(x, names): 
                    out.append(x)
            st.extend(x.children())
    return out[:3]
def simple_args(x, names):
    "bound variables occur only as direct arguments of uninterpreted functions"
    if z3.is_const(x): return True
    if x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return not (consts_of(x) & names)
    return all(simple_args(a, names) for a in x.children())
def comp_of(mask):
    "the (shared) Comp of a 1D boolean array"
    r = run()
    n = mask.dims[0]
    m = mask.reader()
    return comp_fn(n, m, mask.key())
def comp_fn(n, m, key=None):
    r = run()
    dep = len(r.frames)
    for c, k, e, j, fr, sc in r.comps:
        if k is not None and k == key and sc <= r.scopes and fr == r.frames[:len(fr)]: return c
    j = z3.Int('comp_j')
    e = simp(zb(tobool(m(j))))
    e = zb(e)
    if z3.is_true(e) or r.engine.quick(r, z3.Implies(z3.And(j >= 0, j < n), e)): return IdComp(n, m)
    for c, k, e2, j2, fr, sc in r.comps:
        if sc <= r.scopes and fr == r.frames[:len(fr)] and e2.eq(e) and deq(c.n, n) is True: return c
    for c, k, e2, j2, fr, sc in r.comps:
        if sc <= r.scopes and fr == r.frames[:len(fr)]:
            if deq(c.n, n) is False: continue
            if r.engine.quick(r, z3.And(zb(zeq(c.n, n)), z3.Implies(z3.And(j >= 0, j < n), e == e2))): return c
    c, cond = family_view(n, m, e, j)
    if c is None:
        c = Comp(n, m, r)
        for g, v in cond:
            # of two selections by the same mask the positions are the same
            k = r.bound('k')
            r.assume(zimp(g, c.cnt == v.cnt))
            r.assume(FA(k, zimp(zand(g, within(k, c.cnt)), c.sel(k) == v.sel(k)), [c.sel(k), v.sel(k)]))
            r.assume(FA(k, zimp(zand(g, within(k, n)), c.rank(k) == v.rank(k)), [c.rank(k)])) if False else None
    r.comps.append((c, key, e, j, list(r.frames), r.scopes))
    return c
class IdComp:
    "the selection of everything"
    vc_static = True; view = True
    def __init__(s, n, m):
        s.n, s.m, s.cnt = n, m, lift(n)
        s.sel = s.rank = lambda k: lift(k)
class CompView:
    "the selection made in an iteration of a past loop: that of the same mask"
    vc_static = True; view = True
    def __init__(s, n, m, c, sub):
        s.n, s.m = n, m
        def at(f):
            ix = [substz(x, sub) for x in f.ix]
            return lambda *a: f.decl(*(ix + [lift(x) for x in a]))
        s.cnt = substz(c.cnt, sub); s.sel = at(c.sel); s.rank = at(c.rank)
def match(p, t, vs, out):
    "structural match of p against t, binding the constants named in vs"
    if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.decl().name() in vs:
        nm = p.decl().name()
        if nm in out: return out[nm].eq(t)
        out[nm] = t; return True
    if p.eq(t): return True
    if z3.is_quantifier(p) or z3.is_quantifier(t) or p.num_args() != t.num_args() or not p.decl().eq(t.decl()) or p.num_args() == 0: return False
    o = dict(out)
    if all(match(a, b, vs, o) for a, b in zip(p.children(), t.children())): out.update(o); return True
    if p.num_args() == 2 and p.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_MUL):
        o = dict(out); a, b = p.children(); c, d = t.children()
        if match(a, d, vs, o) and match(b, c, vs, o): out.update(o); return True
    return False
def apps(e):
    "applications of functions in a term"
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        if not isz(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st.extend(x.children())
    return out
def family_view(n, m, e, j):
    r = run(); cond = []
    for c, e2, j2, ixs in reversed(r.families):
        vs = {i.decl().name() for i, *_ in ixs}
        if deq(c.n, n) is False: continue
        cands = []
        o = {}
        if match(e2, e, vs, o): cands.append(o)
        o = {}
        if isz(c.n) and isz(n) and not c.n.eq(n): match(c.n, n, vs, o)
        if not cands:
            # from the parts of the masks
            for p in apps(e2):
                if not consts_of(p) & vs: continue
                for t in apps(e):
                    if t.decl().eq(p.decl()):
                        o = {}
                        if match(p, t, vs, o) and set(o) >= vs and not any(j.decl().name() in consts_of(v) for v in o.values()) and not any(all(x[k].eq(o[k]) for k in vs) for x in cands): cands.append(o)
            cands = cands[:4]
            if cands: cands.append({})
        sv = [x for v in r.scopevars[:1] for x in (v, v + 1, v - 1)]
        if not cands or len(cands[-1]) < len(vs):
            base = cands.pop() if cands else {}
            free = sorted(vs - set(base))
            if len(free) <= 2:
                import itertools
                for t in itertools.product(sv, repeat=len(free)): cands.append(dict(base, **dict(zip(free, t))))
        for o in cands:
            if set(o) < vs: continue
            o = {k: v for k, v in o.items() if k in vs}
            if any(j.decl().name() in consts_of(v) for v in o.values()): continue
            sub = [(i, o[i.decl().name()]) for i, *_ in ixs]
            if not all(v.sort() == I for _, v in sub): continue
            pre = zand(*[within_lo(o[i.decl().name()], subst_raw(lo, sub), subst_raw(hi, sub)) for i, lo, hi, pc in ixs])
            pcs = simp(zb(zand(*[substz(zb(pc), sub) for i, lo, hi, pc in ixs])))
            n2 = subst_raw(c.n, sub)
            ee = zb(substz(e2, sub))
            if pcs is False: continue
            g = zand(pre, zimp(pcs, zand(zeq(n2, n), zimp(z3.And(j >= 0, j < n), e == ee))))
            if g is False: continue
            if r.engine.quick(r, zb(g)):
                v = CompView(n, m, c, sub)
                if pcs is True or r.engine.quick(r, pcs): return v, ()
                cond.append((pcs, v)); break
    return None, cond

# ------------------------------------------------------------------ indexing
def norm_int(k, n, what='index in bounds'):
    k = ie(k)
    if not isz(k):
        if k >= 0:
            c = zcmp('<', k, n)
            if c is False: raise IndexError('index %s is out of bounds' % k)
            if c is not True: run().safety(c, what)
            return k
        c = zcmp('>=', dadd(n, k), 0)
        if c is False: raise IndexError('index %s is out of bounds' % k)
        if c is not True: run().safety(c, what)
        return dadd(n, k)
    r = run()
    r.safety(zand(zcmp('>=', k, -lift(n) if isz(n) else -n), zcmp('<', k, n)), what)
    if r.engine.quick(r, k >= 0): return k
    if r.engine.quick(r, k < 0): return dadd(n, k)
    return dimsimp(z3.If(k >= 0, k, k + n))
def clampidx(k, n, default):
    "slice bound"
    if k is None: return default
    k = ie(k)
    if not isz(k) and not isz(n):
        if k < 0: k = max(k + n, 0)
        return min(k, n)
    r = run()
    if not isz(k):
        if k >= 0:
            if k == 0: return 0
            if r.engine.quick(r, zb(zcmp('<=', k, n))): return k
            return dimsimp(z3.If(lift(n) < k, lift(n), z3.IntVal(k)))
        if r.engine.quick(r, zb(zcmp('>=', dadd(n, k), 0))): return dadd(n, k)
        return dimsimp(z3.If(lift(n) + k < 0, z3.IntVal(0), lift(n) + k))
    e = k
    if not r.engine.quick(r, k >= 0):
        e = z3.If(k < 0, z3.If(k + n < 0, z3.IntVal(0), k + n), k)
    elif r.engine.quick(r, k <= n): return dimsimp(k)
    if r.engine.quick(r, zand(e <= n, e >= 0)): return dimsimp(e)
    return dimsimp(z3.If(e > n, lift(n), e))
def slice_of(sl, n):
    "(start, length, step) of a slice over n items"
    step = 1 if sl.step is None else nat(sl.step)
    if not isinstance(step, int): raise Unsupported('symbolic slice step')
    r = run()
    if step == 1:
        a = clampidx(sl.start, n, 0); b = clampidx(sl.stop, n, n)
        ln = dsub(b, a)
        if isz(ln):
            if not r.engine.quick(r, ln >= 0): ln = dimsimp(z3.If(ln < 0, z3.IntVal(0), ln))
        else: ln = max(ln, 0)
        return a, ln, 1
    if step == -1:
        if sl.start is None and sl.stop is None: return dsub(n, 1), n, -1
        if not isz(n) and not isinstance(sl.start, SVal) and not isinstance(sl.stop, SVal):
            x = range(n)[sl]; return (x[0] if len(x) else 0), len(x), -1
    if not isz(n) and not isinstance(sl.start, SVal) and not isinstance(sl.stop, SVal):
        x = range(n)[sl]; return (x[0] if len(x) else 0), len(x), step
    if step > 1:
        a = clampidx(sl.start, n, 0); b = clampidx(sl.stop, n, n)
        ln = dimsimp(z3.If(lift(b) > a, (lift(b) - a + step - 1)/step, z3.IntVal(0)))
        return a, ln, step
    raise Unsupported('slice step %d' % step)

def parse_key(a, key):
    """-> (out dims, map out idx -> own idx, adv) for an indexing expression."""
    import coll
    if not isinstance(key, tuple): key = (key,)
    key = [coerce_key(k) for k in key]
    nd = len(a.dims)
    used = sum(0 if k is None or k is Ellipsis else (len(k.dims) if isinstance(k, SArr) and k.dtype.kind == 'b' else 1) for k in key)
    if used > nd: raise IndexError('too many indices for array')
    if Ellipsis in [k for k in key if k is None or k is Ellipsis]:
        p = [n for n, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + [slice(None)]*(nd - used) + key[p+1:]
    else: key = key + [slice(None)]*(nd - used)
    return key
def coerce_key(k):
    k = nat(k)
    if isinstance(k, SArr):
        if k.dims == (): return k.at()
        return k
    if isinstance(k, (list, tuple)) or type(k).__name__ in ('SList', 'ndarray', 'range'):
        x = asarr(k)
        if x.dims[0:1] == (0,): x = x.astype('i')
        return x
    if isinstance(k, (SReal, float)): raise IndexError('only integers, slices... are valid indices')
    return k

def mask_key(mask): return mask.key()

def getitem(a, key):
    if isinstance(key, str): raise IndexError('only integers, slices... are valid indices')
    ck = coerce_key(key) if not isinstance(key, tuple) else key
    # many-dimensional mask
    if isinstance(ck, tuple) and len(ck) == 1: ck = coerce_key(ck[0])
    if isinstance(ck, SArr) and ck.dtype.kind == 'b':
        return get_mask(a, ck)
    key = parse_key(a, key)
    adv = [k for k in key if isinstance(k, SArr)]
    if a.masked and a.masked.nd: raise Unsupported('indexing a masked selection')
    if not adv:
        return basic_get(a, key)
    if len(adv) == 1 and adv[0].masked is not None and adv[0].masked.nd and isinstance(key[0], SArr):
        # data[idx[mask]]: positionwise
        ix = adv[0].masked; g = a.reader(); rest = a.dims[1:]
        if builtins.any(not (isinstance(k, slice) and k == slice(None)) for k in key[1:]): raise Unsupported('indexing by a masked selection and others')
        q = [run().bound('ix') for _ in ix.shape]; vq = lift(ie(ix.fn(*q)))
        run().safety(FA(q, zimp(zand(*[within(x, d) for x, d in zip(q, ix.shape)], tobool(ix.mask(*q))), within(vq, a.dims[0]))), 'index array in bounds (negative indices not followed)')
        if len(a.dims) > 1:
            return SArr(adv[0].dims + rest, nomask, a.dtype, masked=TailMasked(ix, lambda *q: g(ix.fn(*q[:len(ix.shape)]).__class__ and ie(ix.fn(*q[:len(ix.shape)])), *q[len(ix.shape):]), rest))
        return SArr(adv[0].dims, nomask, a.dtype, masked=ix.with_fn(lambda *q: g(ie(ix.fn(*q)))))
    outd, m = adv_map(a, key)
    g = a.reader()
    return SArr(outd, lambda *ix: g(*m(ix)), a.dtype)

class TailMasked(Masked):
    def __init__(s, m, fn, rest): Masked.__init__(s, m.shape, m.mask, fn, m.key); s.rest = rest; s.nd = True
    def with_fn(s, fn): return TailMasked(s, fn, s.rest)

def basic_get(a, key):
    outd = []; plan = []; p = 0
    for k in key:
        if k is None: outd.append(1); continue
        n = a.dims[p]
        if isinstance(k, slice):
            st, ln, step = slice_of(k, n)
            plan.append(('s', len(outd), st, step)); outd.append(ln)
        elif isinstance(k, (SBool, bool)): raise Unsupported('boolean scalar index')
        else: plan.append(('i', norm_int(k, n)))
        p += 1
    def m(*ix):
        out = []
        for q in plan:
            if q[0] == 'i': out.append(q[1])
            else:
                _, d, st, step = q
                x = ix[d]
                out.append(tadd(st, x) if step == 1 else dimsimp(lift(st) + step*lift(x)))
        return tuple(out)
    if not outd:
        return a.reader()(*m())
    vm = a.vmap
    full = (lambda *ix: m(*ix)) if vm is None else (lambda *ix: vm(*m(*ix)))
    if a.store.static: pass
    return SArr(tuple(outd), dt=a.dtype, store=a.store, vmap=full)

def as_index(k, n):
    "an index array (raw term function) from an integer or boolean 1D array"
    if k.dtype.kind == 'b':
        if len(k.dims) != 1: raise Unsupported('mask of many dimensions among other indices')
        if not same_dim(k.dims[0], n, 'a mask has the length of what it selects from'): raise IndexError('boolean index did not match')
        c = comp_of(k)
        return (dimsimp(c.cnt),), (lambda *q: c.sel(q[0]))
    if k.dtype.kind != 'i':
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    g = k.reader()
    r = run()
    if all(not isz(d) for d in k.dims):
        import itertools
        for q in itertools.product(*[range(d) for d in k.dims]):
            v = ie(g(*q)); norm_bounds(v, n)
    else:
        q = [r.bound('ix') for _ in k.dims]
        v = lift(ie(g(*q)))
        inr = zand(*[within(x, d) for x, d in zip(q, k.dims)])
        r.safety(FA(q, zimp(inr, zand(v >= (-lift(n)), v < n))), 'index array in bounds')
    def f(*ix):
        v = ie(g(*ix))
        if not isz(v): return v if v >= 0 else dadd(n, v)
        return v
    neg = True
    if all(not isz(d) for d in k.dims) or nonneg(k, g):
        return k.dims, f
    def f2(*ix):
        v = lift(ie(g(*ix)))
        return z3.If(v < 0, v + n, v)
    return k.dims, f2
def nonneg(k, g):
    r = run()
    q = [r.bound('ix') for _ in k.dims]
    v = lift(ie(g(*q)))
    inr = zand(*[within(x, d) for x, d in zip(q, k.dims)])
    return r.engine.quick(r, z3.Implies(zb(inr), v >= 0))
def norm_bounds(v, n):
    c = zand(zcmp('>=', v, -lift(n) if isz(n) else -n), zcmp('<', v, n))
    if c is False: raise IndexError('index out of bounds')
    if c is not True: run().safety(c, 'index array in bounds')

def adv_map(a, key):
    "mixed basic and advanced indexing"
    p = 0; own = []     # per own dim: ('i', t) ('s', st, ln, step) ('a', dims, f)
    order = []          # positions in key of result dims: 'new', own idx
    for k in key:
        if k is None: order.append(('new',)); continue
        n = a.dims[p]
        if isinstance(k, slice):
            st, ln, step = slice_of(k, n); own.append(('s', st, ln, step)); order.append(('s', p))
        elif isinstance(k, SArr):
            d, f = as_index(k, n); own.append(('a', d, f)); order.append(('a', p))
        else:
            own.append(('i', norm_int(k, n))); order.append(('i', p))
        p += 1
    advp = [o[1] for o in order if o[0] == 'a']
    bd = broadcast([own[q][1] for q in advp])
    # numpy: integers mixed with advanced indices count as advanced
    pos = [n for n, o in enumerate(order) if o[0] in 'ai' and o[0] != 'new']
    contiguous = all(order[n][0] in ('a', 'i') for n in range(pos[0], pos[-1] + 1))
    outd = []; place = {}; advat = None
    if not contiguous: advat = 0; outd.extend(bd)
    for n, o in enumerate(order):
        if o[0] == 'new': outd.append(1)
        elif o[0] == 's': place[o[1]] = len(outd); outd.append(own[o[1]][2])
        elif contiguous and advat is None and n == pos[0]: advat = len(outd); outd.extend(bd)
    maps = {q: bmap(own[q][1], bd) for q in advp}
    nb = len(bd)
    def m(ix):
        ai = ix[advat:advat + nb]
        out = []
        for q, o in enumerate(own):
            if o[0] == 'i': out.append(o[1])
            elif o[0] == 's':
                x = ix[place[q]]
                out.append(tadd(o[1], x) if o[3] == 1 else dimsimp(lift(o[1]) + o[3]*lift(x)))
            else: out.append(o[2](*maps[q](ai)))
        return tuple(out)
    m.own = own; m.bd = bd; m.place = place; m.maps = maps; m.advat = advat
    return tuple(outd), m

def get_mask(a, k):
    nd = len(k.dims)
    for x, y in zip(k.dims, a.dims):
        if not same_dim(x, y, 'a mask has the shape of what it selects from'): raise IndexError('boolean index did not match indexed array')
    g = a.reader(); m = k.reader(); mk = mask_key(k)
    if nd == 1:
        c = comp_of(k)
        cnt = dimsimp(c.cnt)
        rest = a.dims[1:]
        r = SArr((cnt,) + rest, lambda q, *ix: g(c.sel(q), *ix), a.dtype,
                 masked=Masked(k.dims, m, g, ('comp', id(c))) if not rest else None)
        return r
    r = run()
    cnt = r.const('cnt', I)
    r.assume(cnt >= 0)
    if len(a.dims) > nd:
        rest = a.dims[nd:]
        return SArr((cnt,) + rest, nomask, a.dtype, masked=TailMasked(Masked(k.dims, m, None, mk), g, rest))
    return SArr((cnt,), nomask, a.dtype, masked=Masked(k.dims, m, g, mk))

def setitem(a, key, val):
    if isinstance(val, (list, tuple)) or type(val).__name__ in ('SList', 'ndarray'): val = asarr(val)
    k = a.dtype.kind
    vd = val.dtype if isinstance(val, SArr) else None
    conv = (lambda v: castto(v, a.dtype, vd)) if k in 'bif' else (lambda v: v)
    ck = coerce_key(key) if not isinstance(key, tuple) else key
    if isinstance(ck, tuple) and len(ck) == 1: ck = coerce_key(ck[0])
    if isinstance(ck, SArr) and ck.dtype.kind == 'b': return set_mask(a, ck, val, conv)
    pk = parse_key(a, key)
    v = asarr(val) if not (val is None or (k == 'o' and not isinstance(val, SArr))) else None
    if not any(isinstance(x, SArr) for x in pk):
        # basic: a view; write where own index lies in it
        outd = []; plan = []; p = 0
        for x in pk:
            if x is None: outd.append(1); continue
            n = a.dims[p]
            if isinstance(x, slice):
                st, ln, step = slice_of(x, n); plan.append(('s', len(outd), st, ln, step)); outd.append(ln)
            else: plan.append(('i', norm_int(x, n)))
            p += 1
        outd = tuple(outd)
        if v is not None:
            check_bcast(v.dims, outd)
            g = v.reader(); bm = bmap_assign(v.dims, outd)
        def cond(*ix):
            cs = []
            for x, q in zip(ix, plan):
                if q[0] == 'i': cs.append(zeq_i(x, q[1]))
                else:
                    _, d, st, ln, step = q
                    if step == 1: cs.append(zand(zcmp('<=', st, x), zcmp('<', x, dadd(st, ln))))
                    elif step == -1: cs.append(zand(zcmp('>=', st, x), zcmp('>', x, dsub(st, ln))))
                    else: cs.append(zand(zcmp('<=', st, x), zcmp('<', x, dadd(st, dmul(ln, step))), zeq(dimsimp((lift(x) - st) % step), 0)))
            return zand(*cs)
        def value(*ix):
            if v is None: return val
            out = [0]*len(outd)
            for x, q in zip(ix, plan):
                if q[0] == 's': 
                    _, d, st, ln, step = q
                    out[d] = dsub(x, st) if step == 1 else (dsub(st, x) if step == -1 else dimsimp((lift(x) - st)/step))
            return conv(g(*bm(tuple(out))))
        return write(a, cond, value, plan)
    if v is None: raise Unsupported('storing objects by index arrays')
    u = unflat(pk, v)
    if u is not None: pk, v = u
    outd, m = adv_map(a, pk)
    r = run()
    masks = [x for x in pk if isinstance(x, SArr)]
    # one advanced index and basic others
    check_bcast(v.dims, outd)
    g = v.reader(); bm = bmap_assign(v.dims, outd)
    own, bd, place, maps, advat = m.own, m.bd, m.place, m.maps, m.advat
    nb = len(bd)
    advp = [q for q, o in enumerate(own) if o[0] == 'a']
    # the selection index q such that all advanced dims match: the last one wins
    if len(masks) == 1 and masks[0].dtype.kind == 'b':
        c = comp_of(masks[0])
        hit = lambda t: zand(tobool(c.m(t[0])))
        where = lambda t: (c.rank(t[0]),)
        hitc = hit
        # rank of a selected item is known to lie in range (axiom of Comp)
    else:
        na = len(advp)
        F = [own[q][2] for q in advp]
        hw = r.func('hit', *([I]*na + [B])); wr = [r.func('hitat', *([I]*na + [I])) for _ in range(nb)]
        j = [r.bound('j') for _ in range(na)]
        w = [x(*j) for x in wr]
        q = [r.bound('k') for _ in range(nb)]
        inb = lambda t: zand(*[within(x, d) for x, d in zip(t, bd)])
        vals_ = lambda t: [F[z](*maps[advp[z]](tuple(t))) for z in range(na)]
        r.assume(FA(j, zimp(hw(*j), zand(inb(w), *[zeq(x, y) for x, y in zip(vals_(w), j)])), [hw(*j)]))
        vq = [lift(x) for x in vals_(q)]
        later = True
        if nb == 1: later = zimp(True, q[0] <= wr[0](*vq))
        pats = [hw(*vq)] + ([tuple(vq)] if all(z3.is_app(x) and x.num_args() for x in vq) else []) + sum([good_pats(x, *q) for x in vq], [])
        r.assume(FA(q, zimp(inb(q), zand(hw(*vq), later)), pats))
        hit = lambda t: hw(*t)
        where = lambda t: tuple(x(*t) for x in wr)
    def cond(*ix):
        cs = [hit([lift(ix[q]) for q in advp])]
        for q, o in enumerate(own):
            if o[0] == 'i': cs.append(zeq_i(ix[q], o[1]))
            elif o[0] == 's': cs.append(zand(zcmp('<=', o[1], ix[q]), zcmp('<', ix[q], dadd(o[1], o[2])))); 
        return zand(*cs)
    def value(*ix):
        out = [0]*len(outd)
        for n_, x in enumerate(where([lift(ix[q]) for q in advp])): out[advat + n_] = x
        for q, o in enumerate(own):
            if o[0] == 's': out[place[q]] = dsub(ix[q], o[1])
        return conv(g(*bm(tuple(out))))
    if len(masks) == 1 and masks[0].dtype.kind == 'b' and v.masked is not None and v.masked.key == ('comp', id(c)) and advp == [0]:
        f0 = v.masked.fn
        def value(*ix): return conv(f0(ix[0]))
    write(a, cond, value, None)

def zeq_i(x, y):
    if not isz(x) and not isz(y): return x == y
    return simp(lift(x) == lift(y))
def check_bcast(vd, outd):
    vd = list(vd)
    while len(vd) > len(outd):
        if isz(vd[0]) or vd[0] != 1: raise ValueError('could not broadcast input array')
        vd.pop(0)
    off = len(outd) - len(vd)
    for k, d in enumerate(vd):
        if not isz(d) and d == 1: continue
        if not same_dim(d, outd[off + k], 'assigned values have the shape of their place'): raise ValueError('could not broadcast input array into shape')
def bmap_assign(vd, outd):
    ex = max(len(vd) - len(outd), 0)
    off = len(outd) - (len(vd) - ex)
    one = [not isz(d) and d == 1 for d in vd]
    return lambda ix: (0,)*ex + tuple(0 if one[ex + k] and not (not isz(outd[off + k]) and outd[off + k] == 1) else ix[off + k] for k in range(len(vd) - ex))

def write(a, cond, value, plan):
    "write through a view"
    if a.vmap is None: return a.store.write(cond, value)
    inv = invert(a)
    def c2(*ix):
        c, vix = inv(ix)
        if c is False: return False
        return zand(c, cond(*vix))
    def v2(*ix): return value(*inv(ix)[1])
    a.store.write(c2, v2)
def invert(a):
    "store index -> (in view?, view index), for views by integers, slices, transposes, added axes"
    nd = len(a.dims)
    q = [z3.Int('inv_%d' % k) for k in range(nd)]
    t = a.vmap(*q)
    plan = []
    for x in t:
        if not isz(x): plan.append(('c', x)); continue
        used = [k for k in range(nd) if q[k].decl().name() in consts_of(x)]
        if not used: plan.append(('c', x)); continue
        if len(used) > 1: raise Unsupported('writing through a reshaped view')
        k = used[0]
        for sgn in (1, -1):
            rest = dimsimp(x - sgn*q[k])
            if not (isz(rest) and q[k].decl().name() in consts_of(rest)): break
        else: raise Unsupported('writing through a strided view')
        plan.append(('v', k, sgn, rest))
    def inv(ix):
        cs = []; out = [0]*nd
        for x, p in zip(ix, plan):
            if p[0] == 'c': cs.append(zeq_i(x, p[1]))
            else:
                _, k, sgn, rest = p
                y = dsub(x, rest)
                if sgn < 0: y = dimsimp(-lift(y)) if isz(y) else -y
                out[k] = y
                cs.append(within(y, a.dims[k]))
        return zand(*cs), tuple(out)
    return inv

def set_mask(a, k, val, conv):
    nd = len(k.dims)
    for x, y in zip(k.dims, a.dims):
        if not same_dim(x, y, 'a mask has the shape of what it selects from'): raise IndexError('boolean index did not match indexed array')
    m = k.reader()
    v = asarr(val)
    mk = mask_key(k)
    if nd == 1:
        c = comp_of(k)
        mk = ('comp', id(c))
    cond = lambda *ix: tobool(m(*ix[:nd]))
    if v.masked is not None and (v.masked.key == mk or same_mask(v.masked, k, m)):
        f = v.masked.fn
        if isinstance(v.masked, TailMasked):
            rest = a.dims[nd:]; vr = v.masked.rest
            if len(vr) != len(rest): raise Unsupported('assigning selected rows of other dimensions')
            check_bcast(vr, rest); bm = bmap_assign(vr, rest)
            return write(a, cond, lambda *ix: conv(f(*ix[:nd], *bm(tuple(ix[nd:])))), None)
        if len(a.dims) == nd: return write(a, cond, lambda *ix: conv(f(*ix)), None)
    if v.masked is not None and v.masked.nd: 
        raise Unsupported('assigning a selection of another mask')
    g = v.reader()
    if v.dims == () : return write(a, cond, lambda *ix: conv(g()), None)
    rest = a.dims[nd:]
    if nd == 1:
        outd = (dimsimp(c.cnt),) + rest
        check_bcast(v.dims, outd); bm = bmap_assign(v.dims, outd)
        return write(a, cond, lambda *ix: conv(g(*bm((c.rank(ix[0]),) + tuple(ix[1:])))), None)
    if len(v.dims) <= len(rest) or all(not isz(d) and d == 1 for d in v.dims[:len(v.dims) - len(rest)]):
        check_bcast(v.dims, rest) if rest else None
        bm = bmap_assign(v.dims, rest) if rest else (lambda ix: (0,)*len(v.dims))
        return write(a, cond, lambda *ix: conv(g(*bm(tuple(ix[nd:])))), None)
    raise Unsupported('assigning many values by a many-dimensional mask')
def same_mask(md, k, m):
    if len(md.shape) != len(k.dims): return False
    r = run()
    q = [r.bound('sm') for _ in k.dims]
    inr = zand(*[within(x, d) for x, d in zip(q, k.dims)])
    for x, y in zip(md.shape, k.dims):
        if deq(x, y) is not True and not r.engine.quick(r, zb(deq(x, y))): return False
    return r.engine.quick(r, z3.Implies(zb(inr), zb(tobool(md.mask(*q))) == zb(tobool(m(*q)))))

# ------------------------------------------------------------------ reductions
def reduce_(a, op, axis=None, keepdims=False):
    r = run()
    if a.masked is not None and a.masked.nd:
        if op in ('any', 'all') and axis is None:
            raise Unsupported('reduction of a masked selection')
    nd = len(a.dims)
    if axis is None:
        if nd == 1: axis = 0
        else:
            res = a
            for k in range(nd): res = reduce_(asarr(res), op, 0)
            return res
    if isinstance(axis, tuple): raise Unsupported('many axes')
    axis = nat(axis)
    if axis < 0: axis += nd
    if axis >= nd or axis < 0: raise IndexError('axis out of bounds')
    n = a.dims[axis]
    outd = a.dims[:axis] + a.dims[axis+1:]
    g = a.reader()
    def put(ix, k): return tuple(ix[:axis]) + (k,) + tuple(ix[axis:])
    if not isz(n):
        if n == 0:
            if op in ('min', 'max'): raise ValueError('zero-size array to reduction operation')
            one = {'any': False, 'all': True, 'sum': 0 if a.dtype.kind != 'f' else 0.}[op]
            fn = lambda *ix: one
        else:
            def fn(*ix):
                vs = [g(*put(ix, k)) for k in range(n)]
                return fold(op, vs)
    else:
        fn = sym_reduce(a, g, op, axis, n, outd, put)
    k = 'b' if op in ('any', 'all') else ('i' if op == 'sum' and a.dtype.kind == 'b' else a.dtype.kind)
    dt = a.dtype if op in ('min', 'max') or (op == 'sum' and a.dtype.kind in 'if') else KDT(k)
    if keepdims:
        kd = a.dims[:axis] + (1,) + a.dims[axis+1:]
        return SArr(kd, lambda *ix: fn(*(ix[:axis] + ix[axis+1:])), dt)
    if not outd: return fn()
    return SArr(outd, fn, dt)
def fold(op, vs):
    if op == 'any': return mkbool(simp(zb(zor(*[tobool(v) for v in vs]))))
    if op == 'all': return mkbool(simp(zb(zand(*[tobool(v) for v in vs]))))
    if op == 'sum':
        res = toint(vs[0])
        for v in vs[1:]: res = arith('+', res, toint(v))
        return res
    res = vs[0]
    for v in vs[1:]:
        res = select(compare('<=' if op == 'min' else '>=', res, v), res, v)
    return res
SUMS = {}
def for_each(r, o, k, body, val, whole):
    "body(k) for all o and k; where the value has items k + c, also as of those items"
    r.assume(FA(o + [k], body(k), good_pats(val, *(o + [k]))))
    cs, seen, todo = set(), set(), [val]
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e): continue
        seen.add(e.get_id()); todo += e.children()
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for x in e.children():
                d = z3.simplify(x - k) if x.sort() == I else None
                if d is not None and z3.is_int_value(d) and d.as_long(): cs.add(d.as_long())
    for c in sorted(cs):
        v = z3.simplify(substz(val, [(k, k - c)])); b = z3.simplify(substz(zb(body(k)), [(k, k - c)]))
        r.assume(FA(o + [k], b, good_pats(v, *(o + [k]))))
        if c < 0:
            for q in range(min(-c, 3)):
                b = body(z3.IntVal(q)); r.assume(FA(o, b, whole) if o else zb(b))
def sym_reduce(a, g, op, axis, n, outd, put):
    r = run()
    nd = len(outd)
    o = [r.bound('o') for _ in range(nd)]; k = r.bound('k')
    ino = zand(*[within(x, d) for x, d in zip(o, outd)])
    def wrapq(body, pats=None):
        return FA(o, zimp(ino, body), pats) if nd else zb(body)
    if op in ('any', 'all'):
        b = r.func(op, *([I]*nd + [B])) if nd else None
        w = r.func('wit', *([I]*nd + [I])) if nd else None
        bc = b(*o) if nd else r.const(op, B); wc = w(*o) if nd else r.const('wit', I)
        el = lambda t: zb(tobool(g(*put(tuple(o), t))))
        key = zb(el(k)); hit = shared(r, op, outd, n, o, k, key)
        if hit is not None: return hit
        pos = el if op == 'any' else (lambda t: znot(el(t)))
        bb = bc if op == 'any' else z3.Not(bc)
        r.assume(wrapq(zimp(bb, zand(within(wc, n), pos(wc))), [bc]))
        body = pos(k)
        r.assume(FA(o + [k], zimp(zand(ino, within(k, n), body), bb), good_pats(body, *(o + [k]))))
        return share(r, op, outd, n, o, k, key, lambda *ix: mkbool(b(*ix) if nd else bc))
    if op in ('min', 'max'):
        r.safety(zb(zcmp('>', n, 0)), 'minimum/maximum of a nonempty array')
        srt = I if a.dtype.kind == 'i' else R
        f = r.func(op, *([I]*nd + [srt])); w = r.func('wit', *([I]*nd + [I]))
        vk0 = nat(g(*put(tuple(o), k))) if srt == R else None
        if vk0 is not None and (isinstance(vk0, float) and vk0 in (INF, -INF) or isinstance(vk0, SReal) and not (vk0.pinf is False and vk0.ninf is False)):
            # values which may be infinite
            fp, fn = r.func(op + '+', *([I]*nd + [B])), r.func(op + '-', *([I]*nd + [B]))
            app = lambda h, *ix: h(*ix) if nd else h()
            res = lambda *ix: mkreal(app(f, *ix), app(fp, *ix), app(fn, *ix))
            e, p, q = real3(g(*put(tuple(o), app(w, *o)))); x = res(*o)
            r.assume(wrapq(zand(within(app(w, *o), n), zb(x.pinf) == zb(p), zb(x.ninf) == zb(q), zimp(zand(znot(p), znot(q)), x.e == e)), [app(f, *o)] if nd else None))
            def bound(t): v = nat(g(*put(tuple(o), t))); return zimp(zand(ino, within(t, n)), zb(tobool(x <= v if op == 'min' else x >= v)))
            for_each(r, o, k, bound, real3(vk0)[0], [x.e])
            return res
        fo = f(*o) if nd else r.const(op, srt); wo = w(*o) if nd else r.const('wit', I)
        val = lambda t: lift(ie(g(*put(tuple(o), t)))) if srt == I else re_(g(*put(tuple(o), t)))
        r.assume(wrapq(zand(within(wo, n), fo == val(wo)), [fo]))
        vk = val(k)
        bound = lambda t: zimp(zand(ino, within(t, n)), fo <= val(t) if op == 'min' else fo >= val(t))
        for_each(r, o, k, bound, vk, [fo])
        return lambda *ix: wrap(f(*ix) if nd else fo)
    if op == 'sum':
        if a.dtype.kind == 'b' and nd == 0:
            c = comp_fn(n, lambda t: g(t))
            return lambda: mkint(c.cnt)
        import npm
        return npm.sym_sum(a, g, axis, n, outd, put)
    raise Unsupported(op)

# ------------------------------------------------------------------ reshape
def reshape(a, shape):
    shape = list(shape)
    tot = 1
    for d in a.dims: tot = dmul(tot, d)
    r = run()
    if a.masked is not None and a.masked.nd:
        return reshape_masked(a, shape)
    if -1 in [d for d in shape if not isz(d)]:
        p = [k for k, d in enumerate(shape) if not isz(d) and d == -1][0]
        oth = 1
        for k, d in enumerate(shape):
            if k != p: oth = dmul(oth, d)
        if not isz(oth) and not isz(tot):
            if oth == 0 or tot % oth: raise ValueError('cannot reshape')
            shape[p] = tot//oth
        elif not isz(oth) and oth == 1: shape[p] = tot
        else:
            # one own dimension symbolic: the quotient of the others
            cand = [d for d in a.dims]
            rest = [d for d in cand]
            ok = None
            for k in range(len(rest)):
                q = 1
                for z, d in enumerate(rest):
                    if z != k: q = dmul(q, d)
                if deq(q, oth) is True: ok = rest[k]; break
            if ok is None and not isz(oth):
                nn = [d for d in a.dims if not isz(d)]
                c = 1
                for d in nn: c *= d
                sy = [d for d in a.dims if isz(d)]
                if len(sy) == 1 and c % oth == 0: ok = dmul(sy[0], c//oth)
            if ok is None: raise Unsupported('reshape %s to %s' % (a.dims, shape))
            shape[p] = ok
    shape = tuple(shape)
    ntot = 1
    for d in shape: ntot = dmul(ntot, d)
    c = deq(tot, ntot)
    if c is False: raise ValueError('cannot reshape array')
    if c is not True: r.safety(c, 'reshape keeps the size')
    # drop / insert unit dims without arithmetic
    src = [(k, d) for k, d in enumerate(a.dims) if not (not isz(d) and d == 1)]
    dst = [(k, d) for k, d in enumerate(shape) if not (not isz(d) and d == 1)]
    nd = len(a.dims)
    vm = a.vmap
    if len(src) == len(dst) and all(deq(x[1], y[1]) is True for x, y in zip(src, dst)):
        def m(*ix):
            out = [0]*nd
            for (k, _), (q, _) in zip(src, dst): out[k] = ix[q]
            return tuple(out) if vm is None else vm(*out)
        return SArr(shape, dt=a.dtype, store=a.store, vmap=m)
    g = a.reader()
    def fn(*ix):
        # row-major
        flat = 0
        for x, d in zip(ix, shape): flat = tadd(dmul(flat, d), x)
        out = []
        for d in reversed(a.dims):
            if not isz(d) and d == 1: out.append(0); continue
            if not isz(flat) and not isz(d): out.append(flat % d); flat = flat//d
            else: out.append(dimsimp(lift(flat) % lift(d))); flat = dimsimp(lift(flat)/lift(d))
        out = list(reversed(out))
        return g(*out)
    def fn2(*ix):
        # (…, d1, d2) from flat: leading index needs no modulo
        flat = 0
        for x, d in zip(ix, shape): flat = tadd(dmul(flat, d), x)
        out = []
        ds = a.dims
        for q in range(len(ds) - 1, -1, -1):
            d = ds[q]
            if q == 0: out.append(flat); break
            if not isz(d) and d == 1: out.append(0); continue
            if not isz(flat) and not isz(d): out.append(flat % d); flat = flat//d
            else: out.append(dimsimp(lift(flat) % lift(d))); flat = dimsimp(lift(flat)/lift(d))
        return g(*reversed(out))
    res = SArr(shape, fn2, a.dtype)
    if len(shape) == 1 and len(a.dims) == 2: res.flat2 = (a.dims, g, res.store.version)
    return res
def unflat(pk, v=None):
    """index arrays which are all flattened from two dimensions of the same sizes, and the value
    if it is an array, in these two dimensions"""
    advs = [x for x in pk if isinstance(x, SArr)]
    r = run()
    if not advs or any(x.dtype.kind == 'b' or x.flat2 is None or x.flat2[2] != x.store.version for x in advs): return None
    if v is not None and v.dims != () and (v.flat2 is None or v.flat2[2] != v.store.version or v.masked): return None
    if all(isinstance(x, SArr) or x is None or isinstance(x, slice) for x in pk) and any(x is None or isinstance(x, slice) for x in pk): return None
    fl = [x.flat2 for x in advs] + ([v.flat2] if v is not None and v.dims != () else [])
    for f in fl[1:]:
        for a, b in zip(f[0], fl[0][0]):
            if deq(a, b) is not True and not r.engine.quick(r, zb(deq(a, b))): return None
    d = fl[0][0]
    return [SArr(d, x.flat2[1], x.dtype) if isinstance(x, SArr) else x for x in pk], (None if v is None else v if v.dims == () else SArr(d, v.flat2[1], v.dtype))
def reshape_masked(a, shape):
    "selection of the same number of items in each row, put back to rows"
    m = a.masked; r = run()
    if len(m.shape) == 2 and len(shape) == 2 and not isinstance(m, TailMasked) and (isz(shape[1]) or isz(m.shape[1])): return reshape_dropped(a, m, shape)
    if len(m.shape) != 2 or isz(m.shape[1]) or len(shape) != 2 or isz(shape[1]): raise Unsupported('reshape of a masked selection')
    K, W = shape[1], m.shape[1]
    i = r.bound('row')
    cnt = lambda row: z3.Sum(*[z3.If(zb(tobool(m.mask(row, q))), 1, 0) for q in range(W)]) if W > 1 else z3.If(zb(tobool(m.mask(row, 0))), 1, 0)
    r.safety(FA(i, zimp(within(i, m.shape[0]), cnt(i) == K)), 'each row has as many selected items as the new row length')
    def fn(row, c):
        # the c-th selected item of the row
        mk = [zb(tobool(m.mask(row, q))) for q in range(W)]
        def nth(c):
            res = None
            for q in range(W - 1, -1, -1):
                before = z3.Sum(*[z3.If(mk[z], 1, 0) for z in range(q)]) if q > 1 else (z3.If(mk[0], 1, 0) if q == 1 else z3.IntVal(0))
                v = m.fn(row, q)
                res = v if res is None else merge(simp(z3.And(mk[q], before == c)), v, res)
            return res
        return nth(c)
    first = shape[0]
    return SArr((m.shape[0], K), fn, a.dtype)

def reshape_dropped(a, m, shape):
    "rows of which exactly one item is dropped"
    r = run(); W = m.shape[1]
    d1 = deq(shape[1], dsub(W, 1))
    if d1 is not True and not r.engine.quick(r, zb(d1)): raise Unsupported('reshape of a masked selection')
    mk = lambda i, q: zb(tobool(m.mask(i, q)))
    i, q = r.bound('row'), r.bound('c')
    def fn(row, c):
        c = lift(c); d = f(lift(row))
        return m.fn(row, dimsimp(z3.If(c < d, c, c + 1)))
    res = lambda: named((m.shape[0], dsub(W, 1)), fn, a.dtype)
    memo = r.notes.setdefault('dropped', [])
    cand = [t for t in memo if t[3] <= r.scopes and t[2] == r.frames[:len(t[2])]]
    for k2, f, fr, sc, m2, mk2 in cand:
        if k2 == m.key: return res()
    for k2, f, fr, sc, m2, mk2 in cand:
        same = zand(zeq(m.shape[0], m2.shape[0]), zeq(W, m2.shape[1]), zimp(zand(within(i, m.shape[0]), within(q, W)), mk(i, q) == mk2(i, q)))
        if r.engine.quick(r, zb(same)): return res()
    # rows which are a selection of the rows of an earlier array
    for c in selections(r, m.shape[0]):
        for k2, f2, fr, sc, m2, mk2 in cand:
            if deq(c.n, m2.shape[0]) is True and deq(W, m2.shape[1]) is True and simp(mk(i, q)).eq(simp(mk2(c.sel(i), q))):
                f = lambda x: f2(c.sel(x))
                return res()
    f = r.func('dropped', I, I); d = f(i)
    memo.append((m.key, f, list(r.frames), r.scopes, m, mk))
    r.assume(FA(i, zimp(within(i, m.shape[0]), zand(d >= 0, d <= W, z3.Implies(d < W, z3.Not(mk(i, d))))), [d]))
    r.assume(FA([i, q], zimp(zand(within(i, m.shape[0]), q >= 0, q < d), mk(i, q)), good_pats(mk(i, q), i, q)))
    # one is missing, and only one
    with Scope(r, m.shape[0], 'row', 0) as x:
        dx = f(x)
        for e in (z3.IntVal(0), lift(W) - 1): r.add(zimp(zand(e >= 0, e < dx), mk(x, e)))     # instances
        r.safety(dx < W, 'reshape: an item is dropped from each row')
        with Scope(r, W, 'c', 0) as y:
            r.safety(z3.Or(y == dx, mk(x, y)), 'reshape: only one item is dropped from each row')
    r.assume(FA(i, zimp(within(i, m.shape[0]), d < W), [d]))
    r.assume(FA([i, q], zimp(zand(within(i, m.shape[0]), within(q, W), q != d), mk(i, q)), good_pats(mk(i, q), i, q)))
    return res()
def selections(r, n):
    "past selections of so many items"
    return [c for c, k, e, j, fr, sc in r.comps if sc <= r.scopes and fr == r.frames[:len(fr)] and deq(c.cnt, n) is True]
def canon(o, k, e): return z3.substitute(e, *[(x, z3.Int('canon_%d' % i)) for i, x in enumerate(list(o) + [k])])
def shared(r, op, outd, n, o, k, key):
    "an earlier reduction of the same terms"
    e = canon(o, k, key)
    for op2, d2, n2, e2, fr, sc, val in r.notes.setdefault('shared', []):
        if op2 == op and e2.eq(e) and sc <= r.scopes and fr == r.frames[:len(fr)] and len(d2) == len(outd) and deq(n, n2) is True and all(deq(x, y) is True for x, y in zip(outd, d2)): return val
    if not outd or callable(outd): return None
    x0 = z3.Int('canon_0'); e = simp(e)
    for c in selections(r, outd[0]):
        for op2, d2, n2, e2, fr, sc, val in r.notes['shared']:
            if op2 == op and sc <= r.scopes and fr == r.frames[:len(fr)] and len(d2) == len(outd) and deq(d2[0], c.n) is True and deq(n, n2) is True and all(deq(x, y) is True for x, y in zip(outd[1:], d2[1:])) and simp(z3.substitute(e2, (x0, c.sel(x0)))).eq(e):
                return lambda x, *xs: val(c.sel(lift(x)), *xs)
def share(r, op, outd, n, o, k, key, val):
    r.notes['shared'].append((op, outd, n, canon(o, k, key), list(r.frames), r.scopes, val))
    return val
def named(dims, fn, dt, name='el'):
    "an array with function symbols for its elements (a definition), for triggers"
    r = run(); dt = dtype(dt)
    ix = [r.bound('n') for _ in dims]
    v = nat(fn(*ix)); ino = zand(*[within(x, d) for x, d in zip(ix, dims)])
    memo = r.notes.setdefault('named', [])
    def sym(e, sort):
        if not isz(e): return None
        c = z3.substitute(e, *[(x, z3.Int('named_%d' % k)) for k, x in enumerate(ix)])
        for d2, c2, f, fr, sc in memo:
            if c2.eq(c) and sc <= r.scopes and fr == r.frames[:len(fr)] and all(deq(x, y) is True for x, y in zip(dims, d2)) and len(dims) == len(d2): return f
        x0 = z3.Int('named_0'); cs = simp(c)
        for sc_ in selections(r, dims[0]) if dims else []:
            for d2, c2, f2, fr, sc in memo:
                if sc <= r.scopes and fr == r.frames[:len(fr)] and len(dims) == len(d2) and deq(d2[0], sc_.n) is True and all(deq(x, y) is True for x, y in zip(dims[1:], d2[1:])) and simp(z3.substitute(c2, (x0, sc_.sel(x0)))).eq(cs):
                    return lambda x, *xs: f2(sc_.sel(x), *xs)
        f = r.func(name, *([I]*len(dims) + [sort])); t = f(*ix)
        memo.append((dims, c, f, list(r.frames), r.scopes))
        r.assume(FA(ix, zimp(ino, t == e), [t]))
        return f
    if isinstance(v, SInt): f = sym(v.e, I); return SArr(dims, lambda *q: mkint(f(*[lift(x) for x in q])), dt)
    if isinstance(v, SBool): f = sym(v.e, B); return SArr(dims, lambda *q: mkbool(f(*[lift(x) for x in q])), dt)
    if isinstance(v, SReal):
        f, p, n = sym(v.e, R), sym(v.pinf, B), sym(v.ninf, B)
        return SArr(dims, lambda *q: mkreal(f(*[lift(x) for x in q]), p(*[lift(x) for x in q]) if p else v.pinf, n(*[lift(x) for x in q]) if n else v.ninf), dt)
    return SArr(dims, fn, dt)
def merge_arr(c, a, b):
    if len(a.dims) != len(b.dims): raise Unsupported('merging arrays of different rank')
    x, y = a.reader(), b.reader()
    dt = a.dtype if a.dtype == b.dtype else None
    if dt is None: raise Unsupported('merging arrays of different type')
    return SArr(tuple(dimsimp(zite(c, p, q)) for p, q in zip(a.dims, b.dims)), lambda *ix: merge(c, x(*ix), y(*ix)), dt)

# ------------------------------------------------------------------ records
class SRec:
    "a 1D structured array"
    def __init__(s, n, cols, dt):
        s.n, s.cols, s.dtype = n, cols, dt
    @property
    def dims(s): return (s.n,)
    @property
    def shape(s): return (pdim(s.n),)
    ndim = 1
    masked = None
    def vc_len(s): return pdim(s.n)
    def __len__(s):
        if isz(s.n): raise Unsupported('native len() of a symbolic array')
        return s.n
    def __hash__(s): return id(s)
    @property
    def size(s): return pdim(s.n)
    def copy(s): return SRec(s.n, {k: v.copy() for k, v in s.cols.items()}, s.dtype)
    def astype(s, t):
        t = dtype(t)
        if t.fields is None: raise Unsupported('record astype')
        return SRec(s.n, {k: s.cols[k].astype(t.fields[k][0].name) for k in t.fields}, t)
    def __getitem__(s, k):
        if isinstance(k, str):
            if k not in s.cols: raise ValueError('no field of name ' + k)
            return s.cols[k]
        if isinstance(k, (list,)) or type(k).__name__ == 'SList':
            ks = list(k)
            if ks and all(isinstance(x, str) for x in ks):
                return SRec(s.n, {x: s.cols[x] for x in ks}, DT('void', 'r', {x: s.dtype.fields[x] for x in ks}))
        cols = {f: v[k] for f, v in s.cols.items()}
        f0 = next(iter(cols))
        if isinstance(cols[f0], SArr) and len(cols[f0].dims) == len(s.cols[f0].dims): return SRec(cols[f0].dims[0], cols, s.dtype)
        return SRow(cols, s.dtype)
    def __setitem__(s, k, v):
        if isinstance(k, str):
            if k not in s.cols: raise ValueError('no field of name ' + k)
            s.cols[k][...] = v
            return
        if isinstance(v, SRec):
            for f in s.cols: s.cols[f][k] = v.cols[f]
            return
        raise Unsupported('assigning records')
    def vc_subst(s, pairs, memo):
        return SRec(subst_raw(s.n, pairs) if isz(s.n) else s.n, {k: subst(v, pairs, memo) for k, v in s.cols.items()}, s.dtype)
    def __iter__(s):
        if isz(s.n): raise Unsupported('native iteration over a symbolic array')
        return (s[k] for k in range(s.n))
class SRow:
    def __init__(s, vals, dt): s.vals, s.dtype = vals, dt
    def __getitem__(s, k):
        if isinstance(k, str): return s.vals[k]
        if isinstance(k, int): return list(s.vals.values())[k]
        if isinstance(k, slice): return list(s.vals.values())[k]
        raise Unsupported('row index')
    def __iter__(s): return iter(list(s.vals.values()))
    def vc_subst(s, pairs, memo): return SRow({k: subst(v, pairs, memo) for k, v in s.vals.items()}, s.dtype)
    ndim = 0
def merge_rec(c, a, b):
    if list(a.cols) != list(b.cols): raise Unsupported('merging records of different fields')
    return SRec(dimsimp(zite(c, a.n, b.n)), {k: merge(c, a.cols[k], b.cols[k]) for k in a.cols}, a.dtype)
def new_rec(n, dt, fill=None):
    cols = {}
    r = run()
    for k, (d, _) in dt.fields.items():
        sh = (n,) + tuple(d.shape)
        base = dtype(d.name)
        if fill is not None: cols[k] = SArr(sh, lambda *ix, base=base: castto(fill, base), base)
        else: cols[k] = fresh_arr(k, sh, base)
    return SRec(n, cols, dt)
def sort_of(kind): return {'i': I, 'f': R, 'b': B, 'd': DATA}[kind]
def fresh_arr(name, shape, dt):
    "an array of unknown contents"
    dt = dtype(dt)
    if dt.kind == 'o': return SArr(shape, lambda *ix: None, dt)
    f = run().func(name, *([I]*len(shape) + [sort_of(dt.kind)]))
    return SArr(shape, lambda *ix: wrap(f(*ix)), dt)
