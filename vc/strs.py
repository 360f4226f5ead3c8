"""Strings with symbolic parts: ordinary str objects in which a private-use
character sequence stands for the text of a symbolic value in a given format."""
import re
from core import *
from vals import *
import vals
O, C = '\ue000', '\ue001'
HOLE = re.compile(O + r'(\d+)' + C)
def table():
    return run().engine.__dict__.setdefault('holes', {})
def hole(spec, v):
    t = table()
    key = (spec, type(v).__name__, v.e.get_id() if isinstance(v, SVal) else id(v))
    for k, (kk, s, x) in t.items():
        if kk == key: return '%s%d%s' % (O, k, C)
    n = len(t)
    t[n] = (key, spec, v)
    return '%s%d%s' % (O, n, C)
def get(m):
    "(format, value) of a match of HOLE"
    key, spec, v = table()[int(m.group(1))]
    return spec, v
def has(x): return isinstance(x, str) and O in x
TESTS = ('isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isalpha', 'isspace', 'isidentifier')
def test(how, x):
    w = whole(x)
    if w is not None and w[0] == 'd' and isinstance(w[1], SInt) and how in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum'): return w[1] >= 0
    raise Unsupported(how)
def like(x): return re.compile(HOLE.sub(lambda m: r'-?\d+' if get(m)[0] in 'di' else '.*', re.sub(r'([^\w\ue000\ue001])', r'\\\1', x)), re.S)
def equal(a, b):
    "are two texts with symbolic parts equal"
    if not isinstance(a, str) or not isinstance(b, str): return False
    if a == b: return True
    if has(a) != has(b):
        if has(b): a, b = b, a
        m = like(a).fullmatch(b)
        if m is None: return False
        hs = list(HOLE.finditer(a))
        if len(hs) == 1 and get(hs[0])[0] == 'd':
            t = b[hs[0].start():len(b) - (len(a) - hs[0].end())]
            return get(hs[0])[1] == int(t) if str(int(t)) == t else False
        raise Unsupported('comparison of a text with a symbolic part')
    ha, hb = list(HOLE.finditer(a)), list(HOLE.finditer(b))
    if len(ha) == 1 and len(hb) == 1 and get(ha[0])[0] == 'd' == get(hb[0])[0] and HOLE.sub('?', a) == HOLE.sub('?', b): return get(ha[0])[1] == get(hb[0])[1]
    raise Unsupported('comparison of texts with symbolic parts')
def inside(a, b):
    if a in b: return True
    if not has(a) and not has(b) or not isinstance(a, str): return a in b
    if not has(a) and a and not any(c.isdigit() or c == '-' for c in a) and all(get(h)[0] == 'd' for h in HOLE.finditer(b)): return False
    raise Unsupported('a part of a text with a symbolic part')
def merge(c, a, b):
    ha, hb = list(HOLE.finditer(a)), list(HOLE.finditer(b))
    if HOLE.sub(lambda m: '<%s>' % get(m)[0], a) != HOLE.sub(lambda m: '<%s>' % get(m)[0], b): raise Unsupported('merging strings')
    it = iter(hb)
    def one(m):
        spec, v = get(m); w = vals.merge(c, v, get(next(it))[1])
        return hole(spec, w) if isinstance(w, SVal) else ('%' + spec) % w
    return HOLE.sub(one, a)
def subst(x, pairs, memo):
    def one(m):
        spec, v = get(m)
        w = vals.subst(v, pairs, memo)
        if isinstance(w, SVal): return hole(spec, w)
        return ('%' + spec) % w
    return HOLE.sub(one, x)
CONV = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')
def fmt(l, r):
    if type(r).__name__ == 'SList': args = (r,)
    else: args = r if isinstance(r, tuple) else (r,)
    if isinstance(r, dict): return l % r
    if not any(isinstance(nat(a), SVal) for a in args): return l % (tuple(nat(a) for a in args) if isinstance(r, tuple) else nat(r))
    out = []; pos = 0; k = 0
    for m in CONV.finditer(l):
        out.append(l[pos:m.start()]); pos = m.end()
        if m.group(5) == '%': out.append('%'); continue
        a = nat(args[k]); k += 1
        if isinstance(a, SVal): 
            if m.group(5) == 'd' and isinstance(a, SReal): 
                import arr
                a = arr.cast(a, 'i')
                if not isinstance(a, SVal): out.append('%d' % a); continue
            out.append(hole(m.group(0)[1:], a))
        else: out.append(m.group(0) % (a,))
    out.append(l[pos:])
    if k != len(args): raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)
def whole(x):
    m = HOLE.fullmatch(x.strip())
    return get(m) if m else None
def to_int(x, *a):
    if not has(x): return int(x, *a)
    w = whole(x)
    if w is None: raise Unsupported('int() of composed text')
    spec, v = w
    if isinstance(v, SInt) and spec in ('s', 'd', 'r', 'i'): return v
    if spec == 'd': return v
    if isinstance(v, SReal): raise ValueError('invalid literal for int()')
    raise Unsupported('int() of %s' % spec)
def to_float(x):
    if not has(x): return float(x)
    w = whole(x)
    if w is None: raise Unsupported('float() of composed text')
    spec, v = w
    if isinstance(v, SInt) and spec in ('s', 'd', 'r'):
        import arr
        return arr.cast(v, 'f')
    if isinstance(v, SReal) and spec in ('s', 'r', '.17g'): return v   # shortest repr round-trips
    if isinstance(v, SReal): return SReal(run().const('rounded', R))   # printed to fewer digits
    raise Unsupported('float() of %s' % spec)
