"""What the code under contract gets when it imports a library: models (assumed
contracts) of the parts used. Anything not here is outside the verifier's reach."""
import types, sys, itertools, collections
from core import *
import core, vals, arr, coll

class NS:
    vc_static = True
    def __init__(s, name, **k): s.__dict__['__name__'] = name; s.__dict__.update(k)
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('%s.%s' % (s.__dict__['__name__'], k))

class NP:
    vc_static = True
    def __getattr__(s, k):
        import npm
        if k.startswith('__') and k != '__version__': raise AttributeError(k)
        v = npm.__dict__.get(k)
        if v is None and k not in ('nan', 'newaxis'): raise Unsupported('numpy.' + k)
        return v
_np = NP()

class Tee:
    def __init__(s, lst): s.lst, s.k = lst, 0
def pairwise(it): 
    q = coll.as_seq(it)
    n = arr.dsub(q.n, 1)
    if isz(n): n = arr.dimsimp(z3.If(n < 0, z3.IntVal(0), n)) if not run().engine.quick(run(), n >= 0) else n
    else: n = max(n, 0)
    return coll.GenSeq.of(coll.SList.of(n, lambda k: (q.get(k), q.get(arr.dadd(k, 1)))))
def tee(it, n=2):
    "the items as a sequence, and independent positions in it"
    q = coll.as_seq(it)
    return tuple(coll.GenSeq.of(coll.SList.of(q.n, q.get)) for _ in range(n))
def chain(*its):
    r = coll.SList()
    for x in its: r.extend(x)
    return coll.GenSeq.of(r)
def izip(*its): return coll.vc_zip(*its)
def repeat(v, n=None):
    if n is None: return itertools.repeat(v)
    return coll.SList([v])*n
def islice(it, *a):
    a = [vals.nat(x) for x in a]
    q = coll.as_seq(it)
    sl = slice(*a)
    l = coll.SList.of(q.n, q.get)[sl]
    return coll.GenSeq.of(l)
def compress(data, sel):
    out = coll.SList()
    for d, s in coll.vc_iter(coll.vc_zip(data, sel), None):
        if s: out.append(d)
    return out
_it = NS('itertools', tee=tee, chain=chain, izip=izip, zip_longest=None, repeat=repeat, islice=islice, compress=compress,
    product=itertools.product, count=itertools.count, starmap=None, pairwise=pairwise)

class Warn(NS):
    pass
_warnings = NS('warnings', warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)

def U(name):
    def f(*a, **k): raise Unsupported(name)
    return f
_types = types
_builtins = None

EXTRA = {}     # models given by a harness: module name -> object

def get(full, fromlist, loader):
    top = full.partition('.')[0]
    if top == 'numpy':
        if full == 'numpy' or not fromlist: return _np
        m = _np
        for p in full.split('.')[1:]: m = getattr(m, p)
        return m
    if top == 'builtins':
        import loader as L
        ns = types.ModuleType('builtins'); ns.__dict__.update({k: v for k, v in L.make_builtins(loader).items() if not k.startswith('__')})
        return ns
    if top == 'itertools': return _it
    if top == 'types': return types
    if top == 'warnings': return _warnings
    if top == 're':
        import filem
        return filem.RE
    if top in ('math', 'functools', 'operator', 'collections', 'copy', '__future__', 'abc', 'typing', 'contextlib', 'datetime', 'string', 'sys', 'logging', 'dataclasses', 'enum'):
        if top in ('sys', 'copy', 'logging'): return NS(top)
        return __import__(full, fromlist=fromlist or ())
    if top in ('scipy', 'tables', 'configparser', 'os', 'io', 'matplotlib', 'fcntl', 'tempfile', 'shutil', 'glob', 'pathlib', 'json', 'pickle'):
        return lazy(top) if not fromlist else path(lazy(top), full)
    raise Unsupported('import of ' + full)
class Lazy:
    vc_static = True
    def __init__(s, name): s.__dict__['__name__'] = name
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        n = s.__dict__['__name__']
        m = resolve(n)
        return getattr(m, k) if m is not None else Lazy(n + '.' + k)
    def __call__(s, *a, **k):
        m = resolve(s.__dict__['__name__'])
        if m is None: raise Unsupported(s.__dict__['__name__'])
        return m(*a, **k)
    def __mro_entries__(s, bases): return (object,)
def resolve(n):
    "the model a harness gives for a library"
    ps = n.split('.')
    for k in range(len(ps), 0, -1):
        m = EXTRA.get('.'.join(ps[:k]))
        if m is not None:
            for q in ps[k:]: m = getattr(m, q)
            return m
    return None
def lazy(n): return Lazy(n)
def path(m, full):
    for p in full.split('.')[1:]: m = getattr(m, p)
    return m
