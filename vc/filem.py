"""Files, as far as they are read and written: names with symbolic numbers, directories, regular
expressions on such names, text tables. Assumed: a name written with %d is matched by a pattern as
it is with several numbers, and int() of the digits is the number."""
import os.path, re as _re
from core import *
from vals import *
import strs, arr, coll, models
SAMPLES = ('7', '0', '31', '10001', '264086')
class Match:
    vc_static = True
    def __init__(s, m, back): s._m, s._back = m, back
    def group(s, *ks):
        g = s._m.group(*ks)
        return tuple(s._back(x) for x in g) if isinstance(g, tuple) else s._back(g)
    def groups(s, *a): return tuple(s._back(x) for x in s._m.groups(*a))
    def groupdict(s): return {k: s._back(x) for k, x in s._m.groupdict().items()}
    def __getitem__(s, k): return s.group(k)
    def __bool__(s): return True
class Pattern:
    vc_static = True
    def __init__(s, p): s._p = p; s.pattern = p.pattern
    def _do(s, how, x):
        if not strs.has(x): return getattr(s._p, how)(x)
        hs = list(strs.HOLE.finditer(x))
        if any(strs.get(h)[0] != 'd' for h in hs): raise Unsupported('matching of a name with a symbolic part')
        res = []
        for d in SAMPLES:
            dig = {h.group(0): '%s%s' % (d, k if k else '') for k, h in enumerate(hs)}
            t = strs.HOLE.sub(lambda h: dig[h.group(0)], x)
            m = getattr(s._p, how)(t)
            if m is None: res.append(None); continue
            def back(g, dig=dig):
                if g is None: return None
                for h, y in dig.items():
                    if g == y: return h
                if any(c.isdigit() for c in g): raise Unsupported('a part of the digits of a name')
                return g
            res.append((m, back))
        if len({r is None for r in res}) != 1: raise Unsupported('a pattern that depends on the digits of a number')
        if res[0] is None: return None
        gs = []
        for m, b in res: gs.append(tuple(b(g) for g in m.groups()))
        if len(set(gs)) != 1: raise Unsupported('a pattern that depends on the digits of a number')
        return Match(*res[0])
    def match(s, x): return s._do('match', x)
    def search(s, x): return s._do('search', x)
    def fullmatch(s, x): return s._do('fullmatch', x)
    def findall(s, x):
        if strs.has(x): raise Unsupported('findall in a name with a symbolic part')
        return coll.SList(s._p.findall(x))
    def sub(s, r, x, *a):
        if strs.has(x): raise Unsupported('sub in a name with a symbolic part')
        return s._p.sub(r, x, *a)
def compile(p, *a): return p if isinstance(p, Pattern) else Pattern(_re.compile(p, *a))
RE = models.NS('re', compile=compile, escape=_re.escape, error=_re.error, IGNORECASE=_re.IGNORECASE, I=_re.I,
    match=lambda p, x, *a: compile(p, *a).match(x), search=lambda p, x, *a: compile(p, *a).search(x), fullmatch=lambda p, x, *a: compile(p, *a).fullmatch(x),
    sub=lambda p, r, x, *a: compile(p).sub(r, x, *a), findall=lambda p, x: compile(p).findall(x))
def plain(p):
    if p.startswith('~'): raise Unsupported('home directory')
    return p
def OS(listdir=None, exists=None, **more):
    def no(nm):
        def f(*a, **k): raise Unsupported('os.' + nm)
        return f
    pa = os.path
    path = models.NS('os.path', expanduser=plain, split=pa.split, join=pa.join, basename=pa.basename, dirname=pa.dirname, splitext=pa.splitext, normpath=pa.normpath,
        exists=exists or no('path.exists'), isfile=exists or no('path.isfile'), sep='/', **{k[5:]: v for k, v in more.items() if k.startswith('path_')})
    return models.NS('os', path=path, listdir=listdir or no('listdir'), sep='/', curdir='.', **{k: v for k, v in more.items() if not k.startswith('path_')})
