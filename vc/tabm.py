"""Model of PyTables: the contracts assumed of its files, tables and conditions."""
import ast, sys, re
from core import *
from vals import *
import core, vals, arr, coll, strs
from arr import SArr, SRec, DT, dtype, pdim, asarr

class NoSuchNodeError(LookupError): pass
class NodeError(ValueError): pass

def parse_cond(cond, look):
    """a row predicate from a condition string; look(name) -> a function of the row, or a value"""
    holes = []
    def rep(m):
        holes.append(strs.get(m)); return ' __h%d ' % (len(holes) - 1)
    src = strs.HOLE.sub(rep, cond)
    try: tree = ast.parse(src.strip(), mode='eval').body
    except SyntaxError as e: raise SyntaxError('in condition %r' % src)
    def hval(k):
        spec, v = holes[k]
        if isinstance(v, SInt) and spec in ('d', 's', 'r', 'i', 'g', 'f', '.17g'):
            if spec in ('d', 's', 'r', 'i'): return v
            return arr.cast(v, 'f') if spec == '.17g' else SReal(run().const('rounded', R))
        if isinstance(v, SReal) and (spec in ('s', 'r') or (re.fullmatch(r'\.(\d+)[ge]', spec) and int(spec[1:-1]) >= (17 if spec[-1] == 'g' else 16))): return v
        if isinstance(v, SReal): return SReal(run().const('rounded', R))      # too few digits
        raise Unsupported('text %s in a condition' % spec)
    hv = {k: hval(k) for k in range(len(holes))}
    names = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and not x.id.startswith('__h') and x.id not in names: names[x.id] = look(x.id)
    def ev(x, i):
        if isinstance(x, ast.BinOp):
            a, b = ev(x.left, i), ev(x.right, i)
            if isinstance(x.op, ast.BitAnd): return bop(a, b, zand)
            if isinstance(x.op, ast.BitOr): return bop(a, b, zor)
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%'}.get(type(x.op))
            if o: return arith(o, a, b)
        if isinstance(x, ast.UnaryOp):
            a = ev(x.operand, i)
            if isinstance(x.op, ast.Invert): return lnot(a)
            if isinstance(x.op, ast.USub): return arith('-', 0, a)
            if isinstance(x.op, ast.UAdd): return a
        if isinstance(x, ast.Compare):
            if len(x.ops) != 1: raise NotImplementedError('a chained comparison in a condition')
            a, b = ev(x.left, i), ev(x.comparators[0], i)
            o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '=='}.get(type(x.ops[0]))
            if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)): raise Unsupported('comparing conditions')
            if o: return compare(o, a, b)
            if isinstance(x.ops[0], ast.NotEq): return lnot(compare('==', a, b))
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float, bool)): return x.value
        if isinstance(x, ast.Name):
            if x.id.startswith('__h'): return hv[int(x.id[3:])]
            v = names[x.id]
            return v(i) if callable(v) else v
        raise Unsupported('condition %s' % ast.dump(x)[:100])
    def bop(a, b, f):
        if not isinstance(a, (SBool, bool)) or not isinstance(b, (SBool, bool)): raise NotImplementedError("numexpr: & and | need conditions")
        return mkbool(simp(zb(f(tobool(a), tobool(b)))))
    def pred(i):
        v = ev(tree, i)
        if not isinstance(v, (SBool, bool)): raise TypeError('condition %r is not boolean' % src)
        return v
    return pred

def user_frame():
    f = sys._getframe(1)
    while f is not None and '/flowtracks/' not in f.f_code.co_filename: f = f.f_back
    return f

class ColDescr:
    vc_static = True
    def __init__(s, dt): s.shape = tuple(dt.shape); s.dtype = dt

class Attrs:
    def __init__(s): s.__dict__['_d'] = {}
    def _f_list(s, *a): return sorted(s._d)
    def __getattr__(s, k):
        if k.startswith('__') or k == '_d': raise AttributeError(k)
        if k in s._d: return s._d[k]
        raise AttributeError(k)
    def __setattr__(s, k, v):
        if run().frames: raise Unsupported('setting table attributes in a loop')
        s._d[k] = v
    def __contains__(s, k): return k in s._d
    def __getitem__(s, k): return s._d[k]
    def __setitem__(s, k, v): setattr(s, k, v)

class VTable:
    vc_static = True
    def __init__(s, rec, name='table'):
        s.__dict__['rec'] = rec; s.__dict__['name'] = name; s.__dict__['_v_attrs'] = Attrs()
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('tables.Table.' + k)
    @property
    def attrs(s): return s._v_attrs
    @property
    def nrows(s): return pdim(s.rec.n)
    def vc_len(s): return pdim(s.rec.n)
    @property
    def colnames(s): return coll.SList(list(s.rec.cols))
    @property
    def dtype(s): return s.rec.dtype
    @property
    def coldescrs(s): return {k: ColDescr(s.rec.dtype.fields[k][0]) for k in s.rec.cols}
    def col(s, name):
        if name not in s.rec.cols: raise KeyError(name)
        return s.rec.cols[name].copy()
    def read(s, start=None, stop=None, step=None, field=None):
        rec = s.rec.copy()
        if start is not None or stop is not None or step is not None: rec = rec[slice(start, stop, step)]
        return rec if field is None else rec[field]
    def __getitem__(s, k): return s.rec.copy()[k]
    def mask(s, condition, condvars):
        fr = user_frame()
        def look(nm):
            if condvars is not None and nm in condvars: return col_or(condvars[nm])
            if nm in s.rec.cols:
                c = s.rec.cols[nm]
                if len(c.dims) != 1: raise NotImplementedError('a multidimensional column in a condition')
                return lambda i: c.at(i)
            if condvars is None:
                f = fr
                v = f.f_locals.get(nm, f.f_globals.get(nm, coll.UNBOUND))
                if v is coll.UNBOUND: raise NameError("name '%s' is not defined" % nm)
                return col_or(v)
            raise NameError("name '%s' is not defined" % nm)
        def col_or(v):
            v = nat(v)
            if isinstance(v, SArr) and len(v.dims) == 0: v = v.item()
            if not isinstance(v, (SVal, int, float, bool)): raise NotImplementedError('unsupported operand in a condition')
            return v
        p = parse_cond(condition, look)
        return SArr((s.rec.n,), lambda i: p(i), 'bool')
    def read_where(s, condition, condvars=None, field=None, start=None, stop=None, step=None):
        if start is not None or stop is not None or step is not None: raise Unsupported('read_where of a part')
        m = s.mask(condition, condvars)
        rec = s.rec.copy()[m]
        if field is not None and field not in rec.cols: raise KeyError(field)
        return rec if field is None else rec[field]
    @property
    def cols(s): return RCols(s)
    def get_where_list(s, condition, condvars=None, **k):
        import npm
        return npm.nonzero(s.mask(condition, condvars))[0]
    def flush(s): pass
    def vc_subst(s, pairs, memo): return s

class VFile:
    vc_static = True
    def __init__(s, nodes): s.__dict__['nodes'] = nodes; s.__dict__['isopen'] = 1
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('tables.File.' + k)
    def get_node(s, where, name=None, classname=None):
        p = where if name is None else where.rstrip('/') + '/' + name
        if p not in s.nodes: raise NoSuchNodeError('group ``/`` does not have a child named ``%s``' % p)
        return s.nodes[p]
    @property
    def root(s): return Root(s)
    def close(s): pass
    def __enter__(s): return s
    def __exit__(s, *a): s.close()
    def __contains__(s, p): return p in s.nodes
    def vc_subst(s, pairs, memo): return s
class Root:
    vc_static = True
    def __init__(s, f): s.__dict__['f'] = f
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        return s.f.get_node('/' + k)
class Col1:
    vc_static = True
    def create_index(s, *a, **k): return 0
    def create_csindex(s, *a, **k): return 0
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('tables.Column.' + k)
class Cols:
    vc_static = True
    def __init__(s, names): s.__dict__['n'] = names
    def __getattr__(s, k):
        if k in s.__dict__['n']: return Col1()
        raise AttributeError(k)
class RCol:
    vc_static = True
    def __init__(s, tab, name): s.__dict__['t'] = tab; s.__dict__['n'] = name
    def __getitem__(s, k): return s.t.col(s.n)[k]
    def vc_len(s): return pdim(s.t.rec.n)
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('tables.Column.' + k)
class RCols:
    vc_static = True
    def __init__(s, tab): s.__dict__['t'] = tab
    def __getattr__(s, k):
        if k in s.t.rec.cols: return RCol(s.t, k)
        raise AttributeError(k)
class WTable(VTable):
    """a table being written: .chunks lists the record arrays appended, in order; its rows
    are their concatenation"""
    vc_static = True
    def __init__(s, dt, name):
        d = s.__dict__
        d['dt'] = dt; d['name'] = name; d['_v_attrs'] = Attrs(); d['chunks'] = coll.SList()
    @property
    def rec(s): raise Unsupported('reading a table while it is written')
    def append(s, rows):
        rows = nat(rows)
        if isinstance(rows, (list, tuple, coll.SList)):
            rows = list(rows)
            cols = {}
            for q, (k, (d, _)) in enumerate(s.dt.fields.items()):
                vs = []
                for x in rows:
                    if isinstance(x, coll.SList): x = list(x)
                    if not isinstance(x, (tuple, list)) or len(x) != len(s.dt.fields): raise ValueError('rows do not fit the table')
                    vs.append(x[q])
                cols[k] = asarr(coll.SList(vs)).astype(d.name)
                if cols[k].dims[1:] != tuple(d.shape): raise ValueError('rows do not fit the table')
            rows = SRec(len(rows), cols, s.dt)
        if not isinstance(rows, SRec): raise Unsupported('appending %s' % type(rows).__name__)
        if list(rows.cols) != list(s.dt.fields) or any(rows.dtype.fields[k][0] != s.dt.fields[k][0] for k in s.dt.fields): raise ValueError('rows parameter cannot be converted into a recarray object compliant with table')
        s.chunks.append(rows.copy())
    @property
    def cols(s): return Cols(list(s.dt.fields))
    @property
    def coldescrs(s): return {k: ColDescr(s.dt.fields[k][0]) for k in s.dt.fields}
    @property
    def colnames(s): return coll.SList(list(s.dt.fields))
    @property
    def dtype(s): return s.dt
    def set_attr(s, k, v): setattr(s._v_attrs, k, v)
class WFile:
    "a file being written: its nodes are tracked as a part of the program's state"
    __module__ = 'vcmodel.tables'
    def __init__(s): s.nodes = {}; s.isopen = 1; s.closed = 0
    def create_table(s, where, name, description=None, title='', filters=None, expectedrows=None, obj=None, **k):
        p = where.rstrip('/') + '/' + name
        if p in s.nodes: raise NodeError('node %s exists' % p)
        if obj is not None: raise Unsupported('create_table with data')
        if isinstance(description, dict):
            if any(not isinstance(v, DT) for v in description.values()): raise Unsupported('table description')
            description = list((k,) + ((v.name, v.shape) if v.shape else (v.name,)) for k, v in description.items())
        dt = dtype(description)
        if dt.fields is None: raise TypeError('table description')
        s.nodes[p] = WTable(dt, name)
        return s.nodes[p]
    def get_node(s, where, name=None, classname=None): return VFile.get_node(s, where, name)
    @property
    def root(s): return Root(s)
    def flush(s): pass
    def close(s): s.closed = 1
    def __enter__(s): return s
    def __exit__(s, *a): s.close()
    def __contains__(s, p): return p in s.nodes
    def vc_subst(s, pairs, memo): return s
class Tables:
    vc_static = True
    NoSuchNodeError = NoSuchNodeError; NodeError = NodeError
    def __init__(s, files): s.__dict__['files'] = files
    def open_file(s, name, mode='r', title='', **k):
        if not isinstance(name, str): raise TypeError('file name')
        if mode == 'r':
            if name not in s.files: raise OSError('``%s`` does not exist' % name)
            return VFile(s.files[name])
        if mode == 'w':
            if run().frames: raise Unsupported('opening a file for writing in a loop')
            f = WFile()
            s.files[name] = f.nodes
            s.files['written ' + name] = f
            return f
        raise Unsupported('opening a HDF file in mode %s' % mode)
    Int64Col, Float64Col = (lambda shape=(), **k: arr.dtype('int64', shape)), (lambda shape=(), **k: arr.dtype('float64', shape))
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('tables.' + k)

def schema(fields):
    "a record type: [(name, kind, item shape)]"
    return DT('void', 'r', {k: (DT({'f': 'float64', 'i': 'int64', 'd': 'data'}[kd], kd, None, tuple(sh)), 0) for k, kd, sh in fields})
