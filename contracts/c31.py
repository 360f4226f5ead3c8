from lib import *
import cfgm
G = IN + '.GeneralInterpolant.'
FNS = [G + '__init__', G + 'save_config', G + 'radius', G + 'num_neighbs', IN + '.InverseDistanceWeighter.__init__', IN + '.read_interpolant', IN + '.interpolant']
ASSUMPTIONS = ['configparser: run as it is; numbers are read back as they were written']
for method in ('inv', 'rbf'):
    for rad in (False, True):
        def body(h, method=method, rad=rad):
            models.EXTRA['configparser'] = cfgm.MODULE
            K, radius, par = h.int('num', 1), h.real('radius') if rad else None, h.real('par')
            it = h.mod(IN).interpolant(method, K, radius, par)
            cfg = cfgm.ConfigParser()
            if rad: cfg.add_section('Interpolant')          # a section which is there already
            it.save_config(cfg); cfg.written('conf')
            got = h.mod(IN).read_interpolant('conf')
            h.prove(type(got) is type(it), 'class')
            h.prove(got._method == it._method and it._method == method, 'method')
            h.prove(got.num_neighbs() == K, 'number of neighbours')
            h.prove(got.radius() is None if radius is None else got.radius() == radius, 'radius')
            h.prove(got._par == par, 'parameter')
            h.prove(got._upb == (npm.inf if radius is None else radius), 'upper bound of distances')
        body.__doc__ = 'an interpolant saved and read, %s radius' % ('with' if rad else 'no')
        harness('C31', FNS, '%s%s' % (method, '_radius' if rad else ''))(body)
@harness('C31', FNS)
def corrfun(h):
    "a correlation function's file, of any name"
    models.EXTRA['configparser'] = cfgm.MODULE
    b, d = h.dim('b'), h.dim('d')
    name = cfgm.Text('file')
    h.r.notes['npz'] = {name: dict(corrs=fro(h.array('corrs', (b, d))), bins=fro(h.array('bins', (b,))))}
    for rad in (False, True):
        K, radius = h.int('num', 1), h.real('radius') if rad else None
        it = h.mod(IN).interpolant('corrfun', K, radius, name)
        cfg = cfgm.ConfigParser()
        it.save_config(cfg); cfg.written('conf')
        got = h.mod(IN).read_interpolant('conf')
        h.prove(type(got) is type(it) and got._method == 'corrfun', 'class and method')
        h.prove(got.num_neighbs() == K, 'number of neighbours')
        h.prove(got.radius() is None if radius is None else got.radius() == radius, 'radius')
        h.prove(got._par == name, 'file name')
        for x, y in ((got._corrs, it._corrs), (got._bins, it._bins)): h.prove(x.shape == y.shape, 'size of the correlations')
        with h.forall(b, 'bin') as i:
            h.prove(got._bins.at(i) == it._bins.at(i), 'bins')
            with h.forall(d, 'c') as c: h.prove(got._corrs.at(i, c) == it._corrs.at(i, c), 'correlations')
@harness('C31', FNS)
def defaults(h):
    "the values a constructor supplies are kept too"
    models.EXTRA['configparser'] = cfgm.MODULE
    for method, num, par in (('inv', 4, 1), ('rbf', 7, 1e5)):
        it = h.mod(IN).interpolant(method)
        cfg = cfgm.ConfigParser()
        it.save_config(cfg); cfg.written('conf')
        got = h.mod(IN).read_interpolant('conf')
        h.prove(it.num_neighbs() == num and it._par == par and it.radius() is None, 'defaults')
        h.prove(type(got) is type(it) and got._method == method and got.num_neighbs() == num and got._par == par and got.radius() is None, 'read as saved')
