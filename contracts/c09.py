from lib import *
import cfgm
S = SQ + '.Sequence.'
FNS = [S + '__init__', S + 'save_config', SQ + '.read_sequence', S + 'part_fname', S + 'range', 'flowtracks.particle.Particle.__init__']
ASSUMPTIONS = ['configparser: run as it is; numbers are read back as they were written']
def make(h, smooth, minlen=None):
    models.EXTRA['configparser'] = cfgm.MODULE
    h.stub(SQ, 'infer_format', lambda fn: ('format of', fn))
    S = h.mod(SQ)
    part = S.Particle(h.real('diam'), h.real('dens'))
    a, b = h.int('first'), h.int('last')
    p, t = cfgm.Text('particles'), cfgm.Text('tracers')
    rate = h.real('rate'); ml = h.real('minlen', 0) if minlen is None else minlen
    return S, S.Sequence((a, b), rate, part, p, t, smooth, ml), (a, b, rate, part, p, t, ml)
def same(h, got, want, smooth, ml):
    a, b, rate, part, p, t, _ = want
    h.prove((got.range()[0] == a) & (got.range()[1] == b), 'frame range')
    h.prove(got.frate == rate, 'frame rate')
    h.prove((got.part.diam == part.diam) & (got.part.density == part.density), 'particle')
    h.prove(got.part_fname() == p and got._ptmpl == p, 'particles file'); h.prove(got._trtmpl == t, 'tracers file')
    h.prove(got.part_format() == ('format of', p), 'format')
    h.prove((got._smooth == smooth), 'smoothing'); h.prove(got._minlen == ml, 'minimal length')
@harness('C09', FNS)
def saved(h):
    "a sequence saved and read, with and without overrides"
    smooth = h.bool('smooth')
    S, s, want = make(h, smooth)
    cfg = cfgm.ConfigParser()
    s.save_config(cfg); cfg.written('conf')
    same(h, S.read_sequence('conf'), want, smooth, want[-1])
    o, ml = h.bool('override'), h.real('minlen override', 0)
    same(h, S.read_sequence('conf', o), want, o, want[-1])
    same(h, S.read_sequence('conf', None, ml), want, smooth, ml)
    same(h, S.read_sequence('conf', o, ml), want, o, ml)
    same(h, S.read_sequence('conf', traj_min_len=0), want, smooth, 0)
@harness('C09', FNS)
def sections(h):
    "into a configuration which has the sections and older values"
    S, s, want = make(h, h.bool('smooth'))
    cfg = cfgm.ConfigParser()
    for x in ('Particle', 'Scene'): cfg.add_section(x)
    S2, s2, want2 = make(h, True)
    s2.save_config(cfg)
    s.save_config(cfg); cfg.written('conf')
    same(h, S.read_sequence('conf'), want, s._smooth, want[-1])
@harness('C09', FNS)
def missing(h):
    "smoothing and minimal length which are not in the file"
    S, s, want = make(h, h.bool('smooth'))
    cfg = cfgm.ConfigParser()
    s.save_config(cfg)
    for x in ('apply smoothing', 'trajectory minimal length'): cfg.remove_option('Scene', x)
    cfg.written('conf')
    same(h, S.read_sequence('conf'), want, False, 0)
    o, ml = h.bool('override'), h.real('minlen override', 0)
    same(h, S.read_sequence('conf', o, ml), want, o, ml)
