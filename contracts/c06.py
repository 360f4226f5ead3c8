from lib import *
FN = TR + '.take_snapshot'
EXTRA = [('accel', (3,)), ('companion', ())]
@harness('C06', [FN, TR + '.ParticleSet.__init__', TR + '.ParticleSet.create_property', TR + '.ParticleSnapshot.__init__'])
def take_snapshot(h):
    """for every list of trajectories (any number and lengths, with a frame in common), every frame:
    one particle for each, each property aligned, ids, time; for the empty list, every property of the schema"""
    T = h.mod(TR)
    n = h.dim('ntr'); tr = Trajs(h, n, extra=EXTRA); frame = h.int('frame')
    lst = tr.list()
    k = h.r.bound('k')
    h.assume(FA(k, zimp(arr.within(k, ie(n)), tr.active(k, frame).e), [tr.L(k)]))
    schema = SDict({'pos': (3,), 'velocity': (3,), 'accel': (3,), 'companion': (), 'time': ()})
    s = T.take_snapshot(lst, frame, schema)
    h.prove(isinstance(s, T.ParticleSnapshot), 'a snapshot')
    h.prove(s.time() == frame, 'snapshot time')
    h.prove(sorted(s.as_dict()) == ['accel', 'companion', 'pos', 'trajid', 'velocity'], 'exactly the properties of the schema, and the ids')
    for p, sh in (('pos', (3,)), ('velocity', (3,)), ('accel', (3,)), ('companion', ()), ('trajid', ())):
        v = s.__dict__[p]()
        h.prove(v.shape[0] == n, 'one particle for each trajectory: ' + p)
        h.prove(v.dims[1:] == sh, 'item shape of ' + p)
    if h.r.engine.quick(h.r, ie(n) == 0): return
    with h.forall(n, 'i') as i:
        t = frame - SInt(tr.start(ie(i)))
        for c in range(3):
            h.prove(s.pos().at(i, c) == SReal(tr.pos(ie(i), t.e, c)), 'position aligned')
            h.prove(s.velocity().at(i, c) == SReal(tr.vel(ie(i), t.e, c)), 'velocity aligned')
            h.prove(s.accel().at(i, c) == SOpaque(tr.extra['accel'][0](ie(i), t.e, c)), 'vector property aligned')
        h.prove(s.companion().at(i) == SOpaque(tr.extra['companion'][0](ie(i), t.e)), 'scalar property aligned')
        h.prove(s.trajid().at(i) == SInt(tr.tid(ie(i))), 'trajectory id')
    h.prove(s.pos().dtype == dtype('f8'), 'type of the property')
    h.prove(s.accel().dtype == dtype('data'), 'type of the property')
