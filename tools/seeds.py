SEEDS = []
def seed(id, prop, file, old, new, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs, breaks=breaks, demo=demo))
T = '''import numpy as np, tempfile, os, sys, warnings
from flowtracks.trajectory import *
def mk(n, start, trid, seed=0, **kw):
    r = np.random.default_rng(seed + trid)
    return Trajectory(r.uniform(size=(n,3)), r.uniform(size=(n,3)), np.arange(start, start+n), trid, **kw)
'''
seed('unique_sum', 'C04', 'flowtracks/trajectory.py',
 "diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)", "diff = np.diff(all_rows[srt,:3], axis=0).sum(axis=1) != 0",
 'two different positions, neighbours in lexical order, whose coordinates have the same sum',
 'different positions are taken for duplicates and dropped',
 T + '''
rows = np.array([[0.,1.,2.],[1.,0.,2.],[5.,5.,5.]])
assert len(mark_unique_rows(rows)) == 3
''')
seed('segments_same_count', 'C19', 'flowtracks/scene.py',
 "in_next_arr = np.array([True if tr in trajids else False \\\n                for tr in next_arr_trids])",
 "in_next_arr = in_arr if len(arr_trids) == len(next_arr_trids) \\\n                else np.array([tr in trajids for tr in next_arr_trids])",
 'a frame where one trajectory ends and another starts in the next frame, in other row positions',
 'the two frames of a segment hold different particles',
 T + '''
from flowtracks.io import save_particles_table
from flowtracks.scene import Scene
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 's.h5')
    save_particles_table(fn, [mk(3, 1, 0), mk(6, 1, 1), mk(3, 4, 2)])
    for f, n in Scene(fn).iter_segments():
        assert sorted(f.trajid()) == sorted(n.trajid())
finally:
    import shutil; shutil.rmtree(d)
''')
seed('bbox_last_frame', 'C14', 'flowtracks/io.py',
 "max_pos = np.max(np.vstack((max_pos, frame.pos())), axis=0)", "max_pos = np.max(np.vstack((min_pos, frame.pos())), axis=0)",
 'the largest coordinate is not in the last saved frame', 'the bounding box in the file attributes forgets earlier frames',
 T + '''
from flowtracks.io import save_frames_hdf
from flowtracks.scene import Scene
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 's.h5')
    pos = [np.array([[0.,0.,0.],[9.,9.,9.]]), np.array([[0.,1.,0.],[3.,3.,3.]])]
    save_frames_hdf(fn, [ParticleSnapshot(p, p*0., t, np.arange(2)) for t, p in enumerate(pos)])
    assert (Scene(fn).bounding_box()[1] == 9.).all()
finally:
    import shutil; shutil.rmtree(d)
''')
seed('companion_sorted', 'C23', 'flowtracks/analysis.py',
 "    idx = np.nonzero(trids[:,None] == companions)\n    comp[idx[1]] = idx[0]",
 "    ix = np.minimum(np.searchsorted(trids, companions), len(trids) - 1)\n    found = trids[ix] == companions\n    comp[found] = ix[found]",
 'tracers whose trajectory IDs are not in increasing order in the frame', 'companions are not found, so they take part in the interpolation',
 T + '''
from flowtracks.analysis import companion_indices
assert list(companion_indices(np.array([7,3,9,1]), np.array([1,3,8,9]))) == [3,1,-1,2]
''')
seed('map_range_end', 'C08', 'flowtracks/sequence.py',
 "in_range = (t >= subrange[0]) & (t < subrange[1])", "in_range = (t >= subrange[0]) & (t <= subrange[1])",
 'a subrange that ends inside a trajectory', 'the time series has one extra entry, None, at its end',
 T + '''
import numpy as np
from flowtracks.io import save_particles_table
from flowtracks.sequence import Sequence
from flowtracks.particle import Particle
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 's.h5'); save_particles_table(fn, [mk(8, 1, 0), mk(8, 1, 1)])
    seq = Sequence((1, 8), 100., Particle(1., 1.), fn, fn)
    f = lambda s, fr, nf: dict((t, 1.) for t in fr.particles.trajid())
    r = seq.map_trajectories(f, subrange=(2, 5))
    for k, v in r.items(): assert list(v) == [1., 1., 1.], v
finally:
    import shutil; shutil.rmtree(d)
''')
seed('acc_ids_per_file', 'C16', 'flowtracks/io.py',
 "                len(trajects), accel= table[s:e,6:9]))", "                s, accel= table[s:e,6:9]))",
 'two trajAcc files', 'trajectories of different files get the same ID',
 T + '''
from flowtracks.io import trajectories_acc
d = tempfile.mkdtemp()
try:
    for f in (1, 2):
        tab = np.random.default_rng(f).uniform(size=(6, 34)); tab[:,33] = [0,1,2,0,1,2]
        np.savetxt(os.path.join(d, 'trajAcc.%d' % f), tab)
    tr = trajectories_acc(os.path.join(d, 'trajAcc.%d'))
    assert len(set(t.trajid() for t in tr)) == 4
finally:
    import shutil; shutil.rmtree(d)
''')
seed('radius_closed', 'C25', 'flowtracks/interpolation.py',
 "use_parts = dists < radius", "use_parts = dists <= radius",
 'a tracer exactly at the radius', 'a tracer which is not closer than the radius is a neighbour',
 '''import numpy as np
from flowtracks.interpolation import select_neighbs
d, u = select_neighbs(np.array([[3.,4.,0.],[1.,0.,0.]]), np.zeros((1,3)), radius=5.)
assert list(u[0]) == [False, True], u
''')
seed('scene_range_from_zero', 'C18', 'flowtracks/scene.py',
 """        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        for trid""", """        query_string = '(trajid == trid)'
        if self._first and self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        for trid""",
 'a frame range which starts with frame 0', 'trajectories are not cut at the end of the range',
 T + '''
from flowtracks.io import save_particles_table
from flowtracks.scene import Scene
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 's.h5'); save_particles_table(fn, [mk(8, 0, 0), mk(8, 2, 1)])
    assert [len(t) for t in Scene(fn, (0, 5)).iter_trajectories()] == [5, 3]
finally:
    import shutil; shutil.rmtree(d)
''')
seed('pairs_last_point', 'C32', 'flowtracks/pairs.py',
 """            segs=True)""", """            segs=len(prim_in_frame) > 1)""",
 'a frame with one requested point, whose nearest secondary particle is the last one of its trajectory', 'a pair whose trajectory does not go on is returned',
 T + '''
from flowtracks.pairs import particle_pairs
z = lambda n: np.zeros((n, 3))
p = Trajectory(z(3), z(3), np.arange(3), 1)
s1 = Trajectory(z(2) + .1, z(2), np.arange(2), 5); s2 = Trajectory(z(3) + .5, z(3), np.arange(3), 6)
tr, ti = particle_pairs([p], [s1, s2], np.array([1]), np.array([1]))
assert list(tr) == [6] and list(ti) == [1], (tr, ti)
''')
seed('smooth_exact_window', 'C33', 'flowtracks/smoothing.py',
 "if len(traj) < window_size:", "if len(traj) <= window_size:",
 'a trajectory exactly as long as the window', 'the trajectory is dropped',
 T + '''
from flowtracks.smoothing import savitzky_golay
assert len(savitzky_golay([mk(5, 0, 0), mk(6, 0, 1)], 10., 5, 2)) == 2
''')
seed('ptvis_name_order', 'C10', 'flowtracks/io.py',
 "self._frame_nums.sort()", "self._frame_nums.sort(key=str)",
 'frame numbers of different numbers of digits', 'frames are read out of order, and chains linked to the wrong particles',
 '''import os, tempfile, shutil
from flowtracks.io import trajectories_ptvis
d = tempfile.mkdtemp()
try:
    for i in range(8, 13):
        with open(os.path.join(d, 'ptv_is.%d' % i), 'w') as f:
            f.write('1\\n%d %d %g 0 0\\n' % (-1 if i == 8 else 0, -2 if i == 12 else 0, 1000.*i))
    tr = trajectories_ptvis(os.path.join(d, 'ptv_is.%d'))
    assert len(tr) == 1 and list(tr[0].time()) == [8, 9, 10, 11, 12] and (tr[0].pos()[:,0] == tr[0].time()).all()
finally:
    shutil.rmtree(d)
''')
seed('an_join_same_count', 'C24', 'flowtracks/an_scene.py',
 "trajids = set(p_trids) & set(a_trids)", "trajids = set(p_trids) if len(p_trids) <= len(a_trids) else set(a_trids)",
 'a frame where the conditions leave as many analysis rows as particle rows, of other trajectories', 'rows of different trajectories are joined',
 T + '''
from flowtracks.io import save_particles_table
from flowtracks.scene import DualScene
from flowtracks.particle import Particle
from flowtracks.interpolation import Interpolant
from flowtracks.analysis import analysis, GeneralAnalyser
from flowtracks.an_scene import AnalysedScene
class Aux(GeneralAnalyser):
    def descr(self): return [('aux', float)]
    def analyse(self, frame, next_frame): return [frame.particles.trajid() * 10.]
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 's.h5'); an = os.path.join(d, 'a.h5'); cf = os.path.join(d, 'c.cfg')
    # p: 0 for trajectory 0, 1 for the others
    save_particles_table(fn, [mk(4, 1, i, size=np.full(4, float(min(i, 1)))) for i in range(3)])
    open(cf, 'w').write("[Particle]\\ndiameter = 1\\ndensity = 1\\n[Scene]\\nframe rate = 1\\n"
        "tracers file = %s\\nparticles file = %s\\nfirst frame = 1\\nlast frame = 4\\n" % (fn, fn))
    analysis(DualScene(fn, fn, 1., Particle(1., 1.), (1, 5)), an, cf, [Aux()])
    sc = AnalysedScene(an)
    # Particle rows of trajectories 1,2; analysis rows of trajectories 0,1.
    size, aux = sc.collect(['size', 'aux'], {'size': (.5, 2., False), 'aux': (-1., 15., False)})
    assert len(size) == len(aux) and (aux == 10.).all() and (size == 1.).all(), (size, aux)
finally:
    import shutil; shutil.rmtree(d)
''')
seed('npz_range_end', 'C12', 'flowtracks/io.py',
 "in_range[kwds['time'] > last] = False", "in_range[kwds['time'] >= (last if first is not None and last > first else last + 1)] = False",
 'a range with both limits', 'the last frame of the range is left out',
 T + '''
from flowtracks.io import save_trajectories, trajectories
d = tempfile.mkdtemp()
try:
    save_trajectories(d, [mk(8, 0, 3)], {})
    t = trajectories(d + '/', 2, 5, 1.)
    assert len(t) == 1 and list(t[0].time()) == [2, 3, 4, 5]
finally:
    import shutil; shutil.rmtree(d)
''')
seed('interp_stale_points', 'C29', 'flowtracks/interpolation.py',
 """            self.__comp = np.atleast_1d(companionship)
        self._drop_neighbours_cache()""", """            self.__comp = np.atleast_1d(companionship)
            self._drop_neighbours_cache()""",
 'setting new interpolation points without companions after an interpolation', 'the neighbours of the old points are used',
 '''import numpy as np
from flowtracks.interpolation import interpolant
r = np.random.default_rng(0)
T, D, A, B = r.uniform(size=(9,3)), r.uniform(size=(9,3)), r.uniform(size=(4,3)), r.uniform(size=(4,3))
i = interpolant('rbf', 3, param=1.); i.set_scene(T, A, D); i.interpolate(); i.set_interp_points(B); got = i.interpolate()
j = interpolant('rbf', 3, param=1.); j.set_scene(T, B, D)
assert np.allclose(got, j.interpolate())
''')
seed('dual_scene_from_zero', 'C35', 'flowtracks/scene.py',
 """    frange = (parser.getint("Scene", "first frame"),""", """    frange = (parser.getint("Scene", "first frame") or None,""",
 'a scene configured to start with frame 0', 'the dual scene starts with the first frame in the data, even before 0, and has no numeric range',
 '''import os, tempfile, shutil
''' + T + '''
from flowtracks.io import save_particles_table
from flowtracks.scene import read_dual_scene
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 's.h5'); cf = os.path.join(d, 'c.cfg')
    save_particles_table(fn, [mk(9, -2, 0)])
    open(cf, 'w').write("[Particle]\\ndiameter = 1\\ndensity = 1\\n[Scene]\\nframe rate = 1\\n"
        "tracers file = %s\\nparticles file = %s\\nfirst frame = 0\\nlast frame = 3\\n" % (fn, fn))
    assert [f.particles.time() for f in read_dual_scene(cf).iter_frames()] == [0, 1, 2, 3]
finally:
    shutil.rmtree(d)
''')
