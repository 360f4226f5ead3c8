"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe.split('; '), hook_needed=None)))
T, IO, SC, SQ, IN, AN, AS, PA, SM, GR = ['flowtracks/%s.py' % x for x in
    'trajectory io scene sequence interpolation analysis an_scene pairs smoothing graphics'.split()]

prop('C01', 'A particle set stores and selects its properties faithfully',
 "A property put in a trajectory or snapshot (at construction, with create_property, or through its setter) is what its getter returns; a getter with a selector returns exactly the selected items, and a setter with a selector changes exactly the selected items of that property and nothing else, in this object or another. has_property, schema, ext_schema and as_dict report exactly the properties present, with each one's per-item shape, type and current value, and len() is the number of positions.",
 'inputs histories', 'every number of particles, property name and shape, selector (slice, mask, index array, integer) and order of set/get calls',
 'No test touches the property store directly; the ones that use it do so with one selector form and two or three fixed arrays.',
 T, [('ParticleSet.create_property getters and setters', T), ('schema/ext_schema/as_dict', T)], 'ParticleSet getters; setters; schema(); as_dict()',
 [('_check_attr', 'names of the properties present', T)])
prop('C02', 'Indexing a trajectory gives aligned 8-column rows',
 "Indexing a trajectory with any 1D numpy selector gives one row for each selected time point, in the selector's order, holding that time point's position (3), velocity (3), time and the trajectory's id. An integer gives the single row.",
 'inputs', 'every trajectory length, contents and selector', 'No test indexes a trajectory.',
 T, [('Trajectory.__getitem__', T)], 'Trajectory.__getitem__')
prop('C03', 'Collecting the particles of a frame from trajectories',
 "collect_particles_generic returns, for the trajectories which have the given frame, the row (position, velocity, frame, trajectory id) of that frame, except that of particles in the same position one is kept. With path segments the result has two layers, the row in the frame and the row of the same trajectory in the next frame, and trajectories which do not have the next frame right after are left out.",
 'inputs', 'every list of trajectories, frame number and path_seg', 'No test calls it.',
 IO + ' ' + T, [('collect_particles_generic', IO), ('mark_unique_rows', T)], 'collect_particles_generic')
prop('C04', 'mark_unique_rows keeps one row of each position',
 "mark_unique_rows returns row indices in strictly increasing order, such that no two of the selected rows have the same first 3 columns, and every row of the input has the same first 3 columns as some selected row.",
 'inputs', 'every table of at least one row', 'Only tables without repeated positions reach it in the tests.',
 T, [('mark_unique_rows', T)], 'mark_unique_rows')
prop('C05', 'trajectories_in_frame finds the trajectories active in a frame',
 "trajectories_in_frame returns, in increasing order, indices of trajectories whose time range includes the frame (and also the next frame, if segments are asked for), and no others; of the trajectories in the same position in that frame exactly one is returned, and trajectories in distinct positions are all returned. The result is the same whether the start and end times are given by the caller or not.",
 'inputs', 'every list of gap-free trajectories, frame and segs', 'The tests look at two fixed scenes without overlapping particles, and never at first/last frames.',
 T, [('trajectories_in_frame', T), ('mark_unique_rows', T)], 'trajectories_in_frame')
prop('C06', 'take_snapshot takes every property of every trajectory at one frame',
 "The snapshot of a list of trajectories at a frame holds one particle for each trajectory, in the list's order: each property in the schema has the value and type it has in that trajectory at that frame, with the trajectory's id, and the snapshot's time is the frame. An empty list gives an empty snapshot which still has every property of the schema with its shape.",
 'inputs', 'every list of gap-free trajectories of one schema, which all have the frame', 'Tests use it only through two fixed sequences.',
 T, [('take_snapshot', T)], 'take_snapshot')
prop('C07', 'Iterating a sequence visits each frame once, with matching segments',
 "Iterating a Sequence visits each frame number from the range's first until, not including, its last, once and in order, and gives for particles and tracers a snapshot of the frame and one of the next frame, which hold the same trajectories in the same order: those selected trajectories that have both frames (one for each position). iter_subrange does the same for the subrange only. Earlier iterations, complete or abandoned, change nothing in later ones.",
 'inputs histories', 'every pair of trajectory databases, range, subrange, and order of iterations', 'The tests only read and write the configuration of a sequence.',
 SQ + ' ' + T, [('Sequence.__iter__/next/iter_subrange', SQ), ('trajectories_in_frame, take_snapshot', T)], 'Sequence iteration',
 [('_frame', 'the next frame to visit', SQ), ('_act_rng', 'range of the current iteration', SQ)])
prop('C08', 'map_trajectories gives each trajectory its time series of results',
 "map_trajectories calls the function once for each frame in the (sub)range, in order, and returns for each particle trajectory which has at least one segment in the (sub)range an array with the results the function gave for that trajectory's id, one for each of its segments in the (sub)range, in time order; trajectories without a segment there are absent. With history the function also receives the results accumulated so far, and extra arguments are passed along after it.",
 'inputs histories', 'every database of trajectories in distinct positions, subrange and function', 'No test calls it.',
 SQ, [('Sequence.map_trajectories', SQ)], 'Sequence.map_trajectories')
prop('C09', 'A sequence configuration survives saving and reading',
 "Reading a configuration which a Sequence saved gives a Sequence with the same frame range, frame rate, particle diameter and density, file names, smoothing flag and minimal trajectory length. Smoothing and minimal length given to read_sequence override the file; missing in both, they are False and 0.",
 'inputs configurations', 'every range, rate, diameter, density, file name (including % signs) and option', 'One fixed configuration is tested, with the minimal length given explicitly.',
 SQ, [('Sequence.save_config', SQ), ('read_sequence', SQ)], 'read_sequence; Sequence.save_config')
prop('C10', 'ptv_is/xuap particles are linked to the right trajectories',
 "Reading a range of ptv_is (one file for each frame, or one file for all) or xuap frames gives, for each chain of particles linked by the files' prev/next columns which ends (has no next link) in a frame read after the first, and has at least the minimal number of frames, exactly one trajectory: its positions are the chain's particles in frame order, its times the consecutive frame numbers. A chain starts where there is no previous link, or at the first frame read; no two trajectories have the same id, and results do not depend on any other trajectory.",
 'inputs', 'every consistent set of frames and links, range and minimal length', 'One data set of 3 parallel, equally long trajectories is compared, and the number of trajectories in another.',
 IO, [('iter_trajectories_ptvis', IO), ('FramesIterator, SingleFileIterator', IO)], 'trajectories_ptvis; iter_trajectories_ptvis',
 [('frames, frame_buffer_start, traj_starts', 'the buffered frames and where each open trajectory starts', IO)])
prop('C11', 'ptv_is/xuap units, velocities and accelerations',
 "Trajectories of ptv_is files have positions in metres (file values / 1000), velocity at each point the difference to the next position times the frame rate, and 0 at the last point; xuap trajectories have positions and velocities as they are in the file. In both, acceleration at each point is the difference to the next velocity times the frame rate, and 0 at the last two points.",
 'inputs', 'every trajectory, frame rate and length', 'One data set at frame rate 1.',
 IO, [('iter_trajectories_ptvis', IO)], 'trajectories_ptvis')
prop('C12', 'trajectories() honours range and minimal length in every format',
 "trajectories() on an HDF file or NPZ directory returns every stored trajectory restricted to the frames from first to last, both included (None for no limit), without those left with fewer than the minimal number of points (by default 2); on frame-per-file formats it uses exactly the files whose number is in that inclusive range. A list and an iterator result hold the same trajectories, and the format found from the file name gives the same as naming it.",
 'inputs configurations', 'every database, range, minimal length, format and iter_allowed', 'Only one ptv_is range, the full one, is read with a fixed result.',
 IO + ' ' + SC, [('trajectories', IO), ('load_trajectories', IO), ('Scene.set_frame_range', SC)], 'trajectories')
prop('C13', 'Trajectories survive saving to and reading from HDF',
 "Trajectories saved by save_particles_table are read back (by Scene, trajectories_table or trajectories) with the same ids, and each with the same value of every property at every time point, in the same order; with trim=n each has lost exactly its first and last n points, and those not longer than 2n are absent. The bounds table holds for each saved trajectory its id, first and last saved time.",
 'inputs', 'every list of trajectories of one schema with integer or float times, at least one of which is long enough, and every trim', 'One trim of one data set is compared, by its number of frames.',
 IO + ' ' + SC, [('save_particles_table', IO), ('trajectories_table', IO), ('Scene', SC)], 'save_particles_table; trajectories_table; Scene')
prop('C14', 'Frames survive saving to and reading from HDF',
 "Frames saved by save_frames_hdf are read back by Scene frame by frame with the same particles, in the same order, and every property the same. trajectory_tags() gives for each trajectory its id and the first and last frame it appears in, also when it is missing from frames in between, and bounding_box() the minimum and maximum of all positions on each axis.",
 'inputs', 'every series of frames in time order, at least one not empty', 'No test saves frames.',
 IO + ' ' + SC, [('save_frames_hdf', IO), ('Scene.bounding_box, trajectory_tags', SC)], 'save_frames_hdf; Scene.iter_frames; Scene.bounding_box; Scene.trajectory_tags')
prop('C15', 'Trajectories survive saving to and reading from an NPZ directory',
 "Trajectories saved by save_trajectories are read back by load_trajectories with the same ids and the same value of every property, and every per-trajectory added array comes back under its name and trajectory id. With first and/or last given, trajectories are restricted to those frames, both ends included, those without any such frame are absent, and added arrays are returned whole.",
 'inputs', 'every list of trajectories, added arrays and range', 'No test uses NPZ directories.',
 IO, [('save_trajectories', IO), ('load_trajectories', IO)], 'save_trajectories; load_trajectories')
prop('C16', 'trajAcc and Matlab files are read into the right trajectories',
 "Reading trajAcc files gives one trajectory for each block of rows starting with age 0, with position, velocity and acceleration from columns 0-2, 3-5 and 6-8, time equal to the file's frame number plus age, and ids without repetition; reading a Matlab file gives one trajectory for each record, with position, velocity and acceleration divided by 1000, the recorded times and id. collect_particles gives the rows (columns 0-5 and age) of the particles found in a frame in the trajAcc files of this and the preceding frames.",
 'inputs', 'every set of files of these formats', 'No test reads these formats.',
 IO, [('trajectories_acc, trajectories_mat, collect_particles', IO)], 'trajectories_acc; trajectories_mat; collect_particles')
prop('C17', 'A scene iterates exactly the frames in its range, with exactly their rows',
 "Scene.iter_frames yields one snapshot for each frame number from the range's first until, not including, its last (from the first to the last time in the data where not limited), in order, with the frame number as time and holding exactly the stored rows of that time, in stored order, with every property aligned to its trajid; frame_by_time gives the same for one frame. A range end given as None is not limited.",
 'inputs histories', 'every particle table, range (and order of range changes)', 'Tests only use trajectory iteration and one collect.',
 SC, [('Scene.set_frame_range, iter_frames, _iter_frame_arrays, frame_by_time', SC)], 'Scene.iter_frames; Scene.frame_by_time; Scene.frame_range',
 [('_first, _last, _frame_limit', 'active range and the equivalent query', SC)])
prop('C18', 'A scene iterates its trajectories, each with exactly its rows in range',
 "Scene.iter_trajectories yields, for each stored trajectory id once, and trajectory_by_id gives for one id, a trajectory which has exactly the stored rows of that id whose time is in the active frame range (first <= time < last), in stored order, with all properties aligned.",
 'inputs histories', 'every particle table and range', 'One file is iterated, with one subrange; only time limits are compared.',
 SC, [('Scene.iter_trajectories, trajectory_by_id, trajectory_ids', SC)], 'Scene.iter_trajectories; Scene.trajectory_by_id; Scene.trajectory_ids')
prop('C19', 'Scene segments hold the same particles in two consecutive frames',
 "Scene.iter_segments yields, for each frame in the range that has a next one in the range, in order, a snapshot of the frame and one of the next frame: each holds exactly the rows of its frame whose trajectory is in both frames, with all properties aligned, and their times differ by 1. So both have the same set of trajectory ids.",
 'inputs', 'every particle table and range, including empty frames', 'No test iterates segments of a scene.',
 SC, [('Scene.iter_segments, pairwise', SC)], 'Scene.iter_segments')
prop('C20', 'Scene.collect returns exactly the rows that satisfy the selection',
 "Scene.collect returns, for each key in order, the values of exactly those stored rows that are in the active frame range and satisfy every condition: min <= value < max for a plain range (value < min or value >= max for an inverted one). Values returned for several keys belong to the same rows in the same, stored, order; without range or conditions all rows are returned.",
 'inputs', 'every particle table, range, key list and conditions', 'One condition on one file is compared.',
 SC, [('Scene.collect, gen_query_string', SC)], 'Scene.collect; gen_query_string')
prop('C21', 'A dual scene pairs tracer and particle frames of the same time',
 "DualScene.iter_frames and iter_segments yield, for each frame (segment) in the range both scenes are limited to, one Frame whose tracers and particles are those of the tracer file and particle file at the same time. A range given to the iteration holds only for its duration: afterwards, even if it was abandoned, both scenes have the range set when the dual scene was made.",
 'inputs histories', 'every pair of tables covering the range, ranges, and order of iterations', 'The tests iterate one dual scene in the analysis of fixed data.',
 SC, [('DualScene.iter_frames, iter_segments, read_dual_scene', SC)], 'DualScene.iter_frames; DualScene.iter_segments',
 [('_rng', 'range restored after iteration', SC)])
prop('C22', 'The analysis table has one aligned row for each particle of each segment',
 "analysis() writes, for each segment of the dual scene in order, one row for each inertial particle in the segment's first frame, in order: its trajectory id, the frame's time, and for each analyser the values it returned for this particle in this frame, under the names the analyser described. Nothing else is in the table.",
 'inputs', 'every dual scene and list of analysers', 'No test runs analysis(), only one analyser on fixed frames.',
 AN, [('analysis', AN)], 'analysis')
prop('C23', 'Fluid velocity analysis excludes each particle\'s companion tracer',
 "FluidVelocitiesAnalyser gives, for each particle, the interpolant's value at the particle's position from the frame's tracer positions and velocities, and the particle's velocity minus that value. When particles have a companion property, the tracer whose trajectory id is a particle's companion is not used for that particle; a companion id that is not among the tracers excludes nothing.",
 'inputs', 'every frame, companion ids and interpolant', 'Two fixed frames, each with one interpolation point.',
 AN, [('companion_indices', AN), ('FluidVelocitiesAnalyser.analyse', AN)], 'FluidVelocitiesAnalyser.analyse; companion_indices')
prop('C24', 'An analysed scene joins particle data and analysis by frame and trajectory',
 "AnalysedScene.collect returns, for each key in order, the values from the particle data or the analysis for the particles that in a frame of the scene's range are in both and satisfy every condition, so that values of different keys belong to the same particle and frame. trajectory_by_id and iter_trajectories give each particle trajectory without its last point, with the analysis results of that trajectory as added properties.",
 'inputs', 'every dual scene and analysis of it, key list and conditions', 'No test opens an analysed scene.',
 AS, [('AnalysedScene.collect, trajectory_by_id, iter_trajectories', AS)], 'AnalysedScene.collect; AnalysedScene.trajectory_by_id')
prop('C25', 'select_neighbs marks exactly the nearest eligible tracers',
 "select_neighbs marks for each interpolation point, when no radius is given, the num_neighbs eligible tracers nearest to it (all, if there are fewer), and with a radius all the eligible tracers closer than that; a tracer is not eligible for a point if it is in the same position or is the point's companion. The distances are Euclidean, 0 for tracers that are not eligible.",
 'inputs', 'every set of tracers and points, radius, number of neighbours and companions', 'Three tracers and a fixed point are tested.',
 IN, [('select_neighbs', IN)], 'select_neighbs; GeneralInterpolant.neighb_dists')
prop('C26', 'A recorded scene knows each point\'s nearest eligible tracers',
 "After setting a scene, current_active_neighbs, current_dists and current_relative_positions give for each interpolation point its num_neighbs nearest eligible tracers (not in the same position, not its companion, and closer than the radius if there is one) in order of distance: their indices, distances, and positions relative to the point. Where there are fewer, the index is the number of tracers and the distance infinite.",
 'inputs', 'every set of tracers in distinct positions, points, companions, number of neighbours and radius', 'Fixed scenes of a few tracers, one with a companion.',
 IN, [('GeneralInterpolant._select_neighbs, _forego_laziness', IN)], 'current_active_neighbs; current_dists; current_relative_positions')
prop('C27', 'Inverse-distance interpolation is the distance-weighted mean',
 "InverseDistanceWeighter's interpolation at each point is the mean of the data of the point's neighbours weighted by distance to the power of minus the parameter; missing neighbours contribute nothing, whatever was computed before. So where all data are equal it returns that value, and results are within the range of the neighbours' data; calling the object gives the same as recording the scene and interpolating.",
 'inputs', 'every scene with at least one neighbour for each point, data dimension, parameter and number of neighbours', 'Fixed scenes with 3 components and enough neighbours.',
 IN, [('InverseDistanceWeighter.weights, _apply_weights, _meth_interp, _ensure_matched_data', IN)], 'InverseDistanceWeighter.interpolate; __call__')
prop('C28', 'The inverse-distance Jacobian is the derivative of the interpolation',
 "InverseDistanceWeighter.eulerian_jacobian gives for each interpolation point and [i,j] the partial derivative of the interpolated component i along axis j at that point, for the point's recorded neighbours. Missing neighbours contribute nothing.",
 'inputs', 'every scene, data, parameter and number of neighbours', 'One symmetric scene is compared.',
 IN, [('InverseDistanceWeighter.eulerian_jacobian', IN)], 'InverseDistanceWeighter.eulerian_jacobian')
prop('C29', 'An interpolant\'s results do not depend on what it did before',
 "After any series of set_scene, set_field_positions, set_interp_points, set_data_on_current_field, trim_points, interpolate (also with a subset), off-scene calls and Jacobians, an interpolant's results are those of a new interpolant with the same parameters given the current tracers, points (less those trimmed), companions and data. In particular no result uses data, positions or weights that have been replaced, and off-scene calls and subset interpolations change nothing.",
 'histories', 'every order of operations and all their arguments', 'Two fixed two-step histories are tested.',
 IN, [('_drop_neighbours_cache, _forego_laziness, trim_points, set_* methods', IN)], 'interpolate; eulerian_jacobian; current_dists; current_active_neighbs; current_relative_positions',
 [('__dists, __active_neighbs, __rel_pos, __matched_data, __weights', 'caches derived from the scene', IN)])
prop('C30', 'RBF and correlation-function interpolation follow their formulas',
 "For 'rbf' each component at a point is the sum over its neighbours of c_j exp(-eps d_j^2), where the coefficients c solve the system that makes the sum reproduce the data at each of the neighbours; for 'corrfun' it is the mean of the neighbours' data weighted by the correlation of the bin the distance falls in. Interpolating a recorded scene gives the same as the off-scene call with the same tracers, points, data and companions, when no radius is set.",
 'inputs', 'every scene, data, parameter and number of neighbours for which the system is regular', 'One RBF scene is compared to a number.',
 IN, [('rbf_interp, corrfun_interp', IN), ('GeneralInterpolant._meth_interp, __call__', IN)], 'GeneralInterpolant.interpolate; __call__; eulerian_jacobian')
prop('C31', 'An interpolant configuration survives saving and reading',
 "Reading a configuration which an interpolant saved gives an interpolant of the same method, number of neighbours, radius (including none) and parameter.",
 'inputs configurations', 'every method, number of neighbours, radius and parameter', 'One configuration with a radius is tested.',
 IN, [('GeneralInterpolant.save_config', IN), ('read_interpolant', IN)], 'read_interpolant; save_config')
prop('C32', 'particle_pairs finds the nearest secondary particle of the same frame',
 "particle_pairs returns for each requested (trajectory id, time index), in the order requested, the id and time index of a secondary particle in the same frame such that no other secondary particle with a next frame is nearer; where no secondary trajectory has that frame and the next, the time index is -1.",
 'inputs', 'every primary and secondary list of gap-free trajectories, and requests of particles', 'No test calls it.',
 PA, [('particle_pairs', PA)], 'particle_pairs')
prop('C33', 'Savitzky-Golay smoothing is a polynomial fit, aligned with its trajectory',
 "savitzky_golay returns, for each trajectory at least as long as the window and no others, in order, a trajectory of the same length, time and id whose position, velocity and acceleration at each point (away from the ends by half a window) are those of the least-squares polynomial of the given order over the window around it; a polynomial motion of at most that order is reproduced exactly. vel_pp and acc_pp at a point are the extrapolation of the fit at the preceding point, and all other properties are copied.",
 'inputs', 'every list of trajectories, odd window size, order and frame rate', 'No test calls it.',
 SM, [('savitzky_golay', SM)], 'savitzky_golay')
prop('C34', 'A histogram PDF covers all samples and integrates to one',
 "pdf_bins returns num_bins densities and num_bins+1 increasing edges, from the smallest to the largest sample (positive sample, for logarithmic bins, whose edges have a constant ratio); each density times its bin's width is the fraction of (positive) samples that fall in the bin, so they sum to 1.",
 'inputs', 'every data set with at least two different (positive) samples and number of bins', 'No test calls it.',
 GR, [('pdf_bins', GR)], 'pdf_bins')
prop('C35', 'Configured frame and scene sources are read as configured',
 "read_frame_data returns the configured particle and frame rate, and for the configured frame and the next one the tracers and particles of the trajectories which have both frames, in the same order in both; read_dual_scene gives a dual scene of the configured files, particle, rate, and range with the configured last frame included.",
 'inputs configurations', 'every configuration and pair of databases', 'read_dual_scene is used once with fixed values; read_frame_data never.',
 IO + ' ' + SC, [('read_frame_data', IO), ('read_dual_scene', SC)], 'read_frame_data; read_dual_scene')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
