#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(dict.fromkeys(files)), mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'observe_at': [observe]} if observe else {}))))

p('T01', 'Worker pool runs every task once, loses none, and shuts down',
  'Every task handed to the worker pool before shutdown is executed exactly once by one worker, first come first served, never more at a time than there are workers, and each task has an identifier no other task has. '
  'Waiting on a task returns once (and not before) it has run or has been dropped by shutdown, and the count of unfinished tasks is back to its old value when all tasks have ended. '
  'Shutting the pool down returns with no worker left running, whatever is queued, idle or running, and an abort request reaches a running task; all of this without data races.',
  ['schedules', 'histories'], 'all interleavings of submit, run, wait, abort, resize and shutdown from any number of threads',
  'a unit test runs one schedule on an idle machine; a lost wake-up, a double pop or a shutdown race appears only in particular interleavings',
  ['threads/thread_pool.cc', 'threads/thread_task.cc', 'threads/thread_controller.cc', 'threads/thread_pool.h', 'threads/thread_task.h'],
  [('task queue guarded by mutex and condition variable', 'threads/thread_pool.cc'), ('active task counter and per-task id', 'threads/thread_task.cc'), ('singleton pool', 'threads/thread_controller.cc')],
  'task run() entry/exit, num_active(), wait(), pool destructor')

p('M01', 'Object manager is an atomic keyed collection with exact notifications',
  'A managed collection behaves, under any concurrent mix of add, remove, find and list, as one atomic map from keys to objects: each call takes effect at a single instant, a rejected or failed call changes nothing, and lists are consistent snapshots. '
  'Each addition and removal that takes effect is reported exactly once to every listener registered for the collection, and an update is delivered exactly once to every listener that is registered with the object and to no other.',
  ['histories', 'schedules'], 'all sequential and concurrent histories of operations on a manager and its objects',
  'unit tests add and remove a handful of objects from one thread; atomicity and exactly-once delivery are claims about all histories',
  ['managed/manager_template.h', 'managed/managed_obj.h', 'managed/manager_listener.h', 'managed/update_notifier.h', 'managed/update_listener.h', 'threads/read_write_lock.h'],
  [('keyed map guarded by reader/writer lock', 'managed/manager_template.h'), ('listener sets', 'managed/update_notifier.h')],
  'return values of add/remove/find/list and listener callbacks')

p('O01', 'Environment snapshots are stable and can be queried concurrently',
  'Every reader of the shared environment gets one complete model, never a mixture of old and new, and what it got stays valid and unchanged after newer ones are published or the shared one is reset. '
  'Any number of threads may query the same environment (sound speed, gradients, attenuation, depths, reflection, scattering, ambient noise) at once: there are no data races, and every answer equals the one a single thread gets.',
  ['schedules', 'histories'], 'all interleavings of publishing, resetting and querying an environment built from any mix of models',
  'tests query environments from one thread with one publication; sharing of hidden caches only shows under concurrency',
  ['ocean/ocean_shared.h', 'ocean/ocean_shared.cc', 'ocean/ocean_model.h', 'ocean/ocean_model.h', 'types/gen_grid.h', 'types/data_grid_svp.h', 'types/data_grid_bathy.h'],
  [('atomic publication of the current model', 'ocean/ocean_shared.cc'), ('const interpolation on shared grids', 'types/gen_grid.h')],
  'values returned to each querying thread; ThreadSanitizer reports')

p('S01', 'Axis sequences: values, increments and lookups agree for every sequence',
  'For every increasing or decreasing axis of any kind (evenly spaced, logarithmic, ray fan, arbitrary, augmented, chosen automatically) the elements, the increments, the first/last values, iteration in both directions and the bulk copy describe the same sequence. '
  'Looking up a value returns the interval that contains it (or the nearest element), limited to the first or last interval outside of the axis, for every value including element values themselves, out of range values and one-element axes. '
  'Choosing an axis type automatically, clipping and comparing preserve the element values.',
  ['inputs'], 'all axes the constructors accept and all finite lookup values',
  'tests look at a few axes and a few values; off-by-one and rounding errors at elements and at the ends depend on the particular numbers',
  ['types/seq_vector.h', 'types/seq_vector.cc', 'types/seq_linear.h', 'types/seq_log.h', 'types/seq_data.h', 'types/seq_rayfan.h', 'types/seq_augment.h'],
  [('find_index / find_nearest', 'types/seq_*.h'), ('build_best, clip, equality', 'types/seq_vector.cc')])

p('G01', 'Grid interpolation reproduces data, stays in bounds and has true slopes',
  'Interpolating a gridded field returns the stored value at every grid node, depends continuously on location, and equals the documented rule between nodes for each dimension: nearest value, multi-linear, or shape preserving cubic that never leaves the range of the neighbouring data along monotone stretches and is exact for linear data on any axis spacing. '
  'Returned derivatives are the slopes of the documented rule in every dimension (exact for linear interpolation, zero for nearest, a linear blend of the node slopes for the cubic), limiting at the edges uses the value at the closest edge, and the answer is independent of earlier queries and of the axis being increasing or decreasing.',
  ['inputs', 'histories'], 'all grids of one to three dimensions, all axis kinds and spacings, all interpolation type combinations, all locations',
  'tests interpolate a few smooth functions on regular axes; the properties are about every location, spacing, edge and combination of types',
  ['types/gen_grid.h', 'types/data_grid.h', 'types/data_grid.h'],
  [('nearest/linear/pchip recursion', 'types/gen_grid.h'), ('edge limiting', 'types/data_grid.h')])

p('G02', 'Fast grids agree with the general grid interpolation',
  'The specialised interpolators for sound speed (vertical cubic, horizontal linear) and for bathymetry (horizontal cubic) return, for every location, the values of the general rule they accelerate: node values are reproduced, smooth fields are approximated with the accuracy of the general grid, edges are limited to the closest edge, and derivatives are the slopes of the returned values. '
  'They neither write outside of their tables nor change the caller\'s location.',
  ['inputs'], 'all grids and locations, including decreasing axes, uneven spacing, edges and outside points',
  'tests compare both on one smooth analytic field',
  ['types/data_grid_svp.h', 'types/data_grid_svp.h', 'types/data_grid_bathy.h', 'types/data_grid_bathy.h'],
  [('precomputed derivative tables', 'types/data_grid_svp.cc, types/data_grid_bathy.cc')])

p('W01', 'Positions: coordinate conversions, ranges and bearings are consistent',
  'Latitude, longitude and altitude round trip through spherical coordinates, and the one-point and the matrix forms of positions and vectors give the same results. '
  'Distances are symmetric, non-negative and, within rounding, equal the straight line between the points; range and bearing along the great circle agree with spherical trigonometry and travelling that range on that bearing ends at the other point, everywhere on the globe including poles, equator and date line. '
  'Dot products, directions and areas of vectors agree with their Cartesian definitions.',
  ['inputs'], 'all positions on and near the earth and all pairs of them',
  'tests check a few published city pairs',
  ['types/wposition.h', 'types/wposition.cc', 'types/wposition1.h', 'types/wposition1.cc', 'types/wvector.h', 'types/wvector.cc', 'types/wvector1.h', 'types/wvector1.cc'],
  [('gc_range, distance, dot', 'types/wposition1.cc'), ('matrix versions', 'types/wposition.cc, types/wvector.cc')])

p('W02', 'Orientations are proper rotations and round trip their angles',
  'Every orientation is a rotation: lengths and angles between vectors are preserved, handedness is kept, and rotating to body axes and back returns the vector. '
  'Yaw, pitch and roll read back equal those that were set (outside of the vertical pitch singularity), in any order of setting one angle after construction, copying or combination; combining orientations equals applying one rotation after the other, and inverses undo. '
  'Body vectors built from elevation and azimuth point in that direction.',
  ['inputs', 'histories'], 'all angles and all sequences of construction, setting, copying, rotating and inverse rotating',
  'tests use a few hand computed angles',
  ['types/orientation.h', 'types/orientation.cc', 'types/bvector.h', 'types/bvector.h'],
  [('rotation matrix and angle extraction', 'types/orientation.cc'), ('rotate / inverse', 'types/bvector.h')])

p('U01', 'Vector and matrix math equals the scalar function on every element',
  'Every elementwise function on vectors and matrices (real and complex; trigonometric, exponential, rounding, comparison, power, limit and signal functions) returns exactly what the scalar function returns for each element, for any shape and for any expression argument, and leaves its arguments alone. '
  'Random generators give the same sequence for the same seed, independently of one another and of how values are requested, with values in the documented range and distribution.',
  ['inputs'], 'all shapes and all values including zero, negative, subnormal, infinite and not-a-number elements',
  'tests compare a few well behaved values',
  ['ublas/math_traits.h', 'ublas/vector_math.h', 'ublas/matrix_math.h', 'ublas/scalar_math.h', 'ublas/randgen.h', 'ublas/randgen.cc'],
  [('functors', 'ublas/math_traits.h'), ('expression wrappers', 'ublas/vector_math.h, ublas/matrix_math.h'), ('seeded generator', 'ublas/randgen.cc')])

p('B01', 'Boundary heights and normals describe one surface',
  'For every flat, sloped, gridded or file-based boundary the height is that of the described surface, the normal has unit length, points to the same side of the surface everywhere and is perpendicular to the height surface (it matches the slope of the heights around the point), and the many-point query returns for every point what the one-point query returns. '
  'Volume layers and text-file bathymetry keep depth, thickness, orientation of the grid and position of each sample.',
  ['inputs'], 'all boundary types, parameters and locations',
  'tests probe a few locations on a few surfaces',
  ['ocean/boundary_flat.h', 'ocean/boundary_flat.cc', 'ocean/boundary_slope.h', 'ocean/boundary_slope.cc', 'ocean/boundary_grid.h', 'ocean/boundary_model.h', 'ocean/volume_flat.h', 'ocean/volume_flat.h', 'ocean/ascii_arc_bathy.h', 'ocean/ascii_arc_bathy.cc'],
  [('height()/normal computation', 'ocean/boundary_*.h, .cc')])

p('R01', 'Boundary loss, scattering, attenuation and noise obey physical bounds',
  'Reflection loss from any model is finite and never a gain, agrees with the closed form the model documents (fluid/solid half space, rough surface, tabulated, constant), grows or shrinks with grazing angle, roughness and frequency as that law says, and is evaluated per frequency independently of the other frequencies asked for. '
  'Scattering strength is non-negative, follows its published law, and the many-point query equals the one-point query; volume attenuation is proportional to distance and follows its published law; ambient noise likewise. '
  'Environment level queries return exactly what the model configured for that boundary or layer returns.',
  ['inputs', 'configurations'], 'all model parameters, grazing angles from grazing to vertical, frequencies, and environment compositions',
  'tests compare a few table entries',
  ['ocean/reflect_loss_rayleigh.cc', 'ocean/reflect_loss_eckart.h', 'ocean/reflect_loss_beckmann.cc', 'ocean/reflect_loss_constant.h', 'ocean/reflect_loss_netcdf.cc', 'ocean/scattering_lambert.h', 'ocean/scattering_chapman.h', 'ocean/attenuation_thorp.cc', 'ocean/attenuation_constant.h', 'ocean/ambient_wenz.cc', 'ocean/wave_height_pierson.h', 'ocean/ocean_model.h'],
  [('loss and scattering formulas', 'ocean/*.cc')])

p('P01', 'Sound speed profiles and their gradients describe one field',
  'For every profile (linear, bilinear, catenary, Munk, n2-linear, gridded, from temperature/salinity, text file) the sound speed is positive and equals its published formula, and the gradient returned with it is the derivative of that sound speed with respect to position in every direction; the speed is the same whether or not the gradient is asked for. '
  'Every point of a query is answered independently of the others, and the query location is left unchanged.',
  ['inputs'], 'all profile parameters and all locations in the water and around it',
  'tests check ray paths in a few profiles, which hides small gradient errors and edge regions',
  ['ocean/profile_model.h', 'ocean/profile_linear.h', 'ocean/profile_munk.h', 'ocean/profile_catenary.h', 'ocean/profile_n2.h', 'ocean/profile_grid.h', 'ocean/data_grid_mackenzie.h', 'ocean/ascii_profile.cc'],
  [('sound_speed() and gradient', 'ocean/profile_*.h')])

p('N01', 'Gridded ocean data files are read at the right places',
  'For every well formed profile, bathymetry and reflection table file, the field read for any requested region returns the stored value (after scale, offset and missing value rules) at every stored latitude, longitude and depth inside of the region and nothing else, for global and regional files with -180..180 or 0..360 longitudes, and for regions that cross the seam or the file limits, with longitudes as they were requested. '
  'Missing samples are filled only from valid data (nearest the most), valid samples are never changed, and monthly and seasonal data are merged at the right depths. '
  'Files that are missing or malformed, and regions outside of the file, are refused with an error rather than read out of bounds.',
  ['inputs', 'configurations'], 'all file layouts and requested regions',
  'the shipped tests read a few fixed data sets and look at one region each',
  ['netcdf/netcdf_files.h', 'netcdf/netcdf_profile.cc', 'netcdf/netcdf_bathy.cc', 'netcdf/netcdf_woa.cc', 'netcdf/netcdf_coards.h', 'ocean/reflect_loss_netcdf.cc', 'ocean/ascii_arc_bathy.cc', 'ocean/ascii_profile.cc'],
  [('region selection and longitude wrap', 'netcdf/netcdf_profile.cc, netcdf/netcdf_bathy.cc'), ('missing data fill', 'netcdf/netcdf_profile.cc')])

p('N02', 'Exported files contain exactly the results they export',
  'Writing propagation paths, reverberation patches, overlaps, wavefronts, envelopes or gridded fields to a file produces, for any collection including empty ones, a readable file with one record per item, whose values in the documented units equal the in-memory values and whose index tables lead to the items of each target. '
  'Reading back reverberation patches restores the collection that was written.',
  ['inputs'], 'all collections: sizes including zero, several targets, frequencies, interfaces and extreme values',
  'tests write one collection and do not read it back',
  ['eigenrays/eigenray_collection.cc', 'eigenverbs/eigenverb_collection.cc', 'biverbs/biverb_collection.cc', 'rvbts/rvbts_collection.cc', 'waveq3d/wave_queue_netcdf.cc', 'types/data_grid.h', 'ocean/profile_grid.h', 'ocean/boundary_grid.h'],
  [('write_netcdf / read_netcdf', 'the collections')])

p('A01', 'Beam patterns are bounded, steerable and have the right shape',
  'For every beam pattern the response is finite, non-negative and one in its steering direction (where the pattern is steerable) or its documented peak, follows the documented closed form for the geometry, has the symmetries of that geometry, and does not depend on what the output held before or on the other frequencies requested together. '
  'Combined patterns are the products (or sums, as asked for) of their parts, tabulated patterns return their table entries, and directivity is the solid angle average of the response or the closed form documented for the pattern.',
  ['inputs'], 'all array geometries, steering directions, arrival directions and frequency lists',
  'tests plot a few patterns for one frequency',
  ['beampatterns/bp_line.cc', 'beampatterns/bp_planar.cc', 'beampatterns/bp_arb.cc', 'beampatterns/bp_piston.cc', 'beampatterns/bp_cardioid.cc', 'beampatterns/bp_trig.cc', 'beampatterns/bp_solid.cc', 'beampatterns/bp_multi.cc', 'beampatterns/bp_gaussian.cc', 'beampatterns/bp_grid.cc', 'beampatterns/bp_model.cc', 'beampatterns/beampattern_utilities.cc'],
  [('beam_level()', 'beampatterns/bp_*.cc'), ('directivity()', 'beampatterns/bp_model.cc')])

p('A02', 'Transmit signals and windows have the requested length, phase and shape',
  'A generated signal has the number of samples its duration asks for at any sample rate, the instantaneous phase of its documented waveform at every sample relative to the band centre, and a magnitude equal to its window; the returned end phase lets the next pulse continue without a phase jump. '
  'Windows are symmetric, bounded by one, peak in the middle, follow their documented formula, and are finite for every length including one.',
  ['inputs'], 'all waveform parameters, sample rates, bands, phases, window types and lengths',
  'tests write one time series',
  ['transmit/transmit_cw.cc', 'transmit/transmit_lfm.cc', 'transmit/transmit_model.cc', 'transmit/window.h'],
  [('asignal()', 'transmit/*.cc'), ('window functions', 'transmit/window.h')])

p('Q01', 'Wavefronts follow the laws of refraction at every step',
  'At every time step of every propagation the direction of each ray has unit length when scaled by the local sound speed, travel time and path length advance together, rays follow Snell\'s law (horizontal slowness is conserved in range independent oceans, straight lines or great circles at constant speed), and the result converges with the time step as the integration order promises. '
  'Each ray is independent of the other rays in the fan, of targets and of listeners, and repeated runs give identical results.',
  ['inputs', 'histories'], 'all sources, fans, profiles, time steps and numbers of steps',
  'tests follow a few rays in a few analytic profiles',
  ['waveq3d/wave_queue.cc', 'waveq3d/wave_front.cc', 'waveq3d/ode_integ.cc'],
  [('Adams-Bashforth integration with Runge-Kutta start', 'waveq3d/ode_integ.cc'), ('ray equations', 'waveq3d/wave_front.cc')])

p('Q02', 'Reflections are specular, keep rays in the water and count every bounce',
  'Every ray that meets the surface or bottom is reflected there with equal incident and reflected angle about the local normal, stays between surface and bottom afterwards, and has its loss, phase shift and bounce count increased exactly once per bounce; bounce listeners are told the time, place and grazing angle of exactly those bounces. '
  'Travel time and path length stay continuous through a bounce, and vertices and caustics are counted when they occur and only then.',
  ['inputs', 'histories'], 'all bottoms (flat, sloped, gridded), sources, launch directions and bounce sequences',
  'tests follow one bouncing ray over one flat and one sloped bottom',
  ['waveq3d/reflection_model.cc', 'waveq3d/wave_queue.cc', 'waveq3d/reflection_notifier.cc'],
  [('bottom_reflection / surface_reflection / reinit', 'waveq3d/reflection_model.cc'), ('detect_*', 'waveq3d/wave_queue.cc')])

p('Q03', 'Eigenrays found are the paths that exist, once each, with true times and angles',
  'In an ocean where the connecting paths are known exactly, propagation reports each direct, surface and bottom reflected path to each target inside of the fan exactly once, with its surface, bottom and vertex counts, its travel time (to a fraction of a time step plus what the spacing of azimuths costs) and its launch and arrival angles (to a fraction of the fan spacing). '
  'What is reported for a target does not depend on other targets in the same run, on the compass orientation of the whole scene, or on the ends of the azimuth fan as long as the target is well inside of it; bounce limits and intensity limits suppress exactly the paths beyond the limits.',
  ['inputs'], 'all source/target geometries, fans (partial, full circle, uneven) and thresholds',
  'tests look at one or two geometries',
  ['waveq3d/wave_queue.cc', 'waveq3d/wave_front.cc', 'eigenrays/eigenray_notifier.cc', 'waveq3d/wave_thresholds.h'],
  [('closest point of approach search', 'waveq3d/wave_queue.cc'), ('offset computation', 'waveq3d/wave_queue.cc')])

p('Q04', 'Propagation loss follows spreading, absorption and boundary losses',
  'The intensity reported for a path equals the geometric spreading of the ray tube (20 log range for straight paths) plus absorption along the path plus every boundary loss met, per frequency, for both spreading models, independent of fan position and of the position of the target between rays. '
  'Phases accumulate the boundary phase shifts (minus pi per surface bounce unless the surface says otherwise, minus half pi per caustic).',
  ['inputs'], 'all ranges, depths, fans, frequencies, absorption laws and boundary losses',
  'tests check loss against two analytic cases for one fan',
  ['waveq3d/spreading_hybrid_gaussian.cc', 'waveq3d/spreading_hybrid_gaussian.h', 'waveq3d/spreading_ray.cc', 'waveq3d/wave_queue.cc'],
  [('Gaussian beam sum', 'waveq3d/spreading_hybrid_gaussian.cc'), ('ray tube areas', 'waveq3d/spreading_ray.cc')])

p('E01', 'Path collections add up exactly the paths they were given',
  'A path collection returns for every target exactly the paths added for it, the earliest arrival time, and a total that is the coherent (or incoherent) sum of their pressures and the intensity weighted averages, whatever the order of addition; looking up by target identifier finds the paths of that target only. '
  'Moving source or target by dead reckoning shifts travel times and keeps everything else as documented.',
  ['inputs', 'histories'], 'all sets of paths, targets, identifiers, frequencies and insertion orders',
  'tests add a few identical paths',
  ['eigenrays/eigenray_collection.cc', 'eigenrays/eigenray_collection.h'],
  [('sum_eigenrays, find_eigenrays, dead_reckon', 'eigenrays/eigenray_collection.cc')])

p('E02', 'Reverberation patches tile the boundary and are found by overlap',
  'Each ray that strikes the bottom, the surface or a scattering layer inside of the limits produces exactly one patch for that interface, located on it, with the time, direction, grazing angle and counts of the ray there, and dimensions and power that follow from its share of the launch solid angle, path length and losses. '
  'Searching for patches that overlap a given patch returns exactly those stored for that interface whose centres lie in the search area of the given patch, anywhere on the globe, also while other threads add patches.',
  ['inputs', 'schedules'], 'all fans, geometries, interfaces, stored sets and query patches',
  'tests compare one monostatic scenario',
  ['waveq3d/wave_queue.cc', 'eigenverbs/eigenverb_collection.cc', 'eigenverbs/eigenverb_notifier.cc'],
  [('build_eigenverb', 'waveq3d/wave_queue.cc'), ('R-tree search', 'eigenverbs/eigenverb_collection.cc')])

p('E03', 'Bistatic overlap of two patches is the overlap of two Gaussians',
  'The power of an overlap equals one half of the scattering strength times the powers of both patches times the overlap of two bivariate Gaussian footprints with the sizes, headings and separation of the patches (exp(-q/2)/(4 sqrt(det)) with the sum of both covariances); its time is the sum of both times and its duration half the spread of the combined footprint along the receiver direction, times cosine of grazing over sound speed. '
  'Mirror imaging or rotating the whole geometry changes nothing, overlaps below the power limit are dropped and only those, and each overlap keeps the angles, indices and counts of its two patches.',
  ['inputs'], 'all pairs of patches: sizes, headings, separations, places on the globe, powers and scattering strengths',
  'tests compare one scenario in decibels by eye',
  ['biverbs/biverb_collection.cc', 'biverbs/biverb_generator.cc'],
  [('add_biverb', 'biverbs/biverb_collection.cc')])

p('L01', 'Attached platforms move rigidly with their host',
  'After any sequence of attach, detach, update and dead reckoning, every directly or indirectly attached platform is at the host position plus the mounting offset turned by the host attitude, with the combined attitude and the host time and speed; detached platforms stay where they were. '
  'A platform read by another thread during updates shows time, position, attitude and speed of one single update, and dead reckoning moves along the heading by speed times elapsed time.',
  ['histories', 'schedules'], 'all trees of platforms, offsets, attitudes and update sequences, with concurrent readers',
  'tests attach one level with level attitudes',
  ['platforms/platform_model.cc', 'platforms/platform_model.h', 'platforms/platform_manager.cc'],
  [('update_internals recursion', 'platforms/platform_model.cc')])

p('L02', 'Sensor pairs match the sensors present after every history',
  'At any time the set of source/receiver pairs is exactly: each sensor that both transmits and receives with itself (if its minimum range allows it), and each source with each receiver of the same nonzero multistatic group, among the sensors currently added; adding or removing sensors in any order never leaves a pair of a removed sensor, loses a pair, or creates one twice. '
  'Lookups by source and by receiver return exactly the pairs of that sensor, and sensors lacking mandatory settings are refused with nothing changed.',
  ['histories'], 'all sequences of adding and removing source, receiver and combined sensors in any groups',
  'tests add and remove in one fixed order',
  ['sensors/sensor_manager.cc', 'sensors/sensor_pair.cc', 'platforms/platform_manager.cc'],
  [('add_/remove_ pair helpers', 'sensors/sensor_manager.cc')])

p('L03', 'Sensor updates lead to complete, current acoustic results without crashes',
  'When sensors are updated, from any threads and while older computations still run, each pair ends with path, patch, overlap and envelope results computed from the last forced update, identical to those of an undisturbed run, its listeners are told, and older computations never overwrite newer results. '
  'Path results of a pair are the paths between its source and its receiver in both the source-driven and the receiver-driven update, and no memory is lost, used after release or raced on along the way.',
  ['schedules', 'histories'], 'all interleavings of updates, schedule changes, listener calls and task completion',
  'tests run one update and sleep until it is done',
  ['sensors/sensor_model.cc', 'sensors/sensor_pair.cc', 'wavegen/wavefront_generator.cc', 'biverbs/biverb_generator.cc', 'rvbts/rvbts_generator.cc'],
  [('abort and restart of tasks', 'sensors/sensor_model.cc, sensors/sensor_pair.cc')])

p('V01', 'Reverberation envelopes conserve the energy of their contributions',
  'The envelope of a channel is the sum over overlaps and pulses of a Gaussian of width T, the sum of the durations of overlap and pulse, centred at the arrival time plus pulse start and delay plus T, whose area is the product of source level, overlap power interpolated to the pulse frequency, pulse duration and the two beam responses at the arrival angles in the body axes of source and receiver. Pulses of a schedule follow each other: each starts when delay and duration of the one before it are over. '
  'The result does not depend on the order or grouping of contributions, each receiver channel uses its own pattern and steering and has the row of its rank among the channel keys, contributions below the limit are ignored and nothing outside of the time window is written.',
  ['inputs'], 'all overlaps, pulses, beam sets, attitudes, channel keys and time axes',
  'tests produce one plot',
  ['rvbts/rvbts_collection.cc', 'rvbts/rvbts_generator.cc'],
  [('add_biverb', 'rvbts/rvbts_collection.cc'), ('steering', 'rvbts/rvbts_generator.cc')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q) + '\n')
