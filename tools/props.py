"""The properties and the checks that decide them (see make_lists.py)."""

SHARED = ('Also on: fresh memory filled with two implausible patterns, shuffled '
    'directory listings, a watch on inputs, a watch on files left open, a '
    'CPU-time limit.')

def P(id, title, statement, over, forall, why, files, mech, observe, technique,
        note):
    return dict(id=id, title=title, statement=statement, over=over,
        forall=forall, why=why, files=files, mech=mech, observe=observe,
        technique=technique, note=note + ' ' + SHARED)

IO, SC, SEQ, TRAJ, AN, ANS, IN, SM, PA, GR = ['flowtracks/%s.py' % n for n in (
    'io', 'scene', 'sequence', 'trajectory', 'analysis', 'an_scene',
    'interpolation', 'smoothing', 'pairs', 'graphics')]

SAMPLED = ('Sampled, not exhaustive: nothing is shown of workloads that were '
    'not run.')

PROPS = [

P('R01', 'Trajectories read from ptv_is files are the linked chains, each exactly once',
    'Reading a directory of per-frame linking files gives every chain of '
    'forward/backward linked particles of the frame range as exactly one '
    'trajectory, with its positions (converted from mm to m) and consecutive '
    'frame numbers in order, with unique ids, and no point of another chain. '
    'A chain that begins before the range is cut there; chains still going on '
    'at the end of the range, and those shorter than the minimal length, are '
    'left out (with a minimal length of 1 or 0, a chain of a single frame is given, in whatever '
    'frame it is). A range without files has no trajectories. This holds for any order of rows and of directory entries, '
    'wherever the files are, whatever other files lie beside them, for the list '
    'and for the (possibly abandoned) iterator.',
    ['inputs', 'histories', 'configurations'],
    'all tracking runs: any number of particles, births, deaths, row orders, '
    'frame numbers, ranges and minimal lengths; all ways of consuming the result',
    'The tests read one small recording and count its trajectories; chains that '
    'die and are born in the same frame, reordered rows, frame numbers of '
    'different lengths and abandoned iterators do not occur.',
    [IO], [('frame-by-frame linking', 'iter_trajectories_ptvis'),
        ('frame discovery', 'frame_file_pattern, FramesIterator'),
        ('list form', 'trajectories_ptvis')],
    ['return value of trajectories_ptvis, iter_trajectories_ptvis, trajectories'],
    'conservation/exactly-once oracle over simulated tracking runs',
    'Each trajectory returned is matched one to one with the simulated chains, '
    'point for point. Assumes frames without gaps and consistent links. ' + SAMPLED),

P('R02', 'Velocity and acceleration are forward differences at the frame rate',
    'In trajectories read from linking files, the velocity at each point but the '
    'last is the displacement to the next point times the frame rate, and the '
    'acceleration likewise the forward difference of those velocities wherever '
    'both are such differences. What cannot be computed (velocity of the last '
    'point, acceleration of the last two) is 0. The frame rate given to the '
    'general entry point has the same effect.',
    ['inputs', 'configurations'],
    'all tracking runs of any length and any frame rate',
    'The tests compare one trajectory at one frame rate.',
    [IO], [('finite differences', 'iter_trajectories_ptvis')],
    ['velocity() and accel() of each trajectory'],
    'numerical oracle (brute-force differences) over simulated tracking runs',
    'Every point of every trajectory is compared. ' + SAMPLED),

P('R03', 'Trajectories read from xuap files are the linked chains with stored velocities',
    'Reading per-frame files of the xuap kind (1-based links in possibly float '
    'form, smoothed positions, velocity columns, possibly more columns) gives '
    'every linked chain of the range exactly once, with the positions and '
    'velocities in the files, unscaled. The same run written as '
    'ptv_is files gives the same chains.',
    ['inputs', 'configurations'],
    'all tracking runs, ranges and column counts',
    'No test reads this format.',
    [IO], [('column choice and link offsets', 'iter_trajectories_ptvis (xuap=True)')],
    ['return value of trajectories_ptvis(xuap=True) and trajectories(fmt="xuap")'],
    'conservation/exactly-once oracle, and differential against the other format',
    'As R01, for the other encoding. ' + SAMPLED),

P('R04', 'A single concatenated linking file reads like the separate frame files',
    'A single file in which the frames of linking data follow each other '
    '(including empty and one-particle frames) gives the same trajectories, '
    'exactly once each, as one file per frame would.',
    ['inputs', 'configurations'],
    'all tracking runs with any pattern of empty and small frames',
    'The one test file for this has no empty or one-particle frames.',
    [IO], [('frame splitting', 'SingleFileIterator'),
        ('linking', 'iter_trajectories_ptvis')],
    ['return value of trajectories_ptvis with traj_min_len and single-file input'],
    'differential (two encodings) and conservation oracle',
    'The whole file is read; both encodings are compared with the simulation. '
    + SAMPLED),

P('R05', 'trajAcc and mat files give each stored path once, unchanged',
    'Reading acceleration-annotated path files gives one trajectory for each '
    'path in the files (which may be empty) of the requested (inclusive) range, '
    'with the positions, velocities, accelerations and times stored. Reading a mat file gives one '
    'trajectory for each structure, with its positions and velocities in m and '
    'its times. Ids are unique in each result.',
    ['inputs', 'configurations'],
    'all files: any number and lengths of paths (also one point), any range',
    'Tests do not read these formats beyond a frame of one recording.',
    [IO], [('path splitting by age', 'trajectories_acc'),
        ('structures', 'trajectories_mat')],
    ['return values of trajectories_acc, trajectories_mat and trajectories'],
    'round-trip oracle over generated files',
    'Paths are matched one to one with what was written. ' + SAMPLED),

P('R06', 'The general entry point honours ranges, lengths and formats for every format',
    'Whatever the format, reading through the general entry point gives exactly '
    'the points within the inclusive frame range (trajAcc files whose number is in it are taken whole; '
    'a mat file has no numbering, and is read whole), no trajectory shorter than '
    'the minimal length, and no empty ones; a range in which there is nothing gives '
    'nothing. The format is inferred correctly '
    'from the file name alone, and the iterator form gives the same '
    'trajectories as the list.',
    ['inputs', 'configurations'],
    'all data sets, ranges (ends given or not), minimal lengths, formats and directories',
    'Tests use one range per format and never look at the points at its ends.',
    [IO], [('dispatch', 'trajectories, infer_format'),
        ('ranges in tables', 'trajectories_table, load_trajectories')],
    ['return value of trajectories'],
    'reference-model oracle at range and length limits',
    'Ranges and lengths are drawn around the data\'s limits, where off-by-one '
    'errors show. ' + SAMPLED),

P('R07', 'A trajectory set saved as a particle table reads back the same everywhere',
    'After saving a set of trajectories (with the same properties, of the same '
    'types) to a particle table, the closed file has '
    'exactly one row for each point with all properties of the trajectories '
    '(fields of the right shape), and the set is read back '
    'value for value by the table reader, by the general reader, and as a scene. '
    'Trimming takes exactly the given number of points off both ends and drops '
    'trajectories that are too short; an older file of that name is replaced, and '
    'the trajectories given are not changed.',
    ['inputs', 'histories'],
    'all sets of trajectories, with any ids, times, lengths and extra properties, any trim',
    'The one test saves one recording and compares it with the same code path.',
    [IO, SC], [('schema and rows', 'save_particles_table'),
        ('bounds table', 'save_particles_table'),
        ('reading', 'trajectories_table, Scene')],
    ['the file, read by PyTables alone from a copy', 'trajectories_table', 'Scene'],
    'round-trip oracle over the file contents and all readers',
    'A copy of the file made after saving is judged, so unflushed or '
    'unclosed data shows. ' + SAMPLED),

P('R08', 'Frames saved to a particle table read back as the same frames and trajectories',
    'After saving a sequence of frames, the file has exactly the particles of '
    'each frame at its time, and the trajectories read from it (also those with '
    'missing frames) are the points with the same id in time order, each exactly '
    'once. Saving the frames of one scene gives an equal scene.',
    ['inputs', 'histories'],
    'all sequences of frames: rows in any order, empty frames, missing points',
    'The test for this saves one recording without holes or empty frames.',
    [IO, SC], [('row order and bounds', 'save_frames_hdf')],
    ['the file, read by PyTables alone', 'Scene', 'trajectories_table'],
    'round-trip oracle over the file contents and all readers',
    'A copy of the file made after saving is judged. ' + SAMPLED),

P('R09', 'Per-trajectory npz output loads back the same, with all additions',
    'A set of trajectories saved with per-trajectory additions and free arrays '
    'loads back value for value, each trajectory exactly once and with its own '
    'additions, the free arrays equal. With a frame range, exactly the '
    'points within it are loaded, the additions being whole.',
    ['inputs', 'configurations'],
    'all trajectory sets, additions, ranges and directory orders',
    'The test saves and loads one set without a range.',
    [IO], [('naming and additions', 'save_trajectories'),
        ('ranges', 'load_trajectories')],
    ['return values of load_trajectories and trajectories'],
    'round-trip oracle',
    SAMPLED),

P('R10', 'Particles of a frame are collected completely, once, and in the stated layout',
    'Collecting the particles of a frame gives exactly the points of that frame '
    '(for path segments: exactly those which continue in the next frame, with '
    'their data in both frames matched), each position once, with position, '
    'velocity and age or id columns as documented, from every kind of source.',
    ['inputs'],
    'all data sets and frames, with particles at equal positions, empty frames and path segments or not',
    'Tests compare a few numbers of one frame.',
    [IO, TRAJ], [('selection', 'collect_particles, collect_particles_generic, collect_particles_mat'),
        ('duplicates', 'mark_unique_rows')],
    ['return values'],
    'brute-force oracle over generated sources',
    SAMPLED),

P('R11', 'Snapshots of a frame hold exactly the particles there, rows matched',
    'Selecting the trajectories of a frame gives those (and only those) with a '
    'point in the frame (and in the next one, if so requested), also if they '
    'have holes; of particles at one position, one is taken. A snapshot made of them has one row for '
    'each, with that trajectory\'s values at that time for every property, in the '
    'order given, so that rows of two consecutive snapshots match.',
    ['inputs'],
    'all trajectory sets, frames, and options',
    'Tests use trajectories without holes and with one set of properties.',
    [TRAJ, IO], [('selection', 'trajectories_in_frame'),
        ('assembly', 'take_snapshot'), ('from files', 'read_frame_data')],
    ['return values'],
    'brute-force oracle over generated trajectory sets',
    SAMPLED),

P('R12', 'Particle sets keep their own properties through any history of changes',
    'Whatever sequence of creating, replacing and (partly) setting properties is '
    'done on several particle sets, or copies of them, each read gives the last value set on that '
    'object, unselected entries keep theirs, and no object changes '
    'with another. The schema, the dictionary form and single points of '
    'trajectories agree with the properties.',
    ['histories'],
    'all histories of property operations on several objects at once',
    'Tests create one property on one object; interference between objects '
    'needs histories over several.',
    [TRAJ], [('generated accessors', 'ParticleSet.create_property'),
        ('views', 'schema, ext_schema, as_dict, Trajectory.__getitem__')],
    ['values returned by the accessors'],
    'online checker of operation histories against a reference model',
    'Every operation is mirrored on dictionaries and compared after each step. '
    + SAMPLED),

P('R13', 'Iterating a scene visits every stored particle exactly once per view',
    'For any stored row order and frame range, frames come in time order, one '
    'for every frame number of the range (also empty ones), with exactly the '
    'rows of that time; trajectories come once for each id with '
    'points in the range, with exactly those points in time order. Lookups by id '
    'and by time agree with the iterations, and all rows are accounted for.',
    ['inputs', 'configurations'],
    'all tables (row orders, holes, ids), frame ranges (open ends included), files with and without bounds',
    'Tests iterate over one file in one order and look at counts.',
    [SC], [('row selection', 'Scene.iter_frames, iter_trajectories, _iter_frame_arrays'),
        ('lookups', 'trajectory_by_id, frame_by_time')],
    ['frames and trajectories yielded'],
    'conservation oracle over recorded iterations',
    SAMPLED),

P('R14', 'Segments pair each particle with itself in the next frame',
    'Iterating over segments gives, for every consecutive pair of frames of the '
    'range, the particles present in both and no others, with row i of both '
    'frames being the same particle, each with its own values at its own time.',
    ['inputs', 'configurations'],
    'all tables and row orders, births, deaths and holes, empty frames, frame ranges',
    'The test data has rows in trajectory order, where wrong pairing cannot show.',
    [SC], [('matching', 'Scene.iter_segments')],
    ['pairs yielded by iter_segments'],
    'pairing oracle (row by row)',
    SAMPLED),

P('R15', 'Changing the frame range leaves nothing behind',
    'Through any history of range changes, complete and abandoned iterations, '
    'lookups and collections on one scene, each result is what a newly opened '
    'scene with the current range would give, and the reported range is the '
    'one last set.',
    ['histories'],
    'all histories of operations on one scene',
    'Tests set a range once on a fresh scene.',
    [SC], [('range conditions', 'Scene.set_frame_range, frame_range')],
    ['results of all operations, in order'],
    'online checker of operation histories',
    'Each step is judged for the range set at that time. ' + SAMPLED),

P('R16', 'Collected columns are the rows that meet the conditions, and metadata agree',
    'Collecting columns from a scene gives, for each column, the values of all '
    'rows in the frame range which meet all conditions (limits '
    'compared exactly with the stored values however large or infinite, lower limit included and upper '
    'excluded, negated conditions the complement), in '
    'the same row order for each column. The column names, shapes, trajectory '
    'ids and bounding box reported are those of the data.',
    ['inputs', 'configurations'],
    'all tables, columns, ranges and combinations of conditions, bounds equal to stored values included',
    'Tests use one condition with a round bound.',
    [SC], [('query text', 'gen_query_string'), ('selection', 'Scene.collect'),
        ('metadata', 'keys, shapes, trajectory_ids, trajectory_tags, bounding_box')],
    ['return values'],
    'brute-force oracle with boundary values',
    SAMPLED),

P('R17', 'A dual scene keeps particles and tracers in step, in the range asked for',
    'Each frame (pair of frames) of a dual scene has the particles and the '
    'tracers stored for one and the same time, for exactly the '
    'times of its range. A range given to one iteration holds for that iteration only, '
    'even if it is left early or ends in an error, and a scene read from a '
    'configuration file is the one described there, with its particle\'s '
    'diameter, density, volume and mass.',
    ['histories', 'inputs', 'fault_sequences'],
    'all pairs of files and all histories of iterations, finished, abandoned or failed',
    'Tests iterate to the end once.',
    [SC, 'flowtracks/particle.py'], [('temporary ranges', 'DualScene.iter_frames, iter_segments'),
        ('configuration', 'read_dual_scene'), ('particle', 'Particle')],
    ['frames yielded', 'range in effect after each iteration'],
    'online checker of iteration histories with abandoned and failing consumers',
    SAMPLED),

P('R18', 'An analysis table has one row per particle and pair of frames, and each result',
    'An analysis calls every analyser once for each pair of frames of '
    'the range, in order, with the particles that go on to the next frame, '
    'and its file has exactly one row for each such particle and frame, '
    'in order, with its id and time and with each result (of any shape and type) '
    'in its own column and row. The file is complete when the analysis returns, '
    'replaces an older one, says where its sources are, and the scene\'s '
    'range is as before.',
    ['inputs', 'histories', 'configurations'],
    'all dual scenes, sets of analysers and ranges',
    'The test runs one analyser on one recording.',
    [AN, SC], [('table filling', 'analysis'), ('analyser interface', 'GeneralAnalyser')],
    ['calls recorded by the analysers', 'the file, read by PyTables alone from a copy'],
    'event log of analyser calls against the table (exactly-once oracle)',
    SAMPLED),

P('R19', 'Joined views match analysis rows with the particle rows they came from',
    'Collecting columns of an analysed scene, from either source and with conditions on '
    'either, gives for all columns the same rows: exactly the analysed '
    'rows that meet all conditions, with the particle values of the same '
    'particle at the same time. Its trajectories have all properties of both '
    'sources, matched point by point.',
    ['inputs', 'configurations'],
    'all analysed scenes, columns and conditions on one or both sources',
    'The test has a condition on one source and compares sizes.',
    [ANS], [('joins', 'AnalysedScene.collect, _iter_frame_arrays'),
        ('trajectories', 'trajectory_by_id, iter_trajectories')],
    ['return values'],
    'brute-force join oracle',
    SAMPLED),

P('R20', 'Fluid and relative velocities belong to the particle they are stored for',
    'For each particle of a frame, the fluid velocity found is the interpolation of the '
    'tracer velocities of that frame at the particle\'s position (excluding its companion '
    'tracer if there is one), and the relative velocity is the particle velocity minus '
    'it, whatever frames were analysed before; companions are found by id, '
    'and particles without one are marked so.',
    ['inputs', 'histories'],
    'all frames and histories of frames analysed by one analyser',
    'The test compares with the same interpolation code in one frame.',
    [AN, IN], [('analyser', 'FluidVelocitiesAnalyser.analyse'),
        ('companions', 'companion_indices')],
    ['return values of analyse'],
    'brute-force interpolation oracle over frame histories',
    SAMPLED),

P('R21', 'The neighbours selected are the nearest ones, or all within the radius',
    'For each point, the tracers used are exactly the given number '
    'of nearest ones (all, if there are fewer), or those within the radius, '
    'never its companion and never one at the point itself; the '
    'distances reported are those of the tracers. The '
    'selection in a recorded scene, by call, and of the neighbour-distance '
    'report agree with it.',
    ['inputs', 'configurations'],
    'all tracer and point sets, numbers of neighbours, radii and companions',
    'Tests use a lattice of 8 tracers.',
    [IN], [('selection', 'select_neighbs, _select_neighbs, neighb_dists')],
    ['selection, current_active_neighbs, current_dists, neighb_dists'],
    'brute-force search oracle',
    'No tracer is on the radius or at equal distance, except in the lattice '
    'scenario, where any of the equal ones may be taken. ' + SAMPLED),

P('R22', 'Inverse-distance interpolation is the weighted mean of the neighbours',
    'The result at each point is the mean of the data of its selected neighbours '
    'with weights the inverse of distance to the given power: constant '
    'data are reproduced, results stay within the range of the neighbours\' '
    'data, tracers not selected have no effect, and results in a recorded scene '
    '(whole or of a subset of points) equal those of a direct call.',
    ['inputs', 'configurations'],
    'all scenes, data dimensions, powers, numbers of neighbours, radii, companions and subsets',
    'Tests compare a few points with equal weights.',
    [IN], [('weights', 'InverseDistanceWeighter.weights, _apply_weights'),
        ('paths', '__call__, interpolate, _meth_interp')],
    ['return values'],
    'brute-force formula and metamorphic bounds',
    SAMPLED),

P('R23', 'Radial-basis interpolation solves its system over the selected neighbours',
    'The result at each point is the combination of Gaussian functions centred '
    'on its selected neighbours, with the given shape parameter, that takes their data at their '
    'positions; near a tracer it tends to that tracer\'s data, '
    'tracers not selected have no effect, and a recorded scene (whole or of a subset) '
    'and a direct call agree.',
    ['inputs', 'configurations'],
    'all scenes, data dimensions, shape parameters, selections and subsets',
    'Tests compare one value at one point.',
    [IN], [('kernel and solution', 'rbf_interp'), ('paths', '__call__, _meth_interp')],
    ['return values'],
    'dense-solution oracle and limits at tracers',
    'Kernel matrices with condition numbers over 1e7 are not judged. ' + SAMPLED),

P('R24', 'Correlation-function interpolation weights neighbours by their bin',
    'The result in each component is the mean of the neighbours\' '
    'data weighted by the correlation function of that component at the '
    'neighbour\'s distance (as tabulated in the file), with one table for all '
    'components or one for each; a recorded scene and a direct call agree.',
    ['inputs', 'configurations'],
    'all scenes, correlation tables and selections',
    'No test covers a table with more than one component.',
    [IN], [('bins and weights', 'corrfun_interp')],
    ['return values'],
    'brute-force formula',
    'Bins start at 0. ' + SAMPLED),

P('R25', 'A reused interpolant gives what a new one would',
    'Through any history of setting scenes, tracers, points or data, '
    'trimming points, temporary selections, direct calls and derivatives, each result of an interpolant '
    'equals that of a new one given the current scene; a subset '
    'given once is not remembered.',
    ['histories'],
    'all histories of operations on one interpolant of any method',
    'Tests set a scene once or twice, in one order; stale caches need longer histories.',
    [IN], [('lazily computed state', 'set_scene, set_field_positions, '
        'set_interp_points, set_data_on_current_field, trim_points, _drop_neighbours_cache')],
    ['result of each operation'],
    'online checker of operation histories, differential against fresh objects',
    SAMPLED),

P('R26', 'Interpolated derivatives are those of the interpolated field',
    'The Jacobian given at each point has at [point, component, direction] the '
    'derivative of the interpolated component in that '
    'direction with the neighbours held (inverse distance weighting: analytic; other '
    'methods: the difference quotient at the step given), in each path, '
    'including with companions and after changes of the scene.',
    ['inputs', 'configurations'],
    'all scenes, methods, steps, data dimensions',
    'Tests check a linear field at one point.',
    [IN], [('analytic', 'InverseDistanceWeighter.eulerian_jacobian'),
        ('finite differences', 'GeneralInterpolant.eulerian_jacobian')],
    ['return values'],
    'complex-step and difference-quotient oracles',
    SAMPLED),

P('R27', 'Saved configurations read back as the same objects',
    'A sequence or an interpolant saved to a configuration (with '
    'other sections or older values there or not) and read back has the '
    'same parameters (range, frame rate, particle, file templates, '
    'smoothing, minimal length; method, neighbours, radius, parameter) and '
    'computes the same results.',
    ['configurations'],
    'all values of all parameters, given or left out, with characters special to the format',
    'Tests do not read back what they saved for most parameters.',
    [SEQ, IN], [('saving', 'Sequence.save_config, GeneralInterpolant.save_config'),
        ('reading', 'read_sequence, read_interpolant')],
    ['objects read back and their results'],
    'round-trip oracle',
    SAMPLED),

P('R28', 'Savitzky-Golay smoothing is the local least-squares polynomial',
    'Each smoothed point of a trajectory is the value, at the window\'s centre, of the polynomial of the '
    'given order fitted by least squares to the positions in the window (the path being '
    'extended by reflection at its ends), and velocity and '
    'acceleration are its derivatives at the frame rate. Trajectories shorter than '
    'the window are dropped, the others keep their ids, times, '
    'and other properties for the same points, are each given once, in order, and '
    'the trajectories given are not changed.',
    ['inputs', 'configurations'],
    'all trajectories, odd windows, orders and frame rates',
    'The test smooths one trajectory with one window.',
    [SM], [('coefficients and convolution', 'savitzky_golay')],
    ['return value'],
    'least-squares oracle at every point',
    SAMPLED),

P('R29', 'Spline smoothing stays within its error bound',
    'A smoothed trajectory has the same times, id and length, positions '
    'whose squared deviations sum up to no more than the square of the bound times the '
    'length (none at bound 0), velocities along the smoothed path and '
    'accelerations that are its second derivatives, also if the particle stands '
    'still for some frames; a trajectory too short for the spline order, or of '
    'too few different successive places, comes back as it is, and the '
    'original is not changed.',
    ['inputs', 'configurations'],
    'all paths, with standing still or without, all bounds and spline orders',
    'Tests smooth one trajectory and look at its type.',
    [TRAJ], [('spline fit', 'Trajectory.smoothed')],
    ['return value'],
    'bound monitor and tangent oracle',
    SAMPLED),

P('R30', 'A sequence gives each frame pair of its range once, in step, every time',
    'Iterating a sequence gives, for each frame of the range in order, '
    'the particles and the tracers that are in that frame and the next, '
    'with their data in both frames and rows matched; so it does each '
    'time anew, whatever iterations, subranges or abandoned iterations came '
    'before, and with the selectors last set, even if they select nothing.',
    ['histories', 'configurations'],
    'all data sets, formats, ranges, subranges, selectors and histories of iterations',
    'Tests iterate over one sequence to the end.',
    [SEQ], [('frame stepping', 'Sequence.__iter__, next, iter_subrange'),
        ('selectors', 'set_particle_selector, set_tracer_selector')],
    ['frames yielded'],
    'online checker of iteration histories',
    'Smoothing of tracers fails and is a known finding. ' + SAMPLED),

P('R31', 'Mapping over a sequence gives each trajectory its own time series',
    'Mapping a function over the frames of a sequence gives, for each particle '
    'trajectory, the results of the function for that particle in each frame of the '
    '(sub)range in which and in the next it is, in time order, the function being called once for each '
    'frame, with all results so far if so requested.',
    ['inputs', 'histories', 'configurations'],
    'all sequences, functions, subranges and options',
    'Tests map one function without history or subrange.',
    [SEQ], [('result distribution', 'Sequence.map_trajectories')],
    ['arguments recorded at each call', 'return value'],
    'event log of calls against the result (exactly-once oracle)',
    SAMPLED),

P('R32', 'Particle pairs are nearest neighbours at the right time',
    'For each given trajectory and time, the partner found is the '
    'candidate nearest to it at that time among the other set\'s trajectories which '
    'continue to the next frame, with its own time index, or the marker for none '
    '(there may be no candidates at all, and nothing asked for).',
    ['inputs'],
    'all sets of trajectories (with holes) and all points asked for, in any order',
    'No test covers pairs at several times in one call with more than one per frame.',
    [PA], [('matching', 'particle_pairs')],
    ['return value'],
    'brute-force search oracle',
    SAMPLED),

P('R33', 'Probability densities count every sample once and are drawn as computed',
    'The densities computed of a sample have bins that cover it, each sample in one '
    'bin, and integrate to 1, with equal bins (equal ratios for '
    'logarithmic ones). Lines drawn of densities, histograms and vectors have the data given, '
    'each density at the lower edge of its bin, in order; plots of vectors have the '
    'number of ticks asked for, from the least value to the greatest, and the format given.',
    ['inputs'],
    'all finite samples, numbers of bins and options',
    'The tests have no plots and one sample.',
    [GR], [('binning', 'pdf_bins'), ('drawing', 'pdf_graph, '
        'generalized_histogram_disp, plot_vectors')],
    ['return values', 'data of the lines drawn'],
    'counting oracle and inspection of drawn objects',
    SAMPLED),

P('R34', 'From recordings to joined results, every number is the right particle\'s',
    'Taken from recorded files through reading, storing, opening as a dual '
    'scene, analysing (by the library or by the script) and reading jointly, every '
    'final row has, for its particle and time, the position and velocity recorded and '
    'the fluid velocity that direct interpolation of the '
    'recorded tracers gives; none is missing, added or doubled.',
    ['inputs', 'configurations'],
    'all recordings and interpolation options the script has; windows of the recording in the repository',
    'Tests cover the stages separately and with the same recording.',
    [IO, SC, AN, ANS, IN, 'scripts/analyse_fhdf.py'],
    [('the whole pipeline', 'trajectories, save_particles_table, '
        'read_dual_scene, analysis, AnalysedScene'),
     ('script', 'scripts/analyse_fhdf.py')],
    ['rows and trajectories at the end of the pipeline'],
    'end-to-end conservation oracle from the text of the recordings',
    SAMPLED),

P('R35', 'Results depend on the inputs alone',
    'Doing an operation again on equal inputs gives the same '
    'result to the last bit, whatever was done before in the process, '
    'whatever fresh memory contains and in whatever order directories '
    'are listed; inputs given are not modified, files read are not left open, and the working '
    'directory, environment, random numbers and numpy\'s settings stay as they were.',
    ['histories', 'schedules'],
    'all operations, contents of fresh memory, directory orders and preceding operations',
    'Tests run once, in one order, on mostly zeroed fresh memory.',
    [IO, SC, SEQ, TRAJ, AN, IN, SM, PA, GR],
    [('array allocation', 'all modules'), ('directory listing', 'io'),
     ('module and default-argument state', 'all modules')],
    ['results, inputs, open files'],
    'sanitizers: memory poisoning, directory shuffling, mutation and open-file monitors',
    SAMPLED),

P('R36', 'Docstring formatting for the manual keeps every word',
    'Turning the docstrings of the package into the markup of the manual keeps all their words in '
    'order, and marks up sections and argument names; lines that follow a definition '
    'belong to its item.',
    ['inputs'],
    'all docstrings of the package, and texts like them',
    'There is no test of it.',
    ['flowtracks/format_docstrings.py'], [('line processing', 'parse_docstring')],
    ['lines after processing'],
    'conservation oracle on words',
    SAMPLED),

P('R37', 'Iterations and writers hold few frames in memory at a time',
    'Iterating over the frames, segments or trajectories of a scene, dual scene, analysed '
    'scene or linking files, analysing, reading one frame or trajectory, and saving frames '
    'or trajectories that a generator gives need an amount of '
    'memory that does not grow in proportion to the length of the recording: what was given '
    'and dropped by the user is not kept, nor are files left open on the way.',
    ['histories'],
    'long recordings of frames of limited size, with trajectories of limited length',
    'Tests use recordings of a few frames, which fit in memory in any way.',
    [SC, AN, ANS, IO, IN], [('frame and trajectory iterators', 'Scene, DualScene, AnalysedScene'),
     ('analysis()', 'analysis'), ('buffer of frames', 'iter_trajectories_ptvis'),
     ('save_frames_hdf(), save_particles_table()', 'io')],
    ['objects given and taken', 'memory allocated'],
    'monitors: weak references to what went by, peaks of traced memory on short and long recordings',
    SAMPLED),

P('R38', 'What cannot be done is refused, and leaves everything as it was',
    'Requests that have no answer end in an error rather than with a result: unknown methods, '
    'formats, columns, conditions and properties, missing files, malformed lines and '
    'configurations (missing sections or options, words for numbers), ranges that are no pairs of '
    'numbers, selections and values of the wrong size, functions given that fail. '
    'The objects concerned then give what they gave before, no file read is created, and no file is '
    'left open, so that the operation can be repeated.',
    ['histories', 'fault_sequences'],
    'sequences of proper and wrong requests, and failing functions',
    'Tests make proper requests only.',
    [IO, SC, AN, ANS, SEQ, IN, TRAJ, 'scripts/analyse_fhdf.py'],
    [('range changes', 'Scene.set_frame_range'), ('constructors', 'interpolation, scene'),
     ('readers of configurations', 'scene, sequence, interpolation'),
     ('writing of tables', 'io, analysis')],
    ['errors', 'later results', 'open files'],
    'fault injection: histories with wrong requests, compared with the results before them',
    SAMPLED),

P('R39', 'Independent work at the same time gives what it gives alone',
    'Iterations over scenes, dual scenes, analyses, linking files and sequences, each by an object '
    'of its own, advanced in any order of turns, also over the same files and with other '
    'operations in between; calculations, and reading of formats other than HDF5, in several threads '
    'that share no objects but their inputs, whichever thread runs when; and work in several '
    'processes, also on the same files: each gives the same as it does alone.',
    ['schedules', 'histories'],
    'turns of iterators; turns of threads at the lines of the library; forked processes',
    'Tests do one thing at a time.',
    [IO, SC, AN, ANS, SEQ, IN, TRAJ, SM, PA],
    [('iterators', 'Scene, DualScene, AnalysedScene, Sequence, iter_trajectories_ptvis'),
     ('calculations', 'interpolation, smoothing, trajectory, pairs, graphics')],
    ['turns', 'results of each of the works'],
    'monitors: seeded scheduler of threads at line events; results alone as the oracle',
    SAMPLED),
]
