"""Writes properties.jsonl (run after editing)."""
import json
import os

PT, LW, RT = 'dorado/particle_track.py', 'dorado/lagrangian_walker.py', \
    'dorado/routines.py'
SP, PR, LG = 'dorado/spatial.py', 'dorado/parallel_routing.py', \
    'dorado/logging_config.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None,
            **(dict(state=[dict(name=n, meaning=m, where=w)
                           for n, m, w in state]) if state else {}))))


prop('C01', 'Particles stay in the domain, move to neighbors, stop at edges',
     'Every recorded position of every particle is a cell of the domain, and '
     'consecutive positions are distinct adjacent cells (one of the eight '
     'neighbors). A particle that is on, or next to, an edge cell (type -1), '
     'or on the border of the domain, never moves or gains time again while '
     'in that flow field.',
     ['inputs', 'histories', 'configurations'],
     'all flow fields, cell types, routing parameters, seed locations '
     '(border included), and sequences of iterations and target-time runs',
     'the tests step a few particles on one or two small grids with the '
     'default edges; seeds on the border, custom edges and long histories '
     'are not reached',
     [LW, PT], [('check_for_boundary', LW), ('clear_borders', LW),
                ('edge test before target-time loops', PT)],
     ['walk data after every call'],
     [('walk_data', 'history of positions and times', PT),
      ('cell_type', 'kind of each cell', PT)])

prop('C02', 'Particles in water never enter dry cells or land',
     'A particle in a wet cell (depth above dry_depth, missing depth counting '
     'as 0) that is not land (type 2) never moves into a cell that is dry or '
     'land, with random and with steepest routing, dead ends included.',
     ['inputs', 'histories', 'configurations'],
     'all depth fields (islands, channels, isolated cells, missing values, '
     'depths at the limit), cell types, parameters and walks',
     'the tests have hardly any dry or land cells, and judge single weights '
     'rather than walks',
     [LW], [('make_weight zeroes dry and land neighbors', LW),
            ('deepest-cell fallback', LW)],
     ['each move in the walk data, against the given depth and types'])

prop('C03', 'The random walk has the documented transition probabilities',
     'In each iteration a particle away from the edges goes to one of its '
     'wet, non-land neighbors with probability proportional to h^theta * '
     '(gamma*S + (1-gamma)*I), where h is the depth there, and S and I are '
     'the downhill surface slope and the discharge towards that neighbor per '
     'distance, each normalized over the neighbors. If no neighbor has '
     'weight it goes to a deepest non-land cell of the 3x3 block around it '
     '(staying if that is its own), evenly among equals. The probabilities '
     'depend on nothing else: not on the particle, its past, or on earlier '
     'visits by any particle.',
     ['inputs', 'configurations', 'histories'],
     'all flow fields, theta >= 0, gamma in [0,1], dry depths, cell types; '
     'all cells of positive depth; all earlier histories',
     'a distribution cannot be settled by the handful of seeded draws in the '
     'tests, which pin one outcome on one 3x3 field',
     [LW, PT], [('make_weight', LW), ('random_pick', LW),
                ('get_weight', LW), ('calculate_new_ind', LW)],
     ['frequencies of moves out of each cell'],
     [('weight', 'routing weights of all cells', LW)])

prop('C04', 'Steepest descent takes the neighbor of highest weight',
     'With steepest_descent on, a particle away from the edges always moves '
     'to a neighbor with the highest documented routing weight, choosing '
     'evenly at random among exact ties. It stays where it is only if no '
     'neighbor has weight and its own cell is the deepest around, and '
     'earlier visits to a cell make no difference.',
     ['inputs', 'histories', 'configurations'],
     'all flow fields and parameters, all cells of positive depth, any '
     'number of earlier visits',
     'the tests call the picking function once with hand-made weights; the '
     'weights are changed in place by it, so only repeated visits tell',
     [LW], [('steep_descent', LW), ('get_weight', LW)],
     ['each move, and each iteration without a move'])

prop('C05', 'Travel times are flow-aligned distance times inverse speed',
     'Each move adds d * max(0, cos(phi)) * (1/v_old + 1/v_new)/2 * (1+e) to '
     'the travel time of the particle, d being the distance between cell '
     'centers, phi the angle between the move and the flow at the old cell, '
     'v the flow speeds, and e drawn independently and uniformly from the '
     'interval of width diff_coeff around 0 (exactly 0 if diff_coeff is 0 or '
     'negative; the default is 0.2, or 0 for steepest descent). Times are '
     'always finite and never decrease for diff_coeff <= 2, in stagnant '
     'water too.',
     ['inputs', 'histories', 'configurations'],
     'all flow fields, cell sizes, directions, dispersion coefficients '
     '0..2, and walks',
     'the tests compare a few single steps on one uniform field; direction, '
     'cell size and dispersion are hardly varied',
     [LW, PT], [('calc_travel_times', LW), ('step_update', LW),
                ('velocity and velocity_angle', PT)],
     ['differences of consecutive travel times, against the given flow'])

prop('C06', 'Histories are append-only, aligned and complete',
     'Under any sequence of adding particles, continuing previous walk data, '
     'iterating and running to target times, no recorded entry changes, no '
     'particle is lost, duplicated or reordered (previous data first, then '
     'those present, then new ones), and all variables of a particle have '
     'the same number of entries. One iteration adds at most one entry per '
     'particle, only if it moved, and for sure if it can move; clearing '
     'removes all particles, after which moving them is an error.',
     ['histories', 'inputs'],
     'all sequences of operations on all domains',
     'the tests run one or two operations and look at lengths; sequences '
     'and content are not compared',
     [PT, LW], [('generate_particles', PT), ('run_iteration', PT),
                ('clear_walk_data', PT)],
     ['walk data before and after each operation'],
     [('walk_data', 'history of all particles', PT)])

prop('C07', 'Target-time runs stop where they are nearest to the target',
     'In a run to a target time T, a particle away from the edges steps '
     'exactly as long as |t-T| >= |t+dt-T|, where dt is the duration of its '
     'latest recorded step but at least 0.1 s (0.1 s if it never moved), '
     'unless it cannot move or has taken max_iter steps in this run. '
     'A warning names all those particles that took max_iter steps, and no '
     'others.',
     ['inputs', 'histories'],
     'all flow fields and time scales, targets before, at and after the '
     'present time, limits, and successive runs',
     'the tests run to one target on one field, and do not look at the '
     'individual steps or the warning',
     [PT], [('run_iteration, loop to target time', PT)],
     ['history of each particle, replayed against the rule; warnings'])

prop('C08', 'Particles are seeded where, when and as many as asked',
     "generate_particles adds exactly the number of particles asked for, all "
     "with the given seed time and one entry: with 'random' each row and "
     "column is drawn independently and evenly from the lists given, with "
     "'exact' the locations are used in turn, in order. Weighted picks from "
     'a list follow the weights, never choosing an entry of weight 0. '
     'Invalid input raises the documented TypeError or ValueError and '
     'leaves the particles as they were.',
     ['inputs', 'histories'],
     'all numbers of particles, lists and arrays of locations, seed times, '
     'weights, and calls in succession',
     'the tests seed one to three particles at one place',
     [PT, LW], [('generate_particles', PT), ('gen_input_check', PT),
                ('random_pick_seed', LW)],
     ['walk data after generate_particles; values returned'])

prop('C09', 'Tracked variables follow the particles',
     'Each variable asked for in particle_variables (and roi_flag whenever a '
     'region grid is given) has one value per recorded position, equal to '
     'the grid in use at that cell when the position was recorded (roi_flag: '
     '1 inside of the region, else 0). Continuing in another flow field '
     'keeps earlier values; those unknown are None; unknown variables and '
     'regions of another shape raise ValueError.',
     ['inputs', 'histories', 'configurations'],
     'all sets of variables, regions, flow fields, and sequences of '
     'operations, also over changes of flow',
     'the tests track on one field for one or two steps',
     [PT, LW], [('available_particle_vars', PT), ('particle_stepper', LW),
                ('generate_particles, optional variables', PT)],
     ['tracked variables in the walk data, against the grids'])

prop('C10', 'Equivalent descriptions of the same flow give the same walks',
     'Depth with stage, depth with topography, and stage with topography; '
     'discharge, and velocity times depth; the DeltaRCM convention, and the '
     'default with axes turned: descriptions that agree give identical '
     'walks from the same random state, and the same travel times. '
     'Information that does not suffice raises ValueError.',
     ['inputs', 'configurations'],
     'all flow fields and all pairs of equivalent descriptions; all '
     'insufficient sets of inputs',
     'each test uses one description; none compares two',
     [PT], [('Particles.__init__', PT)], ['walks of pairs of objects'])

prop('C11', 'Inputs are not consumed: parameters are reusable',
     'Building Particles leaves the given grids and options as they are '
     '(apart from missing values), so that another object built from the '
     'same parameters walks the same; objects do not influence each other, '
     'and neither building, seeding nor routing changes the flow, depth or '
     'cell types that an object uses.',
     ['inputs', 'histories', 'configurations'],
     'all flow fields and options, number and order of objects and calls',
     'no test builds two objects from one set of parameters, or compares '
     'the grids after routing',
     [PT, LW], [('Particles.__init__', PT), ('random_pick', LW),
                ('steep_descent', LW)],
     ['grids and options before and after; walks of pairs of objects'])

prop('C12', 'Walks are reproducible from the state of the random generator',
     "With the same state of numpy's random generator and the same inputs, "
     'walks are identical: in the same or another process, whatever the hash '
     'seed, verbosity, logging level or tracked variables. The library does '
     'not reset the generator: successive runs differ, as do runs from '
     'different seeds.',
     ['inputs', 'configurations', 'histories'],
     'all flow fields and options, seeds, and sequences of operations',
     'the tests do not repeat a run, let alone in another process',
     [PT, LW], [('numpy.random use', LW)], ['pairs of runs'])

prop('C13', 'Parallel routing gives all particles, independently routed',
     'parallel_routing returns num_cores times Np_tracer particles, each '
     'with an aligned history of legal moves from a seed location, as many '
     'iterations as asked for (fewer only if stopped). The particles of '
     'different workers are routed independently (not copies of each '
     'other), successive runs differ, results are reproducible from the '
     'random state, and the object passed in is unchanged.',
     ['inputs', 'schedules', 'configurations'],
     'all numbers of cores, particles and iterations, flow fields, and '
     'schedules of the worker processes',
     'the test checks one run on two cores by its length',
     [PR], [('parallel_routing', PR), ('run_iter', PR),
            ('combine_result', PR)],
     ['combined walk data; object before and after'])

prop('C14', 'Coordinates and indices convert back and forth',
     'Converting recorded indices to coordinates and back gives the same '
     'indices; converting coordinates to indices and back is off by at most '
     'half a cell in each direction. Rows count downwards from the top and '
     'columns eastwards from the origin, and the conversion only adds '
     'aligned coordinates to the walk data. With the origin documented for '
     'grids of unstruct2grid (the least x and y of the points), data points '
     'at cell centers are found in the cells that hold their data.',
     ['inputs'],
     'all origins, cell sizes, raster shapes, and locations in and around '
     'the raster',
     'the tests convert one or two points',
     [PT], [('coord2ind', PT), ('ind2coord', PT)],
     ['round trips of indices and coordinates'])

prop('C15', 'Gridding of unstructured data interpolates from near points',
     'unstruct2grid gives a grid that covers the extent of the points, '
     'northmost row first, in which each cell is the nearest value (k=1) or '
     'the inverse-distance weighted mean of the k nearest, so within their '
     'range, and exact at data points. Outside of a boundary it is NaN, and '
     'cropping removes all-NaN borders only. The function returned grids '
     'other data in the same way, without changing them.',
     ['inputs', 'configurations'],
     'all sets of points, values, cell sizes, k, boundaries, and data given '
     'to the function returned',
     'the tests grid four or so points',
     [PT], [('unstruct2grid', PT)], ['grid returned, cell by cell'])

prop('C16', 'Exposure times account for all time, by region',
     'The exposure time of a particle to a region is the sum of the '
     'durations of its steps within, plus half of those which enter or '
     'leave it, over all visits. So the times for a region and the rest of '
     'the domain sum to the time traveled, and particles do not influence '
     'each other; the message on particles still inside at the end names '
     'exactly those.',
     ['inputs', 'histories'],
     'all walk histories (also of one entry) and all regions',
     'the tests have one or two walks of a few steps',
     [PT], [('exposure_time', PT)],
     ['exposure times, message, against recomputation'])

prop('C17', 'Chunked exposure times count each particle where it started',
     'systemwide and localized give for each chunk of the domain (row by '
     'row, the last ones taking up the rest) the exposure times of exactly '
     'those particles that started in it, in order: to the whole region, or '
     'to the part of the region in the chunk. Chunks without any cell of '
     'the region are NaN, and each particle that started in another chunk '
     'is counted once.',
     ['inputs', 'histories', 'configurations'],
     'all domains, regions, chunk sizes and walk histories',
     'the tests use one domain, and check numbers of chunks',
     [SP], [('systemwide', SP), ('localized', SP),
            ('_find_common_indices_info', SP)],
     ['lists returned, against recomputation'])

prop('C18', 'Exposure thresholds are percentiles of the smoothed density',
     'compute_thresholds gives per chunk the times, in units of timedelta, '
     'at which the density estimated from its non-zero exposure times '
     'reaches 50, 75 and 90 percent over their range, NaN if fewer than 5 '
     'of them are distinct; so E50 <= E75 <= E90, within the range of the '
     'data. The maps are smoothed by a local mean without outliers by '
     'median absolute deviation, which keeps NaN cells, and uses no value '
     'outside of the window.',
     ['inputs', 'configurations'],
     'all exposure data, domain shapes, chunk and window sizes, thresholds',
     'the tests check one domain, by shape and a sum',
     [SP], [('compute_thresholds', SP), ('percentile_from_cdf', SP),
            ('median_absolute_deviation_filter', SP)],
     ['maps returned, against recomputation'])

prop('C19', 'Nourishment area is the normalized frequency of visits',
     'nourishment_area counts every recorded position of every particle in '
     'its cell, clips at the given percentile, smooths with the given '
     'sigma, and normalizes to a maximum of 1; the lowest cells (without '
     'smoothing: exactly those never visited) are NaN. The order of the '
     'particles, and other variables in the walk data, are irrelevant.',
     ['inputs', 'histories', 'configurations'],
     'all walk histories, domain shapes, sigma and clip',
     'the test compares one run with a stored shape',
     [PT], [('nourishment_area', PT)], ['array returned'])

prop('C20', 'Nourishment time is the mean time of visits',
     'nourishment_time gives for each cell the mean, over all recorded '
     'visits but the first and last of each particle, of half the durations '
     'of the steps into and out of it, clipped at the given percentile and '
     'smoothed with the given sigma. The lowest cells (without smoothing: '
     'exactly those of no time) are NaN, and the order of the particles is '
     'irrelevant.',
     ['inputs', 'histories', 'configurations'],
     'all walk histories, domain shapes, sigma and clip',
     'the test compares one run with a stored shape',
     [PT], [('nourishment_time', PT)], ['array returned'])

prop('C21', 'Flux-proportional seeding distributes all particles fairly',
     'flux_proportional_seeding gives integers, one per timestep, that sum '
     'to the number of particles, each within 1 of its exact share by '
     'absolute discharge, the larger remainders rounded up; no discharge, '
     'no particles. Too few timesteps or zero discharge raise ValueError, '
     'and the discharge is not changed.',
     ['inputs'],
     'all discharge series (rows or columns, reversals, zeros), numbers of '
     'particles',
     'the tests use one or two short series',
     [PT], [('flux_proportional_seeding', PT)], ['array returned'])

prop('C22', 'State queries return the right entries for all particles',
     'get_state returns for every particle, in order, the entry of the given '
     'iteration of all variables (the last one if its history is shorter), '
     'and get_time_state the entry whose time is nearest to the given one. '
     'Values of one particle always belong together, and messages tell how '
     'many, or which, particles fell short.',
     ['inputs', 'histories'],
     'all walk histories (uneven lengths, extra variables), iterations '
     'from the start or the end, and times',
     'the tests query one short walk',
     [RT], [('get_state', RT), ('get_time_state', RT)],
     ['values returned, against the walk data'])

prop('C23', 'Steady routines do, save and return the same run',
     'steady_plots and time_plots move the particles exactly as that number '
     'of iterations does, return the walk data, and save them as JSON that '
     'reads back equal, along with one figure per iteration that shows '
     'depth, start and present positions (colored by travel time in '
     'time_plots). With save_output off, nothing is written.',
     ['inputs', 'configurations', 'histories'],
     'all flow fields, particles, tracked variables and numbers of '
     'iterations',
     'the tests check that files exist after one run',
     [RT], [('steady_plots', RT), ('time_plots', RT)],
     ['walk data returned, files, and contents of the figures'])

prop('C24', 'The unsteady routine follows the model outputs in order',
     'unsteady_plots routes particles through the flow fields in the files '
     'in order, to the end of each timestep in turn, carrying all histories '
     'over, the same for csv, npy and npz files; no more timesteps are done '
     'than there are files. The result equals that of the same steps done '
     'one by one, is saved as JSON that reads back equal, and there is one '
     'figure per timestep with its depth and the positions.',
     ['inputs', 'configurations', 'histories'],
     'all series of flow fields, file types, timesteps, and particles',
     'the tests run three files of one domain, and look for output files',
     [RT], [('unsteady_plots', RT)],
     ['walk data returned, files, and contents of the figures'])

prop('C25', 'Exposure time plots show the distribution of exposure times',
     'plot_exposure_time and plot_exposure_time_thresholds draw the fraction '
     'of all particles that have left the region by each time, ignoring '
     'those that never entered or never left, up to the least (or largest, '
     'if timesteps are uniform) final time, in units of timedelta; the '
     'curves never decrease. The times at which 50, 75 and 90 percent are '
     'reached, or that they are not, are reported, and the exposure times '
     'saved read back equal.',
     ['inputs', 'configurations'],
     'all walk histories, exposure times, time units, numbers of bins, with '
     'and without tracked variables',
     'the tests check that files exist',
     [RT], [('plot_exposure_time', RT),
            ('plot_exposure_time_thresholds', RT)],
     ['curves in the figures, messages, file'])

prop('C26', 'Logging obeys the configuration, and prints nothing else',
     'setup_logging sets the level and adds the given handler, or one to '
     'stderr, once, without changing loggers of the application; unknown '
     'levels raise ValueError. Messages of the library reach each handler '
     'exactly once and only at or above the level, nothing is printed to '
     'stdout, and the old verbose options warn of deprecation and set the '
     'level they stand for.',
     ['histories', 'configurations'],
     'all sequences of configurations and of calls which emit messages',
     'the tests set the level once each',
     [LG, PT, RT], [('setup_logging', LG),
                    ('handle_verbose_deprecation', LG)],
     ['records at handlers, stdout, stderr'])

prop('C27', 'Plots show the positions and paths that were recorded',
     'plot_state marks exactly the positions at the iteration or time asked '
     'for; draw_travel_path and snake_plots draw lines through the recorded '
     'positions, in order, of the particles asked for (all by default); '
     'nourishment and exposure maps are drawn as given, with the first seed '
     'location marked; all over the given grid, and in the axes returned.',
     ['inputs', 'histories', 'configurations'],
     'all walk histories, grids, iterations, particle selections, intervals '
     'and tail lengths',
     'the tests check that a file or an axis is made',
     [RT, SP], [('plot_state', RT), ('draw_travel_path', RT),
                ('snake_plots', RT), ('show_nourishment_area', RT),
                ('show_nourishment_time', RT), ('plot_spatial', SP)],
     ['contents of the figures'])

prop('C28', 'Analysis and plotting leave their inputs as they are',
     'Queries, statistics, conversions of units and plots change neither '
     'walk data, grids, regions nor lists given to them (ind2coord adds its '
     'two variables only), so that repeating or reordering them gives the '
     'same results, and a run can go on afterwards, from the same random '
     'state, as if they had not been called.',
     ['inputs', 'histories'],
     'all walk histories and sequences of analysis calls',
     'each test calls one function, once',
     [PT, RT, SP], [('exposure_time', PT), ('nourishment_area', PT),
                    ('get_state', RT), ('systemwide', SP)],
     ['inputs before and after, results of repeated calls'])

prop('C29', 'A saved run resumes as if it had not been interrupted',
     'Walk data saved as JSON and loaded into a new object with '
     'previous_walk_data, at any point of a run, continue identically to '
     'the uninterrupted run from the same random state: same positions, '
     'times and tracked variables, for iterations as well as target times. '
     'So does a copy of the Particles object (copy.deepcopy or pickle, as '
     'sent to other processes), and routing the copy leaves the walk data '
     'of the original as they were.',
     ['crash_points', 'histories', 'inputs'],
     'all flow fields, operations, tracked variables, and all points of '
     'interruption, also several',
     'no test resumes a run',
     [PT, RT], [('generate_particles with previous_walk_data', PT)],
     ['interrupted and uninterrupted walks'])

prop('C30', 'Animations show the saved figures, each once and in order',
     'animate_plots writes one animation into the folder, whose frames are '
     'the saved figures from the first number up to, but not including, the '
     'last, in numerical order, the right way up.',
     ['inputs'],
     'all ranges of figures, folders and pictures',
     'the tests skip it, as the writer is not installed',
     [RT], [('animate_plots', RT)],
     ['frames that the animation writer gets (a stand-in for ffmpeg)'])

prop('C31', 'Options left out act as their documented defaults',
     'Leaving out an option of the parameters (theta 1, gamma 0.05, '
     'diff_coeff 0.2 or 0 for steepest descent, dry_depth 0.1, cell types '
     'estimated from the depth with edges around, no steepest descent, no '
     'extra variables, the D8 geometry) or an argument of a method, an '
     'analysis function or a plot gives exactly the same as giving its '
     'documented default; neither the type in which numbers are given nor '
     'the memory order of grids makes a difference.',
     ['configurations', 'inputs'],
     'all flow fields, all subsets of options and arguments left out',
     'the tests check single default values of single attributes; whether '
     'the default is what is used in a walk cannot be told from these',
     [PT, RT, SP], [('Particles.__init__, optional parameters', PT),
                    ('signatures of the functions', RT)],
     ['pairs of walks, results, and figures'])

prop('C32', 'Uniform flow carries particles at its speed, evenly to both sides',
     'Over flat water of one depth with the same flow everywhere, whatever '
     'its direction, speed, description and cell size: without dispersion '
     'the time of a particle is its displacement along the flow over the '
     'speed; with diff_coeff D each step takes (1 + D*w) times as long, w '
     'uniform in (-1/2, 1/2), so that times are right on average. In flow '
     'along an axis each step goes one cell downstream; runs to a time T '
     'end at the cell nearest to speed times T (0.1 s at finest); the '
     'exposure time of a reach is its length over the speed; the mean time '
     'in a cell crossed is dx over the speed, and rows crossed by all are '
     'visited alike. Particles drift to both sides alike. Without flow all '
     'ways are alike, and particles spread as in a free random walk. The '
     'same holds in parallel and with the steady and unsteady routines.',
     ['inputs', 'configurations', 'histories'],
     'all directions, speeds, depths, cell sizes, conventions, weighting '
     'parameters and ways to run',
     'the tests have no flow whose outcome is known as a whole: a straight '
     'channel is only among the examples, for the user to look at',
     [PT, LW, RT], [('calc_travel_times', LW), ('make_weight', LW),
                    ('exposure_time', PT), ('nourishment_time', PT)],
     ['walk data, exposure and nourishment of whole runs'])

prop('C33', 'Doubtful and missing settings are reported, and only those',
     'Making a Particles object logs (INFO) each of theta, gamma, '
     'diff_coeff, dry_depth and cell_type that was left out, once, with the '
     'default in use, none that was given, and the kind of walk in use. A '
     'negative diff_coeff gives a warning and acts as zero, one of 2 or '
     'more gives a warning and is used as given, others give none; '
     'generate_particles warns of a seed_time other than zero each time, '
     'and only then. With verbose False there are no such warnings and '
     'messages.',
     ['configurations', 'inputs'],
     'all subsets of settings, values in and out of range, verbosity, '
     'levels, and flow fields',
     'the tests check the value that an attribute gets for a few settings, '
     'not what is reported, nor that nothing else is',
     [PT], [('Particles.__init__, optional parameters', PT),
            ('generate_particles, seed_time', PT)],
     ['messages and warnings caught, and walks'])
prop('C34', 'Failures reach the caller and leave whole histories',
     'When something that is called during a run fails (a draw of random '
     'numbers, the saving of a figure, a warning made an error, an iteration '
     'in a worker process), the failure reaches the caller as it is. The '
     'histories stay aligned: what had been recorded is kept, and what was '
     'added is a beginning of what would have been recorded without the '
     'failure; failed seeding adds no particles, and failed workers add '
     'nothing to the object passed in. A run to a target time that is '
     'continued afterwards ends as it would have without the failure, as '
     'does a repeated iteration or seeding.',
     ['crash_points', 'histories', 'inputs'],
     'any point at which a call made by a run may fail, in any history',
     'the tests let nothing fail but invalid input before a run starts',
     [PT, LW, PR, RT], [('run_iteration', PT), ('generate_particles', PT),
                        ('run_iter', PR), ('steady_plots', RT)],
     ['exceptions caught, walk data after them, and figures saved'])
prop('C35', 'Walks depend on the cells around them only, however the domain lies',
     'With the same random numbers, a walk (positions, times, and tracked '
     'values) does not change if the flow, depth or cell types change '
     'anywhere but in the cells that particles pass and their neighbors, if '
     'the domain becomes part of a larger one, or if the stage gets another '
     'datum; a later seed time and later targets shift times only. Larger '
     'cells and slower flow by a factor scale the times by it, and depth, '
     'stage and dry_depth in other units change nothing. Turning or '
     'mirroring the domain turns steepest descents and the chances of each '
     'step with it, and steepest descents without ties are the same alone '
     'as among other particles. With gamma 0 the stage is ignored; for '
     'positions, with gamma 1 the flow is, and with theta 0 how deep the '
     'water is (but at dead ends).',
     ['inputs', 'configurations', 'histories'],
     'all flows, changes elsewhere, eight ways to lay a grid, scales and runs',
     'the tests have single domains, with the flow in one direction, and '
     'expect numbers of them',
     [PT, LW], [('make_weight', LW), ('particle_stepper', LW),
                ('calc_travel_times', LW), ('run_iteration', PT)],
     ['pairs of walk data'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                       'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
