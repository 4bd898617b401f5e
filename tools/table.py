GVG = 'contract markers in a driver, fully inlined LLVM form, gated value-graph normal forms compared case by case; interval facts prune infeasible cases'
NOTE = ('Decides the clauses the check lists as obligations for every input admitted by the stated preconditions, in real arithmetic (IEEE rounding is abstracted). A clause is reported only when the canonical forms differ and the difference is realisable over free inputs; '
        'a clause the analysis cannot decide is printed and counted as undecided, never alarmed. Trusts clang\'s lowering, LLVM\'s simplifications and the models of the standard library.')
def P(id, title, st, over, q, why, files, mech, tech=GVG, note=NOTE): return dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note)
def N(id, title, st, over, q, why, files, mech, reason): return dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, reason=reason)
CELLF = ['src/core/maps/grid_cell.h', 'src/core/maps/naive_grid_cells.h', 'src/core/maps/tbm_grid_cells.h', 'src/slams/gmapping/gmapping_grid_cell.h', 'src/slams/credibilist/grid_cell.h']
PROPS = [
 P('C01', 'Invalid observations never change a cell',
   'An occupancy observation whose probability or estimation quality is not a number leaves every kind of map cell exactly as it was: its probability, quality, known flag, belief and counters.',
   ['inputs', 'histories'], 'every cell state reachable or not, every observation with a missing probability or quality, all six cell models',
   'the tests feed a few valid observations into fresh cells; none sends an invalid one into a cell with history', CELLF,
   [('validity guard at the head of each update', 'operator+= of the cell classes')],
   'NaN/interval propagation over the inlined update with the dynamic type fixed; reachability of stores into the cell'),
 P('C02', 'A cell is unknown exactly until its first accepted observation',
   'A freshly created cell reports itself as unknown and holds its prior value at full quality (occupancy one half, or none at all for the particle-filter cell); accepting one valid observation makes it known from any state, and no later accepted observation makes it unknown again.',
   ['inputs', 'histories'], 'all cell models, all states, all valid observations', 'tests look at single cells with hand-picked observations', CELLF,
   [('known flag raised by each update', 'on_update and operator+=')]),
 P('C03', 'Observations merge into cells by the documented averaging rules',
   'The quality-weighted cell moves towards the observation by exactly its quality, the mean cell always holds the arithmetic mean of all quality-scaled readings since its creation, and the particle-filter cell holds the share of occupied readings together with the mean obstacle position, its disagreement with a reading being one minus a Gaussian of the distance to that position.',
   ['inputs', 'histories'], 'all observation histories (inductive step for any counter value) and all qualities', 'tests check short histories with one or two constants', CELLF[:2] + CELLF[3:4],
   [('running means', 'operator+= of the averaging cells')]),
 P('C04', 'Cell probabilities, qualities and disagreements stay in [0, 1]',
   'Starting from a state whose probability, quality and beliefs lie in their ranges, every accepted observation in range leaves the probability and the estimation quality of a cell a number between 0 and 1. The disagreement of a cell with a reading lies between 0 and 1 as well.',
   ['inputs', 'histories'], 'all in-range states and observations of each cell model, hence all histories by induction', 'a range violation needs particular combinations (zero qualities, total conflict) that no test tries', CELLF,
   [('normalisation and convex combinations', 'operator+=, normalize*, tbm2occ, discrepancy')],
   'interval abstract interpretation with exact multi-affine ranges over the gated value graph of the update; inductive invariant per class'),
 P('C05', 'Belief cells combine evidence by the transferable-belief rules',
   'Combining two beliefs conjunctively assigns each product of masses to the intersection of the hypotheses (disjunctively: to their union) and renormalises; a belief cell becomes the conflict-free conjunction of its belief and the observation, with total conflict giving the vacuous belief. The reported occupancy and the disagreement with a reading follow from that belief by the documented formulas.',
   ['inputs', 'histories'], 'all belief assignments and observations', 'tests compare a dozen numeric samples', ['src/core/maps/transferable_belief_model.h', 'src/core/maps/tbm_grid_cells.h', 'src/slams/credibilist/grid_cell.h', 'src/slams/credibilist/TBM_prob_conversion.h'],
   [('combination tables', 'conjunctive, disjunctive'), ('normalisation', 'TBM::normalize, TBM::normalize_conflict'), ('conversion', 'tbm2occ, TBM_to_O, aoo2tbm, AOO_to_TBM')]),
 P('C06', 'A cloned cell is indistinguishable from, and independent of, the original',
   'A copy of a map cell has the same kind and reports the same occupancy, quality, known flag, belief and disagreement as the original, and reacts to further observations exactly as the original would. Updating the copy does not affect the original.',
   ['inputs', 'histories'], 'every cell state of every cell model', 'tests clone fresh cells only; a counter dropped by a copy shows up only after later updates', CELLF,
   [('polymorphic copies', 'clone of each cell class')]),
 P('C07', 'Stored cells are restored exactly',
   'Writing any sequence of cells to a byte buffer and reading them back into fresh cells restores every observable of each cell, including how it will react to later observations. The reader consumes exactly the bytes the writer produced, so consecutive cells do not disturb one another.',
   ['inputs', 'histories'], 'all states of all cell models, consecutive objects in one buffer', 'tests store a few cells and compare printed maps; counters and offsets are not covered', CELLF + ['src/core/serialization.h'],
   [('writer/reader pairs', 'serialize/deserialize of each cell class'), ('byte buffer', 'Serializer, Deserializer')],
   'writer and reader inlined over a fixed-capacity byte-buffer model; stored values forwarded into reads, then value-graph comparison'),
 P('C08', 'Grid coordinates and cell geometry agree',
   'A world point belongs to the cell whose square contains it (half-open on each side), the middle of a cell maps back to that cell, and cell corners, sides and distances follow the scale and origin of the grid. External and internal coordinates differ exactly by the origin, whose validity test matches the grid size.',
   ['inputs'], 'all points, scales, grid sizes and origins', 'tests use one or two scales and a handful of points', ['src/core/maps/regular_squares_grid.h', 'src/core/geometry_discrete_primitives.h'],
   [('coordinate conversion', 'RegularSquaresGrid::world_to_cell, cell_to_world, internal2external, external2internal'), ('integer vectors', 'DiscretePoint2D')]),
 P('C09', 'Pose and scan-point arithmetic follows plane geometry',
   'Composing, subtracting and negating poses and pose deltas acts on each component alone, and a delta counts as movement when any component differs noticeably from zero. A scan point keeps its range, angle and occupied flag through conversions between polar and cartesian form; moving it into the world rotates its direction by the base angle and adds the sensor position.',
   ['inputs'], 'all poses, deltas, ranges and angles, with either kind of scan point', 'tests check a few axis-aligned examples', ['src/core/states/robot_pose.h', 'src/core/states/sensor_data.h', 'src/core/trigonometry_utils.h'],
   [('pose operators', 'RobotPose, RobotPoseDelta'), ('scan points', 'ScanPoint2D::move_origin, to_cartesian, to_polar'), ('direct trigonometry', 'RawTrigonometryProvider')]),
 P('C10', 'The world update cycle is predict, match, correct, insert, notify',
   'Handling a scan moves the robot by the odometry, lets the matcher (reset for every scan) correct that pose against the own map, inserts the scan into the own map at the corrected pose, and only then tells every subscribed pose observer the final pose and every map observer the own map, once each. The scan is inserted with the localised quality when the matcher moved the robot and with the raw quality when it did not.',
   ['inputs', 'histories'], 'all poses, odometry readings, corrections, qualities and scan points; consecutive scans', 'no test drives the world class through its update cycle with observers attached', ['src/core/states/single_state_hypothesis_laser_scan_grid_world.h', 'src/core/states/laser_scan_grid_world.h', 'src/core/states/world.h', 'src/core/maps/grid_map_scan_adders.h'],
   [('update cycle', 'LaserScanGridWorld::handle_sensor_data'), ('correction', 'SingleStateHypothesisLaserScanGridWorld::handle_observation'), ('observers', 'World::notify_*')],
   GVG + '; components replaced by probes that record what they receive'),
 P('C11', 'Scan insertion marks the obstacle cell occupied and the beam free',
   'Every scan point between the two margins is inserted once, as the beam from the robot to the point in world coordinates and with the scan quality times the point quality. Each cell of a beam is updated exactly once: the last cell as the obstacle (or as free for a non-occupied reading), the others as free, except that cells within the blur distance of an obstacle get the linearly fading obstacle probability. Beams longer than the usable range change nothing.',
   ['inputs'], 'all poses, readings, margins 0 and 1, scales, qualities, blur distances of either sign and usable ranges', 'tests exercise a few blur settings and horizontal beams', ['src/core/maps/grid_map_scan_adders.h', 'src/core/states/sensor_data.h'],
   [('point selection', 'GridMapScanAdder::append_scan'), ('beam rendering', 'WallDistanceBlurringScanAdder::handle_scan_point, blur_cell_dist')],
   GVG + '; map, estimator and trigonometry replaced by recording probes'),
 P('C12', 'Matching returns the best pose tried and a delta that leads to it',
   'The enumeration matcher scores the initial pose and every pose the enumerator offers with the filtered scan, keeps a candidate exactly when its probability beats the best so far (an unknown probability never wins), and returns that probability together with the delta from the initial pose to the kept pose. The enumerator is told of every outcome, is reset for each scan, and the observers see the start, every test, every improvement and the end.',
   ['inputs', 'histories'], 'all initial poses, all probabilities including unknown ones, all outcomes of up to three candidates, consecutive scans', 'tests match synthetic scans against maps and compare the final pose only', ['src/core/scan_matchers/pose_enumeration_scan_matcher.h', 'src/core/scan_matchers/grid_scan_matcher.h'],
   [('search loop', 'PoseEnumerationScanMatcher::process_scan'), ('observer list', 'GridScanMatcher::subscribe, unsubscribe, do_for_each_observer')],
   GVG + '; enumerator, estimator and observers replaced by recording probes'),
 P('C13', 'Pose enumerators follow their documented schedules',
   'Brute-force enumeration yields every pose of the configured lattice once around the given pose; hill climbing tries six neighbours per round, halves the step after a round without success and stops after the allowed number of such rounds; the Monte Carlo enumerator draws around the current best pose with the configured dispersion, halves it after a late success and obeys both limits. The hill climber may align its neighbours with the dominant direction of the scan at hand. Resetting an enumerator restarts its schedule around the next pose it is given.',
   ['inputs', 'histories'], 'all symbolic settings, poses and outcomes of the first steps, complete enumeration of small lattices', 'tests run each matcher once with one setting; reset and reuse are not covered', ['src/core/scan_matchers/brute_force_scan_matcher.h', 'src/core/scan_matchers/pose_enumerators.h', 'src/core/scan_matchers/monte_carlo_scan_matcher.h', 'src/core/scan_matchers/hill_climbing_scan_matcher.h', 'src/core/random_utils.h'],
   [('schedules', 'next, feedback, reset and has_next of the enumerators'), ('random shifts', 'RobotPoseDeltaRV')]),
 P('C14', 'Scan probability is the weighted mean of its point probabilities',
   'The probability of a scan at a pose is the sum over its points of the weight times the factor times the probability of an obstacle at the point moved to that pose, divided by the total weight, and unknown when that total is zero. Filtering keeps exactly the occupied points in range that fall into the map at the pose, honouring the skip rate, and prepares the weights with the kept points; the probability of one point is the obstacle-cell, maximum, mean or overlap-weighted mean impact of the cells in its area. The Gmapping observation probability is the greatest agreement (one minus discrepancy) among the cells of the square window around the obstacle that are at least as full as the threshold, zero if there is none, whatever was asked before.',
   ['inputs'], 'all poses, readings, factors, weights, cell values and areas', 'tests compare a few scans on hand-made maps; factors, skipping and unusual weights are not combined', ['src/core/scan_matchers/weighted_mean_point_probability_spe.h', 'src/core/scan_matchers/occupancy_observation_probability.h', 'src/core/scan_matchers/observation_impact_estimators.h', 'src/core/scan_matchers/grid_scan_matcher.h', 'src/core/maps/grid_rasterization.h', 'src/slams/gmapping/gmapping_occupancy_observation_pe.h'],
   [('aggregation', 'WeightedMeanPointProbabilitySPE::estimate_scan_probability'), ('filter', 'WeightedMeanPointProbabilitySPE::filter_scan'), ('point models', 'the occupancy observation probability estimators'), ('Gmapping window', 'GmappingOccupancyObservationPE::probability')],
   GVG + '; map, weights, trigonometry and impacts replaced by uninterpreted probes'),
 P('C15', 'Angle histogram counts and weights segment directions',
   'After a reset with a scan the angle histogram holds one count per pair of neighbouring points, in the bin of the direction of that segment folded into [0, pi), and nothing of earlier scans; directions are always in range even under rounding, mean and major directions are those of the segments in the bin, the value of a point is the count of its segment bin (the scan size for the first point), and the reciprocal weighting is one over that value.',
   ['inputs', 'histories'], 'all point coordinates, repeated resets with different scans', 'tests compare counts for a handful of hand-made scans; rounding of near-horizontal segments and reuse are not covered', ['src/core/features/angle_histogram.h', 'src/core/scan_matchers/weighted_mean_point_probability_spe.h'],
   [('histogram', 'AngleHistogram::reset, hist_index, estimate_ox_based_angle'), ('weights', 'AngleHistogramReciprocalSPW')],
   GVG + '; vector storage replaced by a case-resolved model, directions by an uninterpreted function where bin arithmetic is judged'),
 P('C16', 'Rectangles, segments and rays follow plane geometry',
   'Rectangle bounds, sides, areas, centres, halves, quarters, moves and shrinks are exact; a rectangle contains what lies between its bounds and nothing else; the intersection and overlap of two rectangles are those of the plane, whichever way they cross. Segments and rays meet each other and rectangles exactly at the points that lie on both, and the numeric comparison helpers order numbers that differ noticeably.',
   ['inputs'], 'all coordinates of rectangles in any mutual position, segments, rays and points, away from the comparison tolerance', 'tests compare a few hand-made rectangles and axis-aligned segments; rectangles crossing without a contained corner were wrong and untested', ['src/core/geometry_primitives.h', 'src/core/geometry_utils.h', 'src/core/math_utils.h'],
   [('rectangles', 'LightWeightRectangle'), ('segments and rays', 'Segment2D, Ray, Intersections'), ('comparison helpers', 'are_equal, less, less_or_equal, are_ordered')],
   GVG + '; linear and product facts decided by Fourier-Motzkin elimination'),
 P('C17', 'Segments and areas are rasterized into exactly the cells they cross',
   'The cells of a segment are listed from the cell of its start to the cell of its end, are exactly the cells the segment crosses, each once and in crossing order; a segment along a cell border or through a corner takes the documented tie. The cells of an area are exactly those it overlaps (the border cells too when asked for), each once. A discrete line joins its end points by neighbouring points that stay within half a cell of the exact line.',
   ['inputs'], 'all end points of segments that cross up to three grid lines in any direction and order, of areas up to 3x3 cells, scales, discrete lines up to length 4 from any start', 'tests rasterize a few dozen fixed segments and rectangles', ['src/core/maps/regular_squares_grid.h', 'src/core/maps/grid_rasterization.h', 'src/core/geometry_discrete_primitives.h'],
   [('segments', 'RegularSquaresGrid::world_to_cells'), ('areas', 'GridRasterizedRectangle'), ('discrete lines', 'DiscreteSegment2D::operator vector')],
   GVG + '; order of crossings decided by linear arithmetic over products of coordinates'),
 P('C18', 'Plain maps keep every cell through updates, growth and saving',
   'A plain map returns for every cell what was last written there and the unknown prototype elsewhere; an update or reset changes exactly the addressed cell. The unbounded map reports every coordinate as present, does not grow when read, and grows to include a written coordinate while every older cell keeps its coordinate and content; loading a saved state restores sizes, scale, origin and all cells and leaves the two maps independent. No cell access leaves the storage.',
   ['inputs', 'histories'], 'all cell contents, all map sizes up to 5000x5000 and all coordinates for the extent of a growth, all growth directions on small maps for the contents', 'tests grow 1x1 mock maps and compare sizes and a handful of cells', ['src/core/maps/plain_grid_map.h', 'src/core/maps/grid_map.h', 'src/core/maps/regular_squares_grid.h', 'src/core/serialization.h'],
   [('storage', 'PlainGridMap::operator[], reset, update'), ('growth', 'UnboundedPlainGridMap::ensure_inside'), ('saving', 'UnboundedPlainGridMap::save_state, load_state')],
   GVG + '; element accesses checked against container sizes, extents decided by linear arithmetic'),
 P('C19', 'Lazily tiled maps behave as if every cell were stored separately',
   'A tiled map returns for every cell what was last written there and the unknown prototype elsewhere, although cells and whole tiles share storage until written. A write changes exactly the addressed cell: never the unknown cell, other cells of a shared tile, or any copy of the map made before or after; copying and assigning yield equal, independent maps. The unbounded map grows by whole tiles to include a written coordinate and keeps every older cell.',
   ['inputs', 'histories'], 'all cell contents and orders of writes, copies and growth on small maps with 2x2 tiles; all map sizes and coordinates for the extent of a growth', 'tests grow mock maps and compare sizes; sharing between copies is sampled with one map', ['src/core/maps/lazy_tiled_grid_map.h', 'src/core/maps/grid_map.h', 'src/core/maps/regular_squares_grid.h'],
   [('sharing', 'LazyTiledGridMap::ensure_sole_owning, reset, update'), ('growth', 'UnboundedLazyTiledGridMap::ensure_inside, extra_tiles_nm')],
   GVG + '; shared ownership modelled as reference counts, tile side reduced to two'),
 P('C20', 'Coarse map scales bound the finest map',
   'A multi-scale map has one scale per doubling of the cell side up to a single unlimited cell, each covering the whole finest map, also after the map has grown; a known cell makes the areas that contain it known on every coarser scale with an occupancy no smaller than its own and no larger than the largest ever written there, while areas without known cells stay unknown. Rescaling selects the finest scale whose cells are not smaller than asked, a temporary rescaling restores the former scale, and the finest scale returns what was last written.',
   ['inputs', 'histories'], 'all cell values, update and reset sequences that raise, repeat or lower values and grow the map up to 4x4 cells in any direction, initial sizes up to 8x2, all target scales', 'tests compare a handful of updates on fixed maps; growth that adds scales was wrong and untested', ['src/core/maps/rescalable_caching_grid_map.h', 'src/core/scan_matchers/m3rsm_engine.h'],
   [('scales', 'RescalableCachingGridMap::ensure_map_cache_is_continuous, rescale, set_scale_id'), ('bounds', 'M3RSMRescalableGridMap::update_coarser_maps, post_area_update'), ('temporary scale', 'SafeRescalableMap')],
   GVG + '; storage maps replaced by a minimal growing map'),
 P('C21', 'Multi-resolution matching judges, orders and refines hypotheses as documented',
   'A hypothesis is judged once, at the pose shifted to the centre of its drift and rotated, over its drift area and at the map scale of its longer side. Hypotheses leave the queue by descending upper bound, ties going to the finer and then the less rotated one; one is dropped only if it is below the best exact hypothesis by more than the tolerance, and a reset forgets all. A request tries every rotation of the sector with the exact start and the whole range; a coarse drift is split into parts that cover it. The matcher returns the first exact hypothesis, refining coarse ones at their corners and centre, and restores the scale of the map.',
   ['inputs', 'histories'], 'all poses, drifts, rotations, probabilities and tolerances; up to three queued hypotheses; sectors of up to seven rotations', 'tests match a few synthetic scans and compare the final pose only', ['src/core/scan_matchers/m3rsm_engine.h', 'src/core/scan_matchers/bf_multi_res_scan_matcher.h'],
   [('hypothesis', 'Match'), ('queue', 'M3RSMEngine::add_match, next_best_match, branch, add_scan_matching_request'), ('matcher', 'BruteForceMultiResolutionScanMatcher::process_scan')],
   GVG + '; the priority queue replaced by a model that returns a greatest element, the engine by a recording probe where the matcher is judged'),
 P('C22', 'Occupancy estimates follow the share of the cell a beam observes',
   'The constant estimator returns the configured pairs. The area estimator returns no estimate for a cell the beam misses, touches in a point or only starts from behind, and never an obstacle unless the beam ends there; a pierced empty cell gets the empty probability with a quality scaled by the smaller of the two shares the beam cuts; a beam starting, ending or lying in an empty cell gets the unknown quality; an obstacle gets the share of the cell behind the line through the beam end perpendicular to the beam, at least the empty probability. All of this holds wherever the cell lies and whichever way it is turned.',
   ['inputs', 'histories'], 'cells at any position with sides 2 and 0.5, any estimates and qualities, beams along both axes, both diagonals and slopes of one half, all eight orientations, all beam lengths and offsets including edges and corners', 'tests use one cell around the origin and fixed beams; cells away from the origin, obstacles on edges and estimators used for cells of different sizes were wrong and untested', ['src/core/maps/area_occupancy_estimator.h', 'src/core/maps/const_occupancy_estimator.h', 'src/core/maps/cell_occupancy_estimator.h'],
   [('classification', 'AreaOccupancyEstimator::classify_segment, modified_is_inside'), ('shares', 'AreaOccupancyEstimator::compute_chunk_area, are_on_the_same_side, estimate_occupancy'), ('edge beams', 'AreaOccupancyEstimator::ensure_segment_not_on_edge')],
   GVG + '; exact polynomial division, signs of products of known factors, linear arithmetic'),
 P('C23', 'Cached trigonometry equals the trigonometry of the nearest beam angle',
   'The raw provider returns the sine and cosine of the base angle plus the given angle. The cached provider, after an update with a range and a step, returns for every query within half a step of a grid angle below the maximum the sine and cosine of the base plus that grid angle, whether the base was set before or after, and an update with a different minimum, maximum or step replaces everything that was cached.',
   ['inputs', 'histories'], 'all ranges of up to four beams, steps, bases and queries; one update or two updates that differ in any one parameter or in all', 'the built tests never update a cached provider twice nor query between beams', ['src/core/trigonometry_utils.h'],
   [('cache', 'CachedTrigonometryProvider::update, sin, cos'), ('base', 'set_base_angle of both providers')],
   GVG + '; sine and cosine uninterpreted'),
P('C24', 'The particle filter resamples by weight and renormalises',
   'A new filter holds the asked number of distinct particles made by the factory, each with weight 1/n. Normalising divides every weight by the total and keeps the particles. The heaviest particle, const or not, is one no other particle outweighs. Resampling is required exactly if twice the effective number of particles, 1 over the sum of squared weights, is less than the number of particles; a draw picks the particle in whose share of the cumulated weights it falls. An attempt to resample that is not required changes nothing and returns false; otherwise it returns true, keeps the number of particles, gives each slot the state of the particle drawn for it, keeps the particle object itself at its first draw without sampling it, replaces every later draw by an own object that carries the state and was sampled once, and leaves weights that sum to one in the proportion of the drawn ones.',
   ['inputs', 'histories'], 'all weights and draws; one to four particles; every combination of draws for three particles, a seventh of them for four', 'no built test instantiates the particle filter', ['src/core/particle_filter.h'],
   [('creation', 'ParticleFilter constructor'), ('weights', 'normalize_weights, heaviest_particle'), ('choice', 'UniformResamling'), ('resampling', 'ParticleFilter::try_resample')],
   GVG + '; random draws uninterpreted'),
P('C25', 'Gmapping particles and their filter follow the documented cycle',
   'A Gmapping particle turns the translation of every odometry step by the heading error its corrections have built up, and sums up the absolute steps. A scan is ignored until that way or turn reaches the limits drawn after the last matched scan; then the guess gets a drawn noise (not before the first scan), is matched and corrected, the scan is inserted at the corrected pose with margin 0 if the match has a positive probability or is the first, the weight is multiplied by that probability, and way, turn and limits start anew. A master matches every scan without noise from the first match on; a sampled particle is no master; copies carry pose, heading error and weight. The filter gives every particle every odometry step and scan, normalises, tries to resample only after a way of more than 0.5 square metres or a turn of more than 0.2 since the last resampling, and always has one master: the surviving one or the heaviest. World, pose, map and notifications are those of the heaviest particle.',
   ['inputs', 'histories'], 'all poses, motions, corrections, probabilities, limits and noise; two or three scans; one to three particles, eight patterns of draws', 'no built test instantiates a Gmapping particle or filter', ['src/slams/gmapping/gmapping_world.h', 'src/slams/gmapping/gmapping_particle_filter.h', 'src/core/random_utils.h', 'src/core/states/robot_pose.h'],
   [('particle', 'GmappingWorld::update_robot_pose, handle_observation, mark_master, sample'), ('filter', 'GmappingParticleFilter::handle_sensor_data, update_robot_pose, handle_observation, try_resample, ensure_master_exists')],
   GVG + '; matcher, adder and particle filter replaced by recording probes, random draws uninterpreted'),
P('C26', 'The settings build the documented components with the documented values',
   'Every component factory reads the documented keys with the documented defaults and passes the values on in their place: the type names of the observation impact and probability estimators, point weighting, scan probability estimator, scan matcher, occupancy and mapping quality estimators, cell model and map pick the component of that name, nested parts come from their own settings, an absent name picks the documented default, and an unknown name (or an absent one without a default) ends the program with a failure status and never with a component. That covers the limits, steps, accuracies, seed and attempt counts of every matcher, the drift detector wrapped around the chosen matcher if asked for, map width, height and scale (cells are rounded up), blur, ranges, qualities and the Gmapping parameters. Settings are read anew for every component. Stored settings: an absent key yields the given default, a present one its own latest value; a boolean is false exactly for "false" and "0"; merging adds keys and keeps those already defined.',
   ['inputs', 'histories'], 'all values and presences of the numeric keys; every documented type name, an unknown and an absent one per factory; two factories in a row; stores of up to three keys', 'the factories are not part of the built tests', ['src/utils/init_scan_matching.h', 'src/utils/init_occupancy_mapping.h', 'src/utils/init_slam.h', 'src/slams/gmapping/init_gmapping.h', 'src/utils/properties_providers.h'],
   [('matching', 'init_scan_matcher, init_spe, init_oope, init_oie, init_swp'), ('mapping', 'init_grid_map, init_grid_map_params, init_scan_adder, init_occ_estimator, init_omqe, init_occupied_area_model'), ('worlds', 'init_1h_slam, init_gmapping'), ('store', 'MapPropertiesProvider')],
   GVG + '; components replaced by recording ones, a setting an uninterpreted value of its key and default'),
P('C27', 'Map images and text rasters show every cell in its place',
   'A dumped map image is a binary portable greymap: its header states width, height and 255, its rows run from the top row of the map to the bottom one and from left to right, and a pixel is the darker the more occupied the cell is, with bounded occupancies and mid-grey for unknown ones; every update of an observed map goes to a file of its own, numbered from zero. A text raster sets the cell under each of its characters, zoomed as asked and placed at the offset or centred, to free for a blank and to occupied otherwise, and nothing else; an empty line ends it and an earlier raster leaves nothing behind. A dead-end primitive has the asked size, exactly its bounds occupied, and its free space is the rectangle of its blank cells.',
   ['inputs', 'histories'], 'all occupancies of maps up to 3x2 with several origins, all characters of rasters up to three rows of three with zooms up to three and any offset, primitives up to 5x4 of every kind', 'the dumper is not tested; rasters are tested with a few fixed texts', ['src/utils/map_dumpers.h', 'src/utils/data_generation/grid_map_patcher.h', 'src/utils/data_generation/map_primitives.h'],
   [('image', 'GridMapToPgmDumber::dump_map, on_map_update'), ('raster', 'GridMapPatcher::apply_text_raster'), ('primitives', 'CecumTextRasterMapPrimitive')],
   GVG + '; files recorded byte by byte, texts held in fixed buffers'),
P('C28', 'Fixed hill climbing and drift detection answer with the pose they rated best',
   'The fixed hill climber rates the start pose and in every round the six neighbours of the best pose (1 cm in x and y, half a degree of turn, both ways), goes towards the most probable one, the first of equals, by the longest of 16, 8, 4 and 2 steps that beats the best pose, else by a single step if that does, and ends otherwise; it answers with the shift and the probability of the best pose and never with a less probable one than the start. The drift detector asks the wrapped matcher about the raw scan and repeats its answer unless at least two fifths of the filtered scan point in one direction; then it rates the scan without the points of that direction at the answered pose and along the direction from 25 cm behind to 25 cm ahead in 10 cm steps, adopts the pose that is strictly more probable than all before, and answers with its shift and the probability of the whole filtered scan there. Resetting it resets the wrapped matcher.',
   ['inputs'], 'all start poses; every place of the best neighbour and of the first improving step, ties, unknown probabilities, second rounds; all answers of the wrapped matcher, directions, counts and probabilities with scans up to five points', 'neither matcher is tested', ['src/core/scan_matchers/hcsm_fixed.h', 'src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h', 'src/core/scan_matchers/pose_enumerators.h'],
   [('climbing', 'HillClimbingSMFixed::process_scan, shift'), ('drift detection', 'ConnectTheDotsAmbiguousDriftDetector::process_scan, reset_state'), ('schedule', 'PolarCoordBruteForcePoseEnumerator')],
   GVG + '; estimator, histogram and wrapped matcher replaced by recording probes; the orders of probabilities are enumerated for the climber'),
P('C29', 'A generated scan sees the nearest pierced full cell along every beam',
   'The scan generator casts a beam of the set reach from the robot for every angle from minus to plus half the sector in the set steps, turned by the robot heading, a full circle without its doubled last beam. A beam gives a point at the middle of the stretch on which it pierces the nearest cell at least as full as the threshold, cells it only touches are passed over, and no point if there is none; the point keeps the beam angle relative to the robot, is occupied and counts fully. A scan has nothing of an earlier one.',
   ['inputs'], 'all robot poses off the cell borders, reaches, thresholds, fullness values and crossings with up to two cells on a beam, sectors up to five beams', 'the generator only feeds other tests', ['src/utils/data_generation/laser_scan_generator.h'],
   [('generation', 'LaserScanGenerator::laser_scan_2D'), ('parameters', 'LaserScannerParams, to_lsp')],
   GVG + '; the map replaced by one that lists the cells on a beam and the crossings'),
]
NA = []
