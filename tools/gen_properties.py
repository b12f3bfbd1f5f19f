"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=['crowddynamics/' + f for f in files],
                     mechanism=[dict(name=n, where='crowddynamics/' + w) for n, w in mech],
                     observe_at=observe)))


NT = ('Only the block list, a CSV round trip and simulation metadata are exercised by the tests that run here; '
      'the rest of the suite needs numba and is not run. ')

p('C01', 'Block-list neighbour lookup is complete and exact',
  'A mutable block list files every value under the grid cell of its key (floor of coordinate / cell size, also for negative '
  'coordinates) and an item lookup returns exactly the values of that cell in insertion order. A neighbour query with radius R '
  'returns exactly the values whose cell is at most R cells away in every coordinate, each as often as it was stored; in particular '
  'every value whose key lies within R cell sizes of the query point is found.',
  ['inputs', 'histories'], 'all keys, query points, positive cell sizes, radii and insertion histories',
  'tests insert a few random points and only check that a lookup is non-empty; cell boundaries and negative coordinates are measure-zero for them.',
  ['core/block_list.py'], [('MutableBlockList', 'core/block_list.py')], ['MutableBlockList.__getitem__', 'MutableBlockList.nearest'])

p('C02', 'Placing agents never creates overlaps',
  'Adding groups of agents never leaves two placed agents overlapping each other, nor a placed agent overlapping one of the given '
  'obstacles, provided the block-list cell size is at least the largest agent diameter. The agent array holds exactly the placed agents, '
  'in placement order and with the attributes and positions they were accepted with (for three-circle agents the shoulders sit at the accepted position); '
  'adding a group of another agent type is refused with an error.',
  ['inputs', 'histories'], 'all sequences of candidate positions, radii, orientations, obstacles and groups',
  NT + 'Overlap depends on the sequence of accepted and rejected candidates, which random sampling reaches rarely.',
  ['simulation/agents.py', 'core/block_list.py', 'core/distance.py'],
  [('Agents.add_non_overlapping_group', 'simulation/agents.py'), ('overlapping_*', 'simulation/agents.py')],
  ['Agents.array after add_non_overlapping_group'])

p('C03', 'Skin distance between agents is the exact minimum over body circles',
  'The skin distance of two circles is centre distance minus the radius sum, with the unit normal pointing from the second to the first '
  '(zero if the centres coincide). For two three-circle bodies the distance is the minimum over all nine pairs of circles, the normal belongs to a '
  'minimising pair, and the two lever arms lead from each torso centre to the contact point on that body\'s own minimising circle.',
  ['inputs'], 'all positions and radii, including coincident centres and ties',
  NT + 'Tests cannot cover the nine minimising pairs and degenerate positions.',
  ['core/distance.py', 'core/vector2D.py'],
  [('distance_circles', 'core/distance.py'), ('distance_three_circles', 'core/distance.py')],
  ['return values of the distance functions'])

p('C04', 'Distance from an agent to a wall segment is the true distance',
  'The skin distance between a circle and a wall segment is the Euclidean distance from the centre to the nearest point of the segment minus '
  'the radius, and the normal is the unit vector from that nearest point to the centre. For a three-circle body the distance is the minimum over '
  'its three circles, with the normal and the lever arm (torso centre to contact point) of a minimising circle.',
  ['inputs'], 'all segments of positive length, centres off the segment\'s line or beyond its ends, and radii',
  NT + 'The three regions (two end caps and the strip) and their borders need exact case analysis.',
  ['core/distance.py'], [('distance_circle_line', 'core/distance.py'), ('distance_three_circle_line', 'core/distance.py')],
  ['return values of the distance functions'])

p('C05', 'Line-of-sight obstruction agrees with segment intersection',
  'Two non-parallel segments are reported as intersecting exactly when they share a point, end points included, regardless of the order of the segments '
  'or of their end points; parallel or degenerate segments without a common point never intersect. A line of sight is blocked '
  'exactly when it intersects at least one of the obstacles, whatever their number and order.',
  ['inputs'], 'all pairs of segments and obstacle lists', NT + 'Touching and near-parallel configurations are measure-zero for random tests.',
  ['core/geom2D.py', 'core/sensory_region.py'], [('line_intersect', 'core/geom2D.py'), ('is_obstacle_between_points', 'core/sensory_region.py')],
  ['line_intersect', 'is_obstacle_between_points'])

p('C06', 'Polygon area is the exact shoelace area',
  'The area of a polygon given by its vertices equals the absolute shoelace (signed-area) value for any number of vertices, is non-negative, and is zero for '
  'fewer than three vertices. It does not change under translation, reversal or cyclic shift of the vertices.',
  ['inputs'], 'all vertex lists', NT + 'An algebraic identity in every coordinate and in the number of vertices.',
  ['core/geom2D.py'], [('polygon_area', 'core/geom2D.py')], ['polygon_area'])

p('C07', 'The integration timestep is bounded and translation obeys the motion law',
  'The timestep used by the integrators always lies within the given minimum and maximum, is the maximum when nobody moves, and otherwise is '
  '1.1 * dt_max * (largest target speed) / (largest current speed) clamped to that interval. One Euler step moves every agent by v*dt + a*dt^2/2 and changes '
  'its velocity by a*dt; one velocity-Verlet step changes the velocity by the mean of previous and current acceleration times dt, then '
  'moves by (new v)*dt + a*dt^2/2, and remembers the current force as the previous one. No attribute of an agent besides its motion state is changed.',
  ['inputs', 'histories'], 'all agent states, forces, masses and timestep bounds, and any number of steps',
  NT + 'Cancellation across agents, fields and steps is not visible in samples without an oracle.',
  ['core/integrator.py'], [('adaptive_timestep', 'core/integrator.py'), ('translational_euler / translational_verlet', 'core/integrator.py')],
  ['agents array after a step', 'returned timestep'])
P[-1]['statement'] = (
  'The timestep is the maximum when nobody moves and otherwise 1.1 * dt_max * (largest target speed) / (largest current speed), clamped to [dt_min, dt_max]. '
  'One Euler step moves each agent by v*dt + a*dt^2/2 and changes its velocity by a*dt; one velocity-Verlet step first changes the velocity by the mean of the '
  'previous and current acceleration times dt, then moves by (new v)*dt + a*dt^2/2 and remembers the current force as previous. '
  'Every agent is advanced with the same timestep and nothing but its motion state changes.')

p('C08', 'Rotation obeys the motion law, orientation stays in [-pi, pi], shoulders follow',
  'For three-circle agents every integration step (Euler, Verlet start, Verlet) also advances angular velocity and orientation by the same law as translation, '
  'with torque and rotational inertia in place of force and mass. The orientation is wrapped to [-pi, pi], congruent to the unwrapped angle, and afterwards the shoulders sit at '
  'the torso centre plus/minus the shoulder distance along the tangent (sin(phi), -cos(phi)), left shoulder on the minus side.',
  ['inputs', 'histories'], 'all rotational states, torques and timesteps',
  NT + 'The wrap-around boundary and the three-circle branch of each integrator are not reached.',
  ['core/integrator.py', 'simulation/agents.py', 'core/vector2D.py'],
  [('rotational_euler / rotational_verlet', 'core/integrator.py'), ('shoulders', 'simulation/agents.py')],
  ['agents array after a step'])

p('C09', 'Adjusting force and torque drive agents to their targets',
  'The adjusting force is mass / relaxation time * (target speed * target direction - velocity), so it vanishes exactly at the target velocity. The adjusting torque is '
  'inertia / relaxation time * (wrapped(target orientation - orientation)/pi * target angular speed - angular velocity), i.e. it turns along the shorter arc. Applying them to a '
  'crowd adds each agent\'s own term to its accumulated force or torque and changes nothing else.',
  ['inputs'], 'all agent states and parameters', NT,
  ['core/motion/adjusting.py', 'core/steering/orientation.py'], [('force_adjust', 'core/motion/adjusting.py'), ('torque_adjust', 'core/motion/adjusting.py')],
  ['agents array force and torque'])

p('C10', 'Angle wrapping and 2D vector operations satisfy their algebra',
  'Angle wrapping returns, for every finite angle, a congruent angle (modulo 2*pi) in [-pi, pi], keeping odd positive multiples at pi and odd negative ones at -pi. '
  'Rotations by 90 and 270 degrees, dot, cross, length, angle, unit vector and weighted average equal their textbook definitions for single vectors and for arrays of vectors. '
  'Normalising gives a unit vector of the same direction (zero vectors unchanged), and truncating shortens a vector to the limit only if it is longer.',
  ['inputs'], 'all finite angles and vectors, including zero vectors',
  'The vector tests in the repository are not run here and sample Hypothesis floats only; wrap boundaries need exact treatment.',
  ['core/vector2D.py'], [('wrap_to_pi', 'core/vector2D.py'), ('normalize, truncate, rotate90, rotate270, ...', 'core/vector2D.py')], ['return values'])

p('C11', 'Circular social force follows the anticipatory power law',
  'The time to collision is the first positive root of |x + t v| = r_i + r_j; when there is no collision course, no relative motion, a grazing contact, an existing overlap or a collision more than 30 s '
  'ahead, the social force is zero. Otherwise the force on each agent is -k m (1/tau^2)(2/tau + 1/tau_0) exp(-tau/tau_0) times the gradient of tau, with its own parameters, shortened to at most 2000 N, '
  'and opposite in direction for the two agents. For identical parameters the two forces cancel exactly.',
  ['inputs'], 'all relative positions, velocities, radii and parameters', NT + 'Root selection and the no-collision cases partition the input space in ways sampling misses.',
  ['core/motion/power_law.py'], [('force_social_circular', 'core/motion/power_law.py'), ('time_to_collision_circle_circle', 'core/motion/power_law.py'), ('truncate', 'core/vector2D.py')],
  ['force_social_circular', 'time_to_collision_circle_circle', 'potential', 'magnitude'])

p('C12', 'Three-circle social force uses the earliest body contact',
  'The social force between three-circle agents is driven by the smallest positive time to collision over all nine pairs of body circles; if no pair is going to collide or there is '
  'no relative motion it is zero. Otherwise it is -k m (1/tau^2)(2/tau + 1/tau_0) exp(-tau/tau_0) times the gradient of that pair\'s tau with respect to the relative position, '
  'at most 2000 N, opposite in direction for the two agents.',
  ['inputs'], 'all positions, orientations, velocities and radii', NT + 'Which of nine pairs collides first, and pairs already behind, require case exploration.',
  ['core/motion/power_law.py'], [('force_social_three_circle', 'core/motion/power_law.py'), ('gradient_three_circle', 'core/motion/power_law.py')],
  ['force_social_three_circle'])

p('C13', 'Contact force law: elastic push, sliding friction, damping',
  'The contact force equals -h (mu n - kappa (v.t) t) + damping (v.n) n. Its normal component is -h mu + damping (v.n) and its tangential component h kappa (v.t) for orthonormal n and t, '
  'so for an overlap at rest it pushes along the normal.',
  ['inputs'], 'all h, n, t, v and coefficients', NT, ['core/motion/contact.py'], [('force_contact', 'core/motion/contact.py')], ['force_contact'])

p('C14', 'Pair interactions act only in range and only on the pair',
  'An agent-agent interaction adds the social force of the pair only when the skin distance is below 3 m, adds a contact force only when the bodies overlap (with relative velocity, the tangent being the '
  'normal turned clockwise, and each agent\'s own coefficients, opposite sign for the second agent), and for three-circle agents adds the torque lever arm x force of each. '
  'An agent-obstacle interaction adds a contact force (and torque) only when the agent overlaps the wall. No other agent and no other attribute changes, and existing forces are accumulated, not replaced.',
  ['inputs'], 'all pairs of agent states and obstacles', NT + 'Sign and range errors need states at overlap and at the sight border.',
  ['core/interactions.py', 'core/motion/contact.py'], [('interaction_agent_agent_*', 'core/interactions.py'), ('interaction_agent_*_obstacle', 'core/interactions.py')],
  ['agents array force and torque'])

p('C15', 'Every interacting pair is handled exactly once',
  'The crowd-level agent-agent interaction applies the pair interaction exactly once to every unordered pair of agents closer than the cell size and to no agent with itself, using the interaction of the array\'s '
  'own agent type. The agent-obstacle interaction covers every combination of agent and obstacle exactly once. An array of another type is refused with an invalid-type error.',
  ['inputs', 'configurations'], 'all crowds up to the bound and all placements over grid cells', NT + 'Tests never compare the block-list result with all pairs.',
  ['core/interactions.py', 'simulation/logic.py'], [('agent_agent_block_list', 'core/interactions.py'), ('agent_obstacle', 'core/interactions.py')],
  ['agents array force and torque'])

p('C16', 'Exit capacity and exit ranks are counted correctly',
  'Exit capacity is zero when the door is narrower than an agent, otherwise coefficient * floor(door / agent) or, with a layer width, coefficient * floor((door - (agent - layer)) / layer); '
  'both agree when the layer equals the agent width and capacity never decreases with door width. The number of agents closer to an exit is a permutation of 0..n-1 that orders the agents by distance.',
  ['inputs'], 'all widths, coefficients and position sets', NT + 'Step boundaries of the floor are measure-zero.',
  ['core/evacuation.py'], [('narrow_exit_capacity', 'core/evacuation.py'), ('agent_closer_to_exit', 'core/evacuation.py')], ['return values'])

p('C17', 'Exit detection picks the nearest visible exit in range',
  'An agent detects an exit exactly when some exit is strictly within the detection range with an unobstructed line of sight, and the detected exit is the nearest such exit; otherwise it is marked as not '
  'detected (-1). In a simulation, detection gives a follower the detected exit as target and ends its following; other agents are untouched.',
  ['inputs'], 'all agents, exits, obstacles and ranges', NT, ['core/evacuation.py', 'simulation/logic.py'],
  [('exit_detection', 'core/evacuation.py'), ('ExitDetection.update', 'simulation/logic.py')], ['exit_detection', 'agents target / is_follower'])

p('C18', 'Followers follow the nearest visible leader that heads away',
  'A follower considers leaders within sight from nearest to farthest: it follows the first visible one it is behind (remembering it, clearing its own target and heading along the weighted average of the direction to the leader '
  'and the leader\'s velocity), and adopts the target of its remembered leader when that leader is met behind an obstacle or when no leader is usable. '
  'A follower with neither falls back to its familiar exit; agents that are not followers are never changed.',
  ['inputs', 'histories'], 'all positions, velocities, leader/follower flags and memories', NT,
  ['core/steering/collective_motion.py', 'simulation/logic.py'],
  [('leader_follower_interaction_brute', 'core/steering/collective_motion.py'), ('leader_follower_interaction', 'core/steering/collective_motion.py')],
  ['target, index_leader, target_direction of agents'])

p('C19', 'Herding uses the nearest visible neighbours and their heading',
  'The neighbour table holds, for every agent, the k nearest agents that are within sight and visible (all of them if fewer, the rest marked missing), whatever the order in which pairs are visited. '
  'An agent heads away from another exactly as the leader-follower relationship of the pair says (both angles compared with the limit angle; an agent at rest has no relationship), and a herding agent\'s new direction is the normalised weighted average of the directions '
  'to the mean position and of the mean velocity of the neighbours that head away from it.',
  ['inputs', 'schedules'], 'all crowds, obstacles and pair orders', NT, ['core/steering/collective_motion.py'],
  [('find_nearest_neighbors', 'core/steering/collective_motion.py'), ('herding_relationship', 'core/steering/collective_motion.py'), ('herding_interaction', 'core/steering/collective_motion.py')],
  ['neighbour table', 'new directions'])

p('C20', 'Grid lookup of target directions is in bounds and cell exact',
  'Positions are mapped to the mesh cell containing them, and the mesh covers the bounds with inclusive end points and the given step. A direction lookup returns the map value of the cell for indices inside the map and the agent\'s own default '
  'direction otherwise, including negative indices, without modifying the defaults.',
  ['inputs'], 'all positions, bounds, steps and map sizes up to the bound', NT + 'Out-of-map and border cells are rare.',
  ['core/steering/quickest_path.py', 'core/steering/navigation.py'],
  [('meshgrid', 'core/steering/quickest_path.py'), ('getdefault, is_inside', 'core/steering/navigation.py')], ['meshgrid', 'getdefault'])

p('C21', 'Direction maps are unit vectors that blend away from obstacles',
  'A direction map is the normalised gradient of its distance map in (x, y) order, undefined only where the gradient vanishes. Obstacle handling returns, closer than the radius to an obstacle, '
  'the normalised average of the direction away from the obstacle and the target direction with weight strength^(distance/radius), and the normalised target direction everywhere else; the continuous variant does the same per agent and leaves agents outside the map unchanged.',
  ['inputs'], 'all distance and direction maps up to the bound', NT, ['core/steering/obstacle_handling.py', 'core/steering/quickest_path.py'],
  [('obstacle_handling', 'core/steering/obstacle_handling.py'), ('direction_map', 'core/steering/quickest_path.py')], ['returned direction maps'])

p('C22', 'Random samples stay inside their shape and choose parts by size',
  'A triangle sample is a convex combination of the corners, a line sample lies on the segment, a polygon sample lies inside the polygon\'s triangulation and a linestring sample on the linestring, for every random draw. '
  'A part (triangle or segment) is chosen exactly for draws in an interval whose length is the part\'s share of the total area or length.',
  ['inputs'], 'all shapes and all random draws', NT + 'Proportional choice is a statement about every draw.',
  ['core/sampling.py'], [('random_sample_triangle', 'core/sampling.py'), ('triangle_area_cumsum, linestring_length_cumsum', 'core/sampling.py'), ('polygon_sample, linestring_sample', 'core/sampling.py')], ['yielded samples'])

p('C23', 'Poisson clocks yield ordered times inside the window',
  'The Poisson clock yields exactly the partial sums of the drawn inter-arrival times that are below the window length, in order, drawing with the requested mean interval. Timings for several players yield each player once per own clock '
  'tick, sorted by time over all players.',
  ['inputs', 'schedules'], 'all draw sequences and windows up to the bound', NT, ['core/rand.py'], [('poisson_clock', 'core/rand.py'), ('poisson_timings', 'core/rand.py')], ['yielded values'])

p('C24', 'Fluctuations are bounded and scale per agent',
  'The fluctuation force on each agent is its mass times a truncated-normal magnitude of its own scale along one uniformly drawn direction, with magnitude in [0, 3] scales; the fluctuation torque is its inertia times a magnitude in [-3, 3] scales. '
  'Truncated normal sampling passes limits, mean and scale through, with an absolute scale divided by the larger limit so that samples stay within the absolute scale of the mean; random vectors have the given magnitude and a direction in the given range.',
  ['inputs'], 'all masses, scales and draws', NT, ['core/motion/fluctuation.py', 'core/rand.py'], [('force_fluctuation, torque_fluctuation', 'core/motion/fluctuation.py'), ('truncnorm', 'core/rand.py')], ['returned arrays'])

p('C25', 'Body attributes are derived consistently in any order',
  'Torso radius, shoulder radius and shoulder distance always equal the given ratio times the radius, whichever order radius and ratios are set in. Rotational inertia is 4*pi*(mass/80)*(radius/0.27)^2 once mass and radius are known, '
  'and radius, mass and speed drawn from a body type lie within mean +- scale; explicitly given values are kept. A body type can be set only once.',
  ['inputs', 'histories'], 'all values and assignment orders', NT + 'Orders of assignments are never varied.', ['simulation/agents.py'], [('BodyType observers', 'simulation/agents.py')], ['agent attributes'])

p('C26', 'Agent objects and agent records round trip',
  'Converting an agent to a record and loading it into another agent of the same type reproduces every attribute, whatever the values, and the record layout has one field per attribute with the attribute\'s type. '
  'Loading from an array that does not hold exactly one record is refused.',
  ['inputs'], 'all attribute values of each agent type', NT, ['simulation/agents.py', 'traits.py'], [('AgentType.__array__/from_array/dtype', 'simulation/agents.py'), ('class_to_struct_dtype', 'traits.py')], ['agent attributes', 'record dtype'])

p('C27', 'An agent group has exactly the requested members',
  'A group with an agent type, a size and attributes holds exactly that many agents built from the attributes in order: one per element of a collection, per item of a generator or per call of a function, whatever order the three are assigned in. '
  'Each call or item is used for exactly one member.',
  ['inputs', 'histories'], 'all sizes up to the bound, attribute kinds and assignment orders', NT, ['simulation/agents.py'], [('AgentGroup._observe_members', 'simulation/agents.py')], ['AgentGroup.members'])

p('C28', 'Editing the logic tree keeps every node exactly once in the right order',
  'Adding children, injecting before and injecting after a node keep the logic a tree that contains every node exactly once: inject-before puts the new node between a node and its parent, inject-after between a node and its children. '
  'A simulation update evaluates every node exactly once with children before parents and siblings in the order added, and lookup by name returns the node of that name or fails with a key error.',
  ['programs', 'histories'], 'all trees up to the bound and all edit sequences on them', 'tests build no tree with more than a handful of nodes and never edit in the middle.',
  ['simulation/base.py', 'simulation/multiagent.py'], [('LogicNodeBase', 'simulation/base.py'), ('MultiAgentSimulation.update', 'simulation/multiagent.py')], ['tree structure', 'evaluation order'])

p('C29', 'Simulations stop exactly at their exit condition and always report the end',
  'Running a simulation checks the exit condition before every update and performs exactly as many updates as the condition stays false; every update increases the iteration counter by one after the logic has run. '
  'A simulation process started on a simulation puts the end marker on its queue exactly once and last, whether it is stopped or ends with a simulation error.',
  ['histories', 'schedules', 'fault_sequences'], 'all exit-condition histories, stop times and failing updates up to the bound', NT + 'Stop times and failures are never injected.',
  ['simulation/base.py', 'simulation/multiagent.py'], [('SimulationBase.run', 'simulation/base.py'), ('MultiAgentProcess.run', 'simulation/multiagent.py')], ['number of updates', 'queue contents'])

p('C30', 'Saved agent data loads back complete and in order',
  'Whatever the sequence of buffering and dumping, loading a basename yields exactly the dumped arrays, in dump order (also beyond ten files), each file holding the rows buffered since the previous dump. '
  'Files of other basenames in the directory, even ones sharing a prefix, are never mixed in.',
  ['inputs', 'histories'], 'all dump schedules, basenames and directory contents up to the bound', 'no test covers the array storage at all.',
  ['io.py'], [('save_npy', 'io.py'), ('find_npy_files, load_npy', 'io.py')], ['load_npy', 'load_npy_concatenated'])

p('C31', 'CSV storage writes one header and every buffered row once',
  'For every sequence of rows and dump decisions, the CSV file holds one header with the keys and then exactly the rows sent up to the last dump, in order and each once; rows after the last dump are not in the file. Appending dumps never repeats or drops rows.',
  ['histories'], 'all dump schedules up to the bound', 'the one CSV test uses a single schedule.', ['io.py'], [('save_csv', 'io.py')], ['CSV file content'])

p('C32', 'Geometry JSON round trips',
  'Saving a dictionary of geometries (single geometries, lists, name mappings or missing values) and loading it returns equal geometries under the same names and in the same order. '
  'Saving again to the same file replaces the content, so that it still loads.',
  ['inputs', 'histories'], 'all dictionaries up to the bound and repeated saves', 'no test covers it (Shapely is not installed in the test environment).', ['io.py'],
  [('geometry_mapping, geometry_shape', 'io.py'), ('save_geometry_json, load_geometry_json', 'io.py')], ['load_geometry_json'])

p('C33', 'Geometries convert to all of their boundary segments and coordinates',
  'Converting a geometry to line segments yields every boundary segment exactly once in order: consecutive points of lines, shells and holes of polygons, the parts of collections, nothing for points; obstacles arrays hold the same segments. '
  'Converting to a coordinate array lists every ring or line once, each headed by a (nan, type) marker, including all parts of collections.',
  ['inputs'], 'all geometries up to the bound', NT, ['core/geometry.py'], [('geom_to_linesegment', 'core/geometry.py'), ('geom_to_array', 'core/geometry.py'), ('draw_geom', 'core/geometry.py')],
  ['geom_to_linesegment', 'geom_to_linear_obstacles', 'geom_to_array'])

p('C34', 'Domain and target bookkeeping counts each agent right',
  'Agents are active exactly while inside the domain, and the number of inactive agents recorded equals the number of agents outside the domain after every update. For each polygon target the recorded count equals the number of distinct agents that have been inside '
  'the target at some update so far.',
  ['histories'], 'all movement histories up to the bound', NT + 'Re-entering agents never occur in tests.', ['simulation/logic.py'], [('InsideDomain', 'simulation/logic.py'), ('TargetReached', 'simulation/logic.py')], ['simulation data', 'agents active flag'])

p('C35', 'One iteration accumulates exactly the sum of all forces',
  'Reset clears the accumulated force (and torque) of all agents and nothing else; afterwards fluctuation, adjusting, agent-agent and agent-obstacle nodes each add exactly their own term, in any order. '
  'The integrator advances the recorded total time by the timestep it used and records that timestep; nodes work for circular and three-circle agents, and without obstacles.',
  ['inputs', 'histories', 'configurations'], 'all agent states, node orders and agent types within the bound', NT, ['simulation/logic.py'], [('Reset, Fluctuation, Adjusting, Integrator, AgentObstacleInteractions, Orientation', 'simulation/logic.py')], ['agents array', 'simulation data'])

p('C36', 'Navigation steers exactly the agents that have that target',
  'The navigation node gives every agent with target k the direction stored for its position in the map to target k and leaves agents without a target, or outside the map, with their previous direction. Orientation points three-circle agents along their target direction.',
  ['inputs'], 'all targets, positions and direction maps within the bound', NT, ['simulation/logic.py', 'core/steering/navigation.py', 'core/steering/orientation.py'], [('Navigation.update', 'simulation/logic.py'), ('orient_towards_target_direction', 'core/steering/orientation.py')], ['agents target_direction / target_orientation'])

p('C37', 'Density measures count every point once in its own cell',
  'The classical density equals the number of points per cell divided by the cell area, with one entry for every cell of the points\' bounding grid, also for negative coordinates. The second Voronoi density of a cell is the number of its points divided by the sum of the areas of exactly those points\' Voronoi regions. The bounding box has the true minimum and maximum per dimension.',
  ['inputs'], 'all point sets within the bound and positive cell sizes', NT, ['core/quantities.py'], [('density_classical', 'core/quantities.py'), ('_core_2', 'core/quantities.py'), ('bounding_box', 'core/quantities.py')], ['returned density grids'])

p('C38', 'Traits map to record fields, options and validators faithfully',
  'Every supported trait maps to the record type of its kind (integer, float, complex, boolean, array with shape) and to a command-line option with its name, default and type, and unsupported ones are refused. Class traits are listed once per owning class in definition order, honouring exclusions. '
  'Shape and length validators accept exactly arrays of the given shape or of one of the given lengths.',
  ['inputs', 'configurations'], 'all trait kinds, shapes and lengths within the bound', NT, ['traits.py'], [('trait_to_dtype, trait_to_option', 'traits.py'), ('shape_validator, length_validator', 'traits.py'), ('class_traits', 'traits.py')], ['return values and raised errors'])

p('C39', 'Invalid configuration files are rejected',
  'A configuration is accepted exactly when every value satisfies its specification; a single value out of range, missing or of a wrong type raises a validation error. Accepted values come back converted to their type, and every shipped body type satisfies the shipped specification. Exactly the existing functions that a simulation configuration names are imported, in order, relative to the configuration and without moving the caller to another directory.',
  ['configurations'], 'all value assignments within the bound', NT, ['config.py', 'conf/body_types.cfg', 'conf/body_types_spec.cfg'], [('load_config', 'config.py')], ['load_config'])

p('C40', 'Helpers restore state and keep wrapped behaviour',
  'The working directory is restored after the scope, also when the body raises or directories are nested. A function marked deprecated still behaves as before (arguments, result, exceptions) and emits a deprecation warning. Signature parsing yields every parameter except self, in order, with its default and annotation, and refuses parameters without default.',
  ['inputs', 'fault_sequences'], 'all bodies (failing or not), nestings and signatures within the bound', NT, ['utils.py', 'exceptions.py'], [('remember_cwd', 'utils.py'), ('parse_signature', 'utils.py'), ('deprecated', 'exceptions.py')], ['observable behaviour of the helpers'])

p('C41', 'Each command line command runs its own simulation with its options',
  'For every set of simulations in the working directory, the command named after a simulation runs that simulation (and no other), built with the option values given on the command line and trait defaults otherwise. Every own trait of the simulation has an option.',
  ['configurations'], 'all sets of simulations and option values within the bound', 'the CLI tests only ask for --help and list.', ['cli.py', 'traits.py'], [('simulation_commands', 'cli.py'), ('import_simulations', 'cli.py')], ['simulations constructed and run'])

p('C42', 'A field answers navigation queries from its own current geometry',
  'Navigation to a target combines the map of exactly that target (or of the union of all for "closest") with the obstacle map, with the requested step, radius and strength; repeated queries give the same answer. Invalid indices, a missing domain and missing targets are refused, and empty or invalid domain and obstacle geometries are rejected. The convex hull of a field is '
        'that of all its obstacles, targets and spawns.',
  ['inputs', 'histories'], 'all query sequences within the bound', NT, ['simulation/field.py', 'core/steering/obstacle_handling.py'], [('Field.navigation_to_target, shortest_path_target', 'simulation/field.py')], ['returned maps'])

p('C43', 'Saving simulation data records every iteration once',
  'The saving node buffers the agents and the data of every update exactly once, as they were at that update, and writes them whenever its condition is true; after the last true condition the files hold every update up to it, in order. Metadata and geometry are written once at creation.',
  ['histories'], 'all save schedules and state histories within the bound', NT, ['simulation/logic.py', 'io.py'], [('SaveSimulationData', 'simulation/logic.py')], ['saved files'])

p('C44', 'Example scenes are laid out as their parameters say',
  'Every example field built with any given or default parameters has exactly the obstacles, targets, spawns and domain its parameters describe, as sets of points: rooms, halls and walls of the given width and '
  'height, exits of the given width in their place and not closed by a wall, spawns and obstacles at the given ratios, the pillar of the given radius in the middle of its domain. Changing width, height or ratio of an '
  'outdoor or hallway field afterwards gives the scene of the new values.',
  ['inputs', 'configurations'], 'all sizes, ratios, exit widths and points of the plane within the bound', NT + 'Nothing looks at the geometry of the example scenes.',
  ['examples/fields.py'], [('OutdoorField ... FourExitsField', 'examples/fields.py')], ['domain, obstacles, targets, spawns of the field'])

p('C45', 'Example simulations start with the agents they declare',
  'Every example simulation starts with exactly the declared number of agents of each group, of the declared agent and body type: leaders and followers with their roles, targets, familiar exits and resting or walking '
  'states (velocity, orientation and target direction agree), each in the spawn area of its group (or at the declared place) and none overlapping a wall, for every outcome of the random draws. One update runs every part of the '
  'simulation once: targets and directions before the adjusting force, all forces before the integration, the reset of the forces last.',
  ['inputs', 'configurations'], 'all random draws, sizes and parameters within the bound', NT + 'No test builds the agents of an example simulation.',
  ['examples/simulations.py', 'examples/collective_motion.py', 'examples/validation.py'],
  [('_default_agents, attributes, _default_logic', 'examples/simulations.py'), ('_default_agents, attributes, _default_logic', 'examples/collective_motion.py'),
   ('_observe_agents, attributes, _default_logic', 'examples/validation.py')], ['agents.array', 'order of node updates'])

p('C46', 'Documentation tables list every trait with its own metadata',
  'The documentation table of a class has one header and then one row per trait of the class and its bases, in order: its own name, symbol, default value and help text, whatever characters they contain, with empty cells for what is missing. '
  'A class docstring is filled in with the given texts or with the result of the given functions of the class, leaving everything else of the class as it was; missing values are refused.',
  ['inputs', 'configurations'], 'all trait kinds, defaults, texts, hierarchies and docstrings within the bound', NT, ['traits.py', 'utils.py'],
  [('table_of_traits', 'traits.py'), ('interpolate_docstring', 'utils.py')], ['generated text'])

p('C47', 'Plots show each part of a field where it is',
  'Every geometry is drawn exactly once at its own coordinates and in the style asked for, including all parts of nested collections; a field shows its domain, all spawns, all targets and its obstacles if it has some. '
  'The distance image lies exactly over the bounds of its grid, and the arrows start at every n-th grid node and point along the direction there. '
  'The plot ranges contain all of the data with the margin asked for, are centred on it, have the aspect ratio asked for and are no wider than needed; output goes to the named html file, and trees are rendered from their root.',
  ['inputs', 'configurations'], 'all geometries, maps, data and options within the bound', 'plotting has no tests (Bokeh is not installed).', ['visualizations.py'],
  [('set_aspect, add_geom, add_field, add_distance_map, add_direction_map, plot_field', 'visualizations.py')], ['glyphs and ranges of the figure'])

p('C48', 'Strategies for test data produce exactly what they promise',
  'Strategies for test data produce only finite numbers in the requested range and shape, without zeros (or numbers near zero) if asked and without throwing away anything else; vectors of unit length with an angle in the range; points, '
  'open or closed lines and polygons with the requested number of vertices, every coordinate drawn on its own; holes inside their shell. Arrays of agents have the drawn size and, for each agent, the drawn attributes and default values otherwise.',
  ['inputs'], 'all drawn values within the bound', 'the tests only draw examples and look at a shape or a length.', ['testing.py'],
  [('reals, unit_vectors, points, linestrings, polygons, agents', 'testing.py')], ['drawn examples'])

p('C49', 'Sampled spawn places lie in the spawn, clear of the obstacles',
  'Every place sampled for a spawn lies in exactly that spawn area, also when the area is not convex, and at least the given radius (0.3 if none is given) from every obstacle the field has '
  'when the sampler is made; no sampled candidate that fulfils both is dropped. A spawn index past the last is refused.',
  ['inputs'], 'all random draws, obstacle positions and radii within the bound',
  NT + 'Whether a sample falls into a notch or a grown obstacle depends on the draws.',
  ['simulation/field.py', 'core/sampling.py'], [('Field.sample_spawn', 'simulation/field.py'), ('polygon_sample', 'core/sampling.py')], ['samples of Field.sample_spawn'])


p('C50', 'Geometries mark exactly the cells of a grid that they cover',
  'Drawing a geometry on a grid gives the value to exactly the cells that it covers: cells of the interior and of every outline (also of the outlines of holes, and of walls thinner than a cell), for every part '
  'of a collection and whatever the order of the parts. All other cells, also those inside of a hole, keep their value; points mark nothing. A sloping line marks both end cells and one cell per column or row '
  '(whichever are more) in between, within half a cell of the line between the end cells. Objects that are no geometry are refused.',
  ['inputs'], 'all corner positions, sizes and places of the grid within the bound',
  NT + 'No test draws a hole or more than one part.',
  ['core/geometry.py', 'core/steering/quickest_path.py'], [('draw_geom', 'core/geometry.py'), ('meshgrid', 'core/steering/quickest_path.py')], ['values of the grid after draw_geom'])


# Statements made precise while the checks were built (what the code is held to, in the words of a user).
REFINED = {
 'C02': 'Adding groups of agents never leaves two placed agents overlapping each other, nor a placed agent overlapping one of the given obstacles, '
        'provided the block-list cell size is at least the largest agent diameter; a candidate position that overlaps nothing is taken. '
        'The agent array holds exactly the placed agents of all groups, also when a group does not fit, in placement order and with the attributes and positions they were accepted with '
        '(for three-circle agents the shoulders sit at the accepted position). Adding a group of another agent type is refused with an error.',
 'C03': 'The skin distance of two circles is centre distance minus the radius sum, with the unit normal pointing from the second to the first (zero if the centres coincide). '
        'For two three-circle bodies the distance is the minimum over all nine pairs of circles and the normal belongs to a minimising pair. The lever arm of the first body is its own '
        'circle of that pair plus radius times normal minus its torso centre, that of the second its own circle minus radius times normal minus its torso centre.',
 'C05': 'Two non-parallel segments are reported as intersecting exactly when they share a point, end points included, regardless of the order of the segments or of their end points; '
        'parallel or degenerate segments without a common point never intersect (overlapping collinear segments are left open). A line of sight is blocked exactly when it intersects at least one of the '
        'obstacles, whatever their number and order.',
 'C11': 'The time to collision is the first positive root of |x + t v| = r_i + r_j; when there is no collision course, no relative motion, a grazing contact, an existing overlap or a '
        'collision more than 30 s ahead, the social force is zero. Otherwise the force on each agent is k m (1/tau^2)(2/tau + 1/tau_0) exp(-tau/tau_0) times the gradient of tau with respect to its own '
        'relative position as the model computes it (minus the gradient of its interaction energy), with its own parameters, shortened to at most 2000 N, and opposite in direction for the two agents. '
        'For identical parameters the two forces cancel exactly.',
 'C12': 'The social force between three-circle agents is driven by the smallest positive time to collision over all nine pairs of body circles (ties between pairs left open); if no pair is going to '
        'collide or there is no relative motion it is zero. Otherwise it follows the same power law as for circular agents with the contact of that pair, i.e. its coefficients and the offset of its circles '
        'from the torsos, with each agent\'s own parameters, at most 2000 N, opposite in direction for the two agents.',
 'C18': 'A follower considers leaders within sight (distance at most the sight) from nearest to farthest: it follows the first visible one that is not heading towards it within the limit angle (both must be moving), '
        'remembering it, clearing its own target and heading along the normalised weighted average of the direction to the leader and the leader\'s velocity. It adopts the target of its remembered leader when '
        'that leader is met behind an obstacle or when no leader is usable, and a follower with neither falls back to its familiar exit. Agents that are not followers are never changed.',
 'C21': 'A direction map is the normalised gradient of its distance map in (x, y) order, undefined only where the gradient vanishes. Obstacle handling returns, strictly between an obstacle and the radius, the '
        'normalised average of the direction away from the obstacle and the target direction with weight strength^(distance/radius), and the normalised target direction from the radius on; the continuous '
        'variant does the same per agent and leaves agents outside the map unchanged.',
 'C25': 'Torso radius, shoulder radius and shoulder distance always equal the given ratio times the radius, whichever order radius and ratios are set in. Rotational inertia is '
        '4*pi*(mass/80)*(radius/0.27)^2 with the mass and radius that were known first, and radius, mass and speed drawn from a body type lie within mean +- scale; a radius, mass, speed or inertia that was '
        'given before is kept. A body type can be set only once.',
 'C27': 'A group with an agent type, a size and attributes holds exactly that many agents built from the attributes in order: one per element of a collection (whose length is the default size), per item of '
        'a generator or per call of a function, whatever order the three are assigned in. Each call or item is used for exactly one member.',
 'C30': 'Whatever the sequence of buffering and dumping, loading a basename yields exactly the dumped arrays, in dump order (also beyond ten files), each file holding the rows buffered since the previous '
        'dump as they were when they were buffered; the concatenation command writes all of them into one file. Files of other basenames in the directory, even ones sharing a prefix, are never mixed in.',
 'C34': 'Agents are active exactly while inside the domain, and the number of inactive agents recorded equals the number of agents outside the domain after every update. For each polygon target the recorded '
        'count equals the number of distinct agents that have been inside the target at some update so far (positions exactly on a boundary are left open).',
 'C37': 'The classical density equals the number of points per cell divided by the cell area, with one entry for every cell of the points\' bounding grid, also for negative coordinates. The first Voronoi '
        'density of a cell is the sum over the points of the share of the point\'s region (clipped to the bounding box of the points) that lies inside the cell, divided by the cell area; the second is the number '
        'of points of the cell divided by the sum of the areas of exactly those points\' Voronoi regions. The bounding box has the true minimum and maximum per dimension.',
 'C38': 'Every supported trait maps to the record type of its kind (integer, float, complex, boolean, array with shape) and to a command-line option with its name, default and type, also for tuples and '
        'enumerations, and unsupported ones are refused. Class traits are listed once per owning class in definition order, honouring exclusions. Shape and length validators accept exactly arrays of the '
        'given shape or of one of the given lengths.',
 'C41': 'For every set of simulations in the working directory, the command named after a simulation runs that simulation (and no other), built with the option values given on the command line and trait '
        'defaults otherwise. Every own trait of the simulation has an option, and the list command names exactly these simulations.',
 'C42': 'Navigation to a target combines the map of exactly that target (or of the union of all for "closest") with the obstacle map, with the requested step, radius and strength, and is the target map alone '
        'without obstacles; repeated queries give the same answer and assigning new geometry gives the answer of the new geometry. Cells between an obstacle and the obstacle grown by the radius take the direction of the nearest '
        'known cell. Indices past the last target, a missing domain and missing targets are refused, and empty or invalid domain and obstacle geometries are rejected. The convex hull of a field is '
        'that of all its obstacles, targets and spawns.',
 'C43': 'The saving node, put above the reset node of the logic by its own helper, buffers the agents and the data of every update exactly once, as they were at that update, and writes them whenever its condition is true; after the '
        'last true condition the files hold every update up to it, in order. Metadata and geometry are written once at creation.',
}
for q in P:
    q['statement'] = REFINED.get(q['id'], q['statement'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
