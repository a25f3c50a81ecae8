"""The properties: source of properties.jsonl, MANIFEST.json and the table in DESIGN.md (tools/gen.py writes them)."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, design, note=None, state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), quant=" ".join(quant.split()),
                      why=" ".join(why.split()), files=["src/dg_commons/" + f for f in files.split()],
                      mech=[dict(name=a, where="src/dg_commons/" + b) for a, b in mech], observe=observe, state=list(state),
                      design=" ".join(design.split()), note=note))


P("C01", "Command schedule: when agents are asked, and how long each command is held",
  """Every active player is initialised exactly once, then asked for a command at the start of the run and at every multiple of the
  command period after it, and its model is stepped once per simulation step with exactly the command it issued last (zero-order hold).
  All players asked at the same instant get observations of one and the same instant: the active players, with their states and
  footprints at that instant, whatever the order of the players. The clock advances by exactly one step each time.""",
  "configurations histories",
  "All numbers of players, orders, step sizes, command periods (multiples of the step), start times, mission ends and sensing filters within the bounds.",
  "The tests run a few scenarios with one step size and never look at which command reached which model, when.",
  "sim/simulator.py sim/simulator_structures.py",
  [("Simulator.pre_update/update", "sim/simulator.py"), ("SimParameters", "sim/simulator_structures.py")],
  ["calls into agents, sensors and models", "SimContext.time"],
  """Real Simulator with harness-owned toy agents/models that record every call; DFS over players 1..3, dt, dt_commands/dt, start time,
  horizon, mission end per player, insertion order and filters; the recorded trace is compared with an independent reference automaton of the
  schedule (checks/simlib.py reference()).""")

P("C02", "When a simulation ends, and who is still in it",
  """A simulation ends exactly at the first of: no player left, every player with a mission done, the maximal simulation time exceeded, or the time allowed after
  the first collision exceeded. A player whose mission is fulfilled leaves at that step: it is no longer asked, stepped or hit, while its model and its log
  are kept. Nothing happens after the end.""",
  "configurations histories",
  "All combinations of step, horizon, time after collision, speeds and gaps (hence instants of collisions), missions and third bodies in the bounds.",
  "Tests let scenarios run out and check nothing about the instant of the end or about players that left.",
  "sim/simulator.py",
  [("Simulator.post_update/_maybe_terminate_simulation", "sim/simulator.py"), ("SimContext.first_collision_ts", "sim/simulator.py")],
  ["final SimContext: time, players, reports, log"],
  """Toy bodies on a line; DFS over gaps, speeds, missions, limits; final context, numbers of steps and reports are compared with the reference
  automaton, which computes the end from the documented conditions alone.""")

P("C03", "The simulation log is a faithful record of the run",
  """For every player the log holds its state at every simulated instant while it is active, every command it issued with the value it had when
  issued, and every extra it returned, under the instants at which they happened. Looking the log up at an instant gives the state
  interpolated between its neighbours, the last command issued, and the last extra issued. What agents do afterwards with objects they returned or were
  given does not change the log or the motion; a log begins with the first and ends with the last of its players.""",
  "configurations histories",
  "All run shapes in the bounds, all patterns of extras, all look-up instants on and between samples, all ways of reusing or editing shared objects.",
  "The tests never compare a log with what happened.",
  "sim/simulator.py sim/simulator_structures.py seq/sequence.py",
  [("LogEntry, PlayerLog, SimLog", "sim/simulator_structures.py"), ("Simulator.pre_update", "sim/simulator.py")],
  ["SimContext.log", "SimLog.at_interp, get_init_time, get_last_time"],
  """DFS over run shapes; the log is compared sample by sample with the harness' own record of calls, and every query on a grid (on, between, before, after
  the samples) with exact rational interpolation. A second harness enumerates, per agent, all modes of aliasing (reusing/editing returned commands, extras, observations).""")

P("C04", "A simulation's outcome depends on its own context only",
  """Running several simulations in one process, interleaved, nested or one after the other, on the same or on different simulator objects, gives each of
  them exactly the outcome it has when it runs alone. Running the same context again, in the same process or in another one with another
  hash seed, gives the same logs.""",
  "schedules histories configurations",
  "All interleavings (up to the preemption bound) of two simulations at their call-outs, all nestings, all sequences of runs on one simulator, several hash seeds.",
  "Every test runs one simulation per simulator; cross-talk needs a second one, at the right moment.",
  "sim/simulator.py sim/agents/lane_follower.py controllers/pid.py controllers/speed.py controllers/pure_pursuit.py",
  [("Simulator.run", "sim/simulator.py"), ("LFAgent", "sim/agents/lane_follower.py")],
  ["SimContext.log", "collision reports"],
  """Stateless model checking with a cooperative scheduler (mc/sched.py): the harness' agents and models yield at each call, the DFS enumerates the switches
  under a preemption bound; each run must equal its reference. Nesting, reuse (all sequences of 2-3 of 5 contexts), and library agents in child processes with different
  PYTHONHASHSEEDs are enumerated completely.""")

P("C05", "Agents cannot tamper with the world or each other through what they get",
  """Whatever an agent does to the objects it receives (initial scenario, goal, observations) or has issued, the scenario, the missions, the true states and
  what every other agent is given stay as they are without it.""",
  "histories configurations",
  "All agents that edit x all parts handed out (obstacles, lanes, goals, own and others' states and footprints) x all times within bounds.",
  "No test has an agent that writes to what it receives.",
  "sim/simulator.py sim/simulator_structures.py sim/sim_perception.py",
  [("Simulator.run (deepcopy of the init observations)", "sim/simulator.py"), ("Simulator.pre_update", "sim/simulator.py")],
  ["observations of other agents", "SimContext.dg_scenario, missions, models, log"],
  """DFS over editor, edit, and time; the real simulator runs with an editing agent; every object other agents see and the ground truth are compared with the reference run.""")

P("C06", "Which bodies collide: every closing contact is reported once, nothing else is",
  """When the footprints of two active players, or of a player and a static obstacle, overlap and they approach each other at the contact,
  exactly one collision is reported at that instant, both bodies are marked as collided, and the first collision is remembered. Bodies
  that do not overlap, that separate, or that left the simulation are not reported, and neither their velocity nor their state changes. No
  configuration of shapes makes the simulation crash.""",
  "inputs configurations",
  "All combinations of shapes, bearings, distances (touching, concentric and containing ones included), headings, velocities, obstacle kinds and orders in the bounds.",
  "The tests crash a few vehicles into each other; degenerate contacts and what must not be reported are not sampled.",
  "sim/simulator.py sim/collision.py sim/collision_utils.py sim/scenarios/structures.py",
  [("Simulator._check_collisions_with_environment/_check_collisions_among_agents", "sim/simulator.py"), ("resolve_collision, resolve_collision_with_environment", "sim/collision.py"),
   ("compute_impact_geometry", "sim/collision_utils.py")],
  ["SimContext.collision_reports, first_collision_ts", "has_collided of the models"],
  """Harness-owned rigid bodies with prescribed footprint and velocity in the real simulator; complete enumeration of the product space; oracle: exact overlap and the
  closing velocity at the contact computed independently (checks/geomlib.py); where the geometry is ambiguous only 'no crash, at most one report' is required.""")

P("C07", "A collision between two bodies follows the impulse law",
  """Resolving a collision of two bodies changes their velocities by equal and opposite impulses along the contact normal applied at the contact point,
  so that linear and angular momentum are conserved (within what each model can represent), the closing speed turns into the separating speed given by the restitution
  coefficient, and kinetic energy is not created. Poses do not change; the report contains the velocities before and after, the energies lost, the footprints and the parts of the bodies that were hit, and does not
  depend on the order of the players.""",
  "inputs configurations",
  "All pairs of models x headings x bearings x depths x speeds x spins, and scaled masses, inertias and restitution coefficients, in the bounds.",
  "Tests look at animations of collisions; no test checks momentum or the reported numbers.",
  "sim/collision.py sim/collision_utils.py sim/models",
  [("resolve_collision", "sim/collision.py"), ("compute_impulse_response, velocity_after_collision, rot_velocity_after_collision, kinetic_energy", "sim/collision_utils.py")],
  ["CollisionReport", "velocities of the models"],
  """The real resolve_collision on real models; complete product space; oracle: contact geometry and rigid body impulse written from the physics in checks/geomlib.py.""")

P("C08", "Hitting a static obstacle follows the impulse law against an unmovable body",
  """A body that hits a static obstacle while moving into it gets the impulse of a collision with an infinitely heavy body along the contact normal, with the
  restitution coefficient of its model; it is marked at fault and the obstacle is not, the obstacle stays as it was, and no energy is created.
  A body that moves away from the obstacle is left alone.""",
  "inputs configurations",
  "All models x obstacles (polygons, rings, segments, poly-lines, discs) x bearings x headings x depths x velocities x spins x restitution.",
  "Tests drive a few vehicles into walls and look at nothing but the absence of exceptions.",
  "sim/collision.py sim/collision_utils.py",
  [("resolve_collision_with_environment", "sim/collision.py"), ("compute_impulse_response", "sim/collision_utils.py")],
  ["CollisionReport", "velocity of the model"],
  """As C07 with obstacles of every geometry type the simulator accepts; oracle: impulse against infinite mass.""")

P("C09", "Combining the reports of one accident gives its summary, in any order",
  """Combining reports of the same players, in any grouping and argument order, gives one report with: the time and impact of the first,
  velocities before, footprint and fault from the first, velocities after from the last, all locations of impact, and all energy losses added up.
  Reports about different players are refused; the combined reports are not changed.""",
  "histories inputs",
  "All sequences of up to 4 reports with equal or increasing times, with unresolved (empty) entries, all bracketings and argument orders.",
  "No test combines more than what happens in one run.",
  "sim/collision_structures.py", [("combine_collision_reports", "sim/collision_structures.py")],
  ["returned CollisionReport"],
  """All binary trees over the sequence x both argument orders, folded by the real function, compared with an independent fold over time.""")

P("C10", "Observation filters: latency, ghosting and line of sight",
  """A delayed filter shows, at each instant, the newest observations at least as old as the latency (the oldest ones until then), a ghosting filter hides the players that are
  always hidden or further away than the given distance, a line-of-sight filter shows the players that can be seen from where the observer is; every filter shows the observer
  itself, shows true states, and never changes the full observations. Nesting filters composes them.""",
  "histories inputs configurations",
  "All nestings of filters x histories of time steps and positions; sensors x static obstacles x poses of three players.",
  "One disabled-by-environment test looks at one picture.",
  "sim/sim_perception.py perception/sensor.py",
  [("IdObsFilter, FovObsFilter, DelayedObsFilter, GhostObsFilter", "sim/sim_perception.py"), ("VisRangeSensor", "perception/sensor.py")],
  ["SimObservations returned by sense()"],
  """DFS over filter nestings and histories; oracle: definition by history search for latency, exact geometry with a margin (tri-state) for visibility (checks/vislib.py).""")

P("C11", "A line-of-sight sensor sees what is in range, in its field of view, not hidden",
  """The area seen by a visibility sensor contains every point within its range and field of view with an unobstructed line of sight, and no point
  behind an obstacle, outside of the field of view or beyond the range, up to its angular resolution. Asking again at the same pose gives the same
  area, and an all-seeing sensor is never obstructed.""",
  "inputs configurations",
  "All ranges x fields of view x poses x sets of obstacles in the bounds.",
  "One test plots one view.",
  "perception/sensor.py", [("VisRangeSensor.fov_as_polygon, FullRangeSensor", "perception/sensor.py")],
  ["fov_as_polygon"],
  """Complete product; oracle: independent radial ray casting on the exact obstacle geometry, inner and outer bounds of the visible area.""")

P("C12", "Sampled sequences: construction, look-ups and derived sequences",
  """A sampled sequence accepts exactly strictly increasing finite timestamps of one kind with as many values, is independent of the lists
  it was built from, and compares and hashes by content. Look-ups give the sample at an instant, the last one before it, or the linear interpolation (held outside of
  the samples); sub-sequences, shifts, transformations and iterations by interval contain exactly the samples they should; a builder accepts exactly increasing additions and
  what was built does not change later.""",
  "inputs histories",
  "All tuples of timestamps over a grid up to the length bound, kinds of numbers (int, float, Decimal, mixed), kinds of values, all query instants, all histories of a builder.",
  "Two example sequences are tested.",
  "seq/sequence.py", [("DgSampledSequence, DgSampledSequenceBuilder, iterate_with_dt", "seq/sequence.py")],
  ["public methods of sequences"],
  """Complete enumeration; every query is compared with exact rational arithmetic on the list of samples.""")

P("C13", "Integration, differentiation, accumulation and crossings of sequences are exact",
  """For every sampled sequence the running sum, the trapezoidal integral, the difference quotients and the instants at which a threshold is crossed equal those of the
  piecewise linear function through the samples; crossings come in order, one per crossing and none elsewhere, in the kind of number of the timestamps.""",
  "inputs",
  "All value sequences up to the length bound over an alphabet x kinds of timestamps x spacing x thresholds.",
  "The tests use one sequence each.",
  "seq/seq_op.py seq/sequence.py", [("seq_integrate, seq_differentiate, find_crossings", "seq/seq_op.py"), ("seq_accumulate", "seq/seq_op.py")],
  ["returned sequences"],
  """Complete enumeration against fractions.Fraction arithmetic.""")

P("C14", "Trajectories: joining, refining, moving, and the commands that follow them",
  """Two trajectories can be joined exactly when the second continues the first (in time and in speed and steering angle), and the result
  has the samples of both with the common one once; refining keeps all samples and adds equally spaced interpolated ones; a rigid motion moves every pose and
  leaves times, speeds and steering angles. The commands derived from a trajectory are those which lead from each sample to the next.""",
  "inputs",
  "All pairs of short trajectories over a state alphabet and time gaps, all refinement factors and rigid motions in the bounds.",
  "One example is tested.",
  "planning/trajectory.py", [("Trajectory.merge, upsample, apply_SE2transform, commands_plan_from_trajectory", "planning/trajectory.py")],
  ["returned trajectories"], """Complete enumeration against list-level definitions.""")

P("C15", "Trajectory graphs return exactly the trajectories they contain",
  """A trajectory graph contains exactly the nodes and edges that were added, with the generation of a node being one more than that of the node from which it was first reached. Listing all trajectories gives each path from the root to a leaf once; a trajectory between two nodes is a shortest path, and the commands along a trajectory are those of its own transitions.""",
  "inputs histories",
  "All layered graphs in the bounds and several insertion orders.",
  "One small graph is tested.",
  "planning/trajectory.py", [("TrajectoryGraph", "planning/trajectory.py")],
  ["nodes, edges, get_all_trajectories, get_trajectory, get_commands"], """All subsets of edges of layered node sets; oracle: exhaustive path enumeration.""")

P("C16", "Generated motion primitives and command samples are complete and feasible",
  """The motion primitives generated from a grid are exactly the transitions between grid values whose constant inputs respect the vehicle's limits, each once, sampled at the requested instants,
  and each is what the vehicle's dynamics do; without a start state they start from every grid value. Sampled commands reach exactly the states given by the grid of admissible inputs. The prediction step respects
  speed and steering limits for every input.""",
  "inputs configurations",
  "All vehicles x integration schemes x steps x grids x start states x inputs in the bounds.",
  "One test counts primitives of one grid.",
  "planning/motion_primitives.py planning/commands_sampler.py dynamics/bicycle_dynamic.py",
  [("MotionPrimitivesGenerator", "planning/motion_primitives.py"), ("CommandsSampler", "planning/commands_sampler.py"), ("BicycleDynamics", "dynamics/bicycle_dynamic.py")],
  ["generated trajectories"], """Complete product; oracle: own Euler/Runge-Kutta integration of the kinematic bicycle, set comparison of required and generated transitions.""")

P("C17", "Actuation and state limits hold under every history of commands",
  """Commanding more than an actuator's limit has exactly the effect of commanding the limit. No history of commands brings the limited states (speed, steering angle,
  their rates, propeller or nozzle angles) out of their limits by more than what the actuator does within half a step, nor changes an actuated state faster than its
  limit; states stay finite.""",
  "inputs histories",
  "All models x start states at and between limits x all histories of commands below, at and beyond the limits up to the depth bound.",
  "Tests apply a few commands inside the limits.",
  "sim/models", [("physic_constraint/ apply_*_constraint", "sim/models/utils.py"), ("update of each model", "sim/models/vehicle.py")],
  ["model states after update"], """DFS over command histories on the real models; invariants on every reached state, differential comparison with clipped commands.""")

P("C18", "States and commands behave as vectors",
  """Each state and command type converts to an array and back without loss, every component in its own place. Sums, differences, scalings (from either side) and divisions act component by component, keep the type
  (and lights), leave the operands unchanged, and refuse other types.""",
  "inputs",
  "All types x components x operand pairs x scalars in the bounds.",
  "No test touches state arithmetic directly.",
  "sim/models", [("*State, *Commands", "sim/models/vehicle_structures.py"), ("ModelState arithmetic", "sim/models/model_structures.py")],
  ["as_ndarray/from_array", "operators"], """Complete enumeration with distinct probe values per component; oracle by field name.""")

P("C19", "Reported velocities are the derivative of the pose, and can be set",
  """The velocity a model reports, in the global frame or in its own, is the derivative of its pose (and the two differ by the rotation of the heading). Setting a velocity in either
  frame makes the model report it (its components that the model can represent) and changes neither its pose nor anything else.""",
  "inputs",
  "All models x headings x frames x velocities x commands in the bounds.",
  "Not tested.", "sim/models", [("get_velocity/set_velocity", "sim/models/vehicle.py")],
  ["get_velocity, set_velocity, get_pose"], """Complete product; derivative compared with a finite difference over a short step of the real model and with the independent equations of motion.""")

P("C20", "Models are symmetric under rigid motions and their footprint follows the pose",
  """Moving and rotating the start state moves and rotates the outcome of a step and the footprint by the same motion. The footprint is the body's outline at the
  pose, and the labelled parts of the body used for impacts cover it without overlap, each on the side it is named after.
  A state that a model handed out is the caller's: editing it does not move the model, and what happens to the model (or to another one) later does not edit it.""",
  "inputs",
  "All models x states x rigid motions x commands x poses in the bounds.",
  "Tests look at one heading.", "sim/models", [("get_footprint, get_mesh", "sim/models/vehicle.py"), ("dynamics", "sim/models/vehicle.py")],
  ["get_footprint, get_mesh, get_state"], """Complete product; metamorphic oracle for motion, own outlines for shapes.""")

P("C21", "After a collision a body no longer answers to commands and loses energy",
  """After a collision trucks, bicycles, pedestrians, differential drives and spacecraft move in the same way whatever is commanded, do not gain kinetic energy,
  those with friction lose it at the documented rate, and no fuel is burnt (cars and dynamic obstacles remain driven).""",
  "histories inputs",
  "All such models x motions at the collision x all histories of commands afterwards up to the depth bound.",
  "Tests do not look at what happens after.", "sim/models", [("has_collided in update/dynamics", "sim/models/vehicle.py")],
  ["states after update"], """Twin models under different histories of commands must stay equal; energy is monitored along every history.""")

P("C22", "Thrust burns fuel at the documented rate, and stops when the tank is empty",
  """Rockets and spaceships lose mass at the rate given by the total magnitude of their thrust, never gain mass, do not get lighter than their empty mass by more than one step burns, and
  once empty their thrust has no effect while steering the nozzle still works.""",
  "histories inputs",
  "All masses around the empty mass x all histories of thrust up to the depth bound.", "Not tested.",
  "sim/models/rocket.py sim/models/spaceship.py", [("dynamics", "sim/models/rocket.py"), ("dynamics", "sim/models/spaceship.py")],
  ["states after update"], """DFS over thrust histories of the real models; mass bookkeeping recomputed from the commands.""")

P("C34", "One step of every model integrates its documented equations of motion",
  """Stepping a model by some time with a command gives the state that its equations of motion (kinematic or dynamic single track with load transfer, drag,
  rolling resistance and tyre curve; pedestrian; differential drive; spacecraft; rocket; spaceship; dynamic obstacle) give from that state with that command held, up to integration accuracy, before and after a
  collision. The previous state is not modified.""",
  "inputs",
  "All 12 models x start states x all tuples of command levels x step sizes x collided or not.",
  "Tests plot a few trajectories.", "sim/models", [("update/dynamics", "sim/models/vehicle.py"), ("VehicleModelDyn.dynamics", "sim/models/vehicle_dynamic.py"), ("Pacejka", "sim/models/tires.py")],
  ["get_state after update"], """Complete product; oracle: the equations written independently in checks/odelib.py, integrated with fine fixed-step Runge-Kutta; infinitesimal steps compare every
  component's rate to 2e-4.""")

P("C23", "Lanes are parametrized by arc length, and poses are located in them",
  """A lane's length is the sum of its segments' lengths; position along it and its parameter convert into each other monotonically, extending straight beyond both ends; centre point, heading
  and half width at a position are those of its centreline, through all control points. Locating a pose near a gently bending lane yields its position along, lateral offset and
  relative heading, and every flag and distance agrees with them. Lanes from vertices reproduce centre, heading, width; the profile traces both borders.""",
  "inputs",
  "All lanes made of arcs and straights x placements x positions along (before, on, between, beyond control points) x lateral offsets x headings in the bounds.",
  "The tests load one scenario and plot; no value is checked.",
  "maps/lanes.py geo.py",
  [("DgLanelet", "maps/lanes.py"), ("SE2_interpolate, relative_pose", "geo.py")],
  ["along_lane_from_beta, beta_from_along_lane, center_point, radius, lane_pose*, is_inside_from_T2value, lane_profile, get_lanelets"],
  """Complete product; oracle: lanes built from pieces of constant curvature whose arc length, pose and width are known in closed form (checks/lanelib.py).""",
  "The search of the closest point is documented to be local: lanes turn by at most a quarter of a circle, offsets stay within 60% of the radius of curvature, and the accuracy is that of the search.")

P("C24", "Goals are fulfilled exactly in their region, and what is plotted is that region",
  """A reference lane goal is fulfilled by a state within one meter of the gate across the lane (as wide as the lane there) at its progress, past it; a polygon goal by a position in its polygon; a pose goal by a pose within
  its tolerance. The verdict does not depend on when or how often it is asked, on copies, or on the kind of state. The plotted geometry is that region, at the pose of the goal.""",
  "inputs histories",
  "All goals x positions and headings around their borders x kinds of states x times in the bounds.",
  "The tests never ask a goal about a state near its border.",
  "sim/goals.py maps/lanes.py",
  [("RefLaneGoal, PolygonGoal, PoseGoal", "sim/goals.py")],
  ["is_fulfilled", "get_plottable_geometry"],
  """Complete product on the real goals; oracle: own point-to-gate, point-in-polygon and pose distances with lanes of known geometry; states within 3 cm of a border are not judged.""")

P("C25", "Road boundaries follow the perimeter of the road, and are open at its gates",
  """With a positive buffer, the road boundaries lie on the outline of the road surface (all lanelets grown by the buffer), cover all of it including islands (closed all around) without overlapping, and are open
  within twice the buffer of the end of every lanelet that has no predecessor or no successor, where there is a gate. The scenario holds the given static obstacles in their order, then
  the boundaries as immovable obstacles if asked, and its spatial index finds the obstacles where they are. The list passed in is not modified.""",
  "inputs configurations",
  "All lanelet networks in a catalogue of topologies (crossing, fork, ring, dead ends, ...) and all shipped scenarios x buffers x obstacles x containers.",
  "The tests plot three scenarios.",
  "maps/road_bounds.py sim/scenarios/structures.py",
  [("build_road_boundary_obstacle", "maps/road_bounds.py"), ("DgScenario", "sim/scenarios/structures.py")],
  ["lines and gates returned", "DgScenario.static_obstacles, strtree_obstacles"],
  """Complete product over networks, buffers, obstacle lists; oracle: own union of lanelets and distances to open ends; index queries compared with brute force.""")

P("C26", "PID: the discrete control law with saturation and anti-windup, at every step",
  """The PID returns kP e + I + kD de/dt clipped to its output limits, with e the clipped reference minus the measurement, and I the clipped sum of kI e dt between requests (0 before the first).
  Controllers share no memory. The speed and steering controllers made from vehicle parameters saturate at that vehicle's limits of acceleration, steering rate, speed and steering angle, limits that are
  not intervals are refused, and the closed loop with the kinematic vehicle reaches its references.""",
  "histories inputs",
  "All gains, limits, and histories of measurements, references and request times (equal ones included) up to the depth bound; all sequences of references for the closed loops.",
  "One test plots a step response.",
  "controllers/pid.py controllers/speed.py controllers/steer.py",
  [("PID", "controllers/pid.py"), ("SpeedController", "controllers/speed.py"), ("SteerController", "controllers/steer.py")],
  ["get_control"],
  """DFS over all histories of the real controllers in lock step with a reference automaton; closed loops explore all sequences of two references.""")

P("C27", "Speed behaviour: yielding, emergencies and following in traffic",
  """The speed reference is zero if a moving vehicle within the yield distance has a heading crossing from the right, and zero with an emergency if one crosses from the left, or an oncoming one ahead (less than 1.2 m aside) is closer
  than the safety time allows at the joint speed. Else it is the least of the nominal speed and what the vehicles ahead in the lane within the
  safety distance demand. It depends on the current situation only, not on the order of players, and one vehicle does not undo the demand of another.""",
  "inputs histories",
  "All relative positions, headings, speeds of up to three other vehicles x own states x parameters x orders, and all sequences of situations, in the bounds.",
  "No test covers traffic rules.",
  "controllers/speed.py",
  [("SpeedBehavior.get_speed_ref", "controllers/speed.py")],
  ["get_speed_ref"],
  """Complete product on the real behaviour; oracle: the rules written anew in relative coordinates; situations within 1e-3 of a threshold are not judged.""")

P("C28", "Pure pursuit steers towards a goal point on its lane; followers converge to it",
  """The goal point lies on the lane, between the minimal distance and that plus the look-ahead ahead of the position along it, as close as possible to one look-ahead (proportional to
  the speed within its limits) away from the vehicle. The steering angle is atan(2 l sin(alpha) / look-ahead), alpha seen from the rear axle; a path and a pose must have been given; controllers share no parameters.
  A lane follower in the simulator, on a lane with gentle curves, stays within 3 m of its initial offset and converges to lane and nominal speed.""",
  "inputs histories",
  "All lanes, placements, positions, offsets, headings, speeds and parameters in the bounds; closed loops over lanes, initial offsets and headings, speeds, command periods.",
  "One test runs a lane follower and checks that it does not crash.",
  "controllers/pure_pursuit.py sim/agents/lane_follower.py controllers/pid.py controllers/speed.py maps/lanes.py",
  [("PurePursuit", "controllers/pure_pursuit.py"), ("LFAgent", "sim/agents/lane_follower.py")],
  ["find_goal_point, get_desired_steering", "SimContext.log"],
  """Complete products; oracle: lanes of known geometry, goal distance minimised over a fine grid; closed loops run the real simulator, agent and vehicle.""",
  "Lanes turn by at most a quarter of a circle each way, as the search of the lane position is documented to be local.")

P("C29", "Safety metrics: closest distance, time to collision, required deceleration",
  """Over the ego's sampled instants within the (inclusive) range of time, and among the players not done with their mission at that instant (players without a mission count, nothing counts once the ego is done), the
  minimal distance is that between footprints at the interpolated states. The time to collision is the first multiple of 0.1 s up to 3 s at which the footprints meet if both keep speed and
  heading, for players whose centres close in and would meet within 5 s, else infinite; DRAC is v^2/(2 v ttc), infinite if that distance is not positive. Extremum, who, when agree; models are not changed; asking for a collision
  tells if Ego is in a report.""",
  "inputs histories configurations",
  "All pairs of kinds, relative poses and speeds, sets of other players with or without missions (also varying in time), ranges and samplings in the bounds.",
  "One recorded log with one set of numbers.",
  "eval/safety.py",
  [("get_min_dist, get_min_ttc_max_drac, has_collision", "eval/safety.py")],
  ["get_min_dist, get_min_dist_at_t, get_min_ttc_max_drac, get_ttc_drac_at_t, has_collision"],
  """Complete product over synthetic logs; oracle: outlines transformed and moved independently, minima over instants and active players by enumeration; near misses below 1e-6 m are not judged.""")

P("C30", "Efficiency and comfort metrics follow their definitions on every log",
  """The distance travelled is the length of the path of positions. The maximal jerk is the largest |change of acceleration| / time between successive commands, those whose second command is in the (inclusive) range of time; the acceleration RMS is that of
  the selected commands weighted in frequency (ISO 2631 filter as given), for any number of them. The time a goal lane is reached is the first instant the goal is fulfilled, or the pose is within the tolerances of centre and heading of the goal
  lane or of those connected by first successors/predecessors; asking terminates everywhere.""",
  "inputs histories",
  "All small logs (positions, commands, periods, ranges, types of timestamps), and lane networks (chains, forks, bends, rings) x goal lanes x poses on and off the road in the bounds.",
  "One recorded log with one set of numbers.",
  "eval/efficiency.py eval/comfort.py",
  [("distance_traveled, time_goal_lane_reached, desired_lane_reached", "eval/efficiency.py"), ("get_max_jerk, get_acc_rms", "eval/comfort.py")],
  ["return values"],
  """Complete product; oracles: direct sums, a complete discrete Fourier sum written out, walks over the lanelet graph. Known finding: get_acc_rms ignores the sampling period (an existing test fixes that value).""")

P("C31", "Replicas of CommonRoad scenarios: obstacles where the scenario has them",
  """A replica of a CommonRoad scenario has one player per moving car, truck, bus or bicycle (named P<position in the file>, or Ego if asked), whose vehicle starts at the pose and speed of the obstacle, with its dimensions,
  the wheels turned the way it turns and the limits of a car (or bicycle); obstacles that move less than 0.2 m and static ones stand as static obstacles with their shape at their pose; obstacles that cannot be converted are skipped. The lane of a player leads from a lanelet
  it starts on along successors over a lanelet it ends on, the one best aligned with it if there are several, and along its trajectory if there is none; scenarios are found by name (with or without suffix) in
  any folder below the given one; the lane at a position starts at a lanelet that contains it.""",
  "inputs configurations",
  "All networks (chains, forks, overlapping and oppositely directed lanes, identifiers that share digits), types, trajectories, one to three obstacles, static ones and egos in the bounds; the scenarios of the repository.",
  "The tests build a replica of one scenario and look at nothing.",
  "sim/scenarios/factory.py sim/scenarios/convert_from_commonroad.py sim/scenarios/model_from_dyn_obstacle.py sim/scenarios/utils_dyn_obstacle.py sim/scenarios/utils.py sim/scenarios/structures.py",
  [("get_scenario_commonroad_replica", "sim/scenarios/factory.py"), ("infer_lane_from_dyn_obs", "sim/scenarios/utils_dyn_obstacle.py"), ("infer_model_from_cr_dyn_obstacle", "sim/scenarios/model_from_dyn_obstacle.py")],
  ["SimContext of the replica", "dglane_from_position", "load_commonroad_scenario"],
  """Generated scenarios are written to files in a scratch folder and loaded; complete product; oracle: walks over the lanelet graph, shapes placed independently.""")

P("C32", "What is drawn is what is simulated: players, lights, obstacles, goals, frames",
  """Every player is drawn with its outline (wheels turned by the steering angle, thrusters, flames proportional to the thrust and none without fuel, lights at their places) at its pose,
  whatever was drawn with the same artists before; lights have the colours of their command at that time (blinking), rear lights that are red get bright while braking, independent of the past and of other vehicles.
  Shapes are filled inside, in all their parts, not in holes. Static goals are drawn once, moving ones where they are at that time; frame i of an animation shows the log i*dt (at most 1 s) after its beginning: states, lights,
  trajectories logged by the agents, goals, clock; frames cover the log; the limits are as given, around the focused player or all players.""",
  "inputs histories",
  "All kinds of players, sequences of states, commands, fuel levels, shapes and their combinations, and logs (begin, duration, frame rate, extras, goals) in the bounds.",
  "Tests write videos that nobody looks at.",
  "sim/simulator_visualisation.py sim/simulator_animation.py sim/models/vehicle_ligths.py maps/shapely_viz.py",
  [("SimRenderer.plot_player", "sim/simulator_visualisation.py"), ("create_animation, lights_colors_from_lights_cmd, adjust_axes_limits", "sim/simulator_animation.py"), ("ShapelyViz.add_shape", "maps/shapely_viz.py")],
  ["artists on the axes", "rendered pixels", "frames handed to the movie writer"],
  """Complete product on the real drawing code (Agg); a recording movie writer takes the place of ffmpeg; oracle: outlines placed anew from dimensions, a table of lights, shapely predicates at sampled pixels.""")

P("C33", "Rigid motions form a group, and the geometry tools respect it",
  """SE2Transform, matrices and PoseStates convert into each other without loss and share no numbers; relative poses, applying a pose to points, lists of points and all kinds of shapes agree with the composition of rigid motions
  (shapes keep type, parts, holes, size). Interpolation follows the motion of constant body velocity between two poses (also beyond them, seen from any frame, in both directions) and the distance is the length of that path;
  poses, positions and speeds of the states of all models are extracted as documented. Units convert exactly; star-shaped polygons turn once counterclockwise around their centre, within twice the radius, for every outcome of the dice;
  all combinations of options are listed once, frozen maps cannot be changed; timing a function changes nothing about it.""",
  "inputs",
  "All pairs of poses, points, shapes, fractions, states of all models, option maps, and outcomes of the dice in the bounds.",
  "Two tests touch these functions in passing.",
  "geo.py utils_toolz.py time.py maps/shapes_generator.py sim/models/utils.py",
  [("SE2_interpolate, relative_pose, get_distance_SE2, transform_xy, apply_SE2_to_shapely_geo, SE2Transform", "geo.py"), ("iterate_dict_combinations", "utils_toolz.py"), ("create_random_starshaped_polygon", "maps/shapes_generator.py")],
  ["return values"],
  """Complete product; oracle: rigid motions as complex numbers, screw motions in closed form; the random numbers and the clock are decided by the explorer.""")

P("C35", "Library agents do what they are given, in every episode",
  """An agent with a plan returns the last command of the plan at or before the time; a policy agent applies its policy once per request to its own state, whatever the order of players and the episode. A lane follower's commands are those of
  the speed and steering controllers with the limits of its vehicle, fed with the reference of its speed behaviour (which sees all the observations) and the steering angle of its pure pursuit (the given one if any); once there was an emergency the reference
  speed is 0 until the end of the episode. In a new episode an agent acts as a new one would; agents do not influence each other; observations are not changed; extras are returned only if asked for: a line from behind the vehicle to the goal point.""",
  "inputs histories",
  "All plans, sequences of observations and decisions of the behaviour, episodes, vehicles, lanes in the bounds; whole simulations with used and several agents.",
  "One test runs a lane follower and checks that it does not crash.",
  "sim/agents/agent.py sim/agents/lane_follower.py controllers/speed.py controllers/steer.py",
  [("NPAgent, PolicyAgent", "sim/agents/agent.py"), ("LFAgent.get_commands", "sim/agents/lane_follower.py")],
  ["get_commands, on_get_extra, on_episode_init", "SimContext.log"],
  """Exhaustive enumeration of call histories of the real agents; oracle: the control loop written anew around the pure pursuit (decided by C28); differential runs of whole simulations.""")

P("C36", "After an accident: who was in it, who is at fault, and what its plots show",
  """A player is at fault iff on every lane that contains the point of impact it is outside the lane or heads against it (so all are if there is no lane); the reports of collisions carry each player's own verdict, whatever the order. Those who collided are
  exactly the players named in the reports. The plot of a collision shows for each player, any number of them, outline, name at its position at that time, impact point, locations with names, velocities before and after; the plot of logs has,
  in the given figure, one subplot for each component of states and commands, with the curves of all (chosen) players at their timestamps; commands are held from their instant on.""",
  "inputs",
  "All straight lane networks x impact points x poses, accidents of two cars, sequences of reports, logs of all kinds of players in the bounds.",
  "Fault is looked at by no test; plots are only written to files.",
  "sim/collision_utils.py sim/collision.py sim/utils.py sim/collision_visualisation.py sim/log_visualisation.py",
  [("check_who_is_at_fault", "sim/collision_utils.py"), ("resolve_collision", "sim/collision.py"), ("plot_collision", "sim/collision_visualisation.py"), ("plot_players_logs", "sim/log_visualisation.py")],
  ["CollisionReportPlayer.at_fault", "who_collided", "artists of the figures"],
  """Complete product; oracle: positions in straight lanes computed anew; artists of the axes compared with log and report.""")
