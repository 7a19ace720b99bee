#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
A="src/openspace/bodies/artificial.py"; I="src/openspace/propagators/inertial.py"; H="src/openspace/propagators/relative.py"
S="src/openspace/coordinates/states.py"; PO="src/openspace/coordinates/positions.py"; EL="src/openspace/coordinates/elements.py"
F="src/openspace/estimation/filtering.py"; OB="src/openspace/estimation/obs.py"; IOD="src/openspace/estimation/iod.py"
L="src/openspace/math/linalg.py"; FN="src/openspace/math/functions.py"; C="src/openspace/bodies/celestial.py"
G="src/openspace/bodies/terrestrial.py"; T="src/openspace/time.py"; PL="src/openspace/hardware/payloads.py"; CO="src/openspace/hardware/constraints.py"
M="src/openspace/planning/maneuvers.py"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Spacecraft clocks go exactly where commanded and nowhere else",
  "A spacecraft commanded to an epoch ends at that epoch (to clock resolution), forwards or backwards and whatever its history, and a plain step moves its clock by exactly its configured step, which the command leaves unchanged. Impulsive burns, observations, sensing queries and attitude commands never move the spacecraft's own clock, and a finite burn moves it by exactly the burn's duration. No command to one spacecraft moves the clock of another that it is not (directly or through a chain) tracking.",
  ["histories","schedules","inputs"],"every history of steps, jumps, burns, attitude commands and queries on every spacecraft of a fleet, with irregular, stalled, repeated and backward host ticks",
  "One test makes one 19-hour forward jump and one makes a 600 s jump; no test mixes commands, steps backwards, changes the step size or has two spacecraft.",
  [I,A,T],[("step_to_epoch / step",I),("Spacecraft.step, step_to_epoch, finite_maneuver",A),("Epoch.plus_days",T)],
  [("propagator.step_size","seconds advanced by one step",I),("state.epoch","the craft's clock",S)],["current_epoch()","propagator.step_size"])
p("C02","Every free flight segment follows the documented force model",
  "Between burns, each time a spacecraft's clock moves, its position and velocity move to what fourth-order Runge-Kutta integration (in the fewest equal steps of at most 300 s) of the documented forces gives from where it was: Earth point mass, 4x4 geopotential, Moon and Sun. This holds after any earlier history of burns, jumps, attitude commands and observations. With perturbations switched off on a state, the motion stays pure two-body for the rest of that history.",
  ["histories","schedules","inputs"],"every history of clock movements, in both directions and any size, of any fleet of Earth orbits, interleaved with every other command",
  "The tests sample one GEO arc (5 km tolerance) and one 600 s LEO arc from a fresh spacecraft; state left behind by earlier commands is never exercised.",
  [I,S,C,PO,A],[("RK4.step",I),("GCRF.derivative and acceleration_*",S),("Sun/Moon.get_position, Earth.precession/nutation/rotation",C)],
  [("state","epoch, position, velocity",I),("use_perturbations","two-body or full force model",S)],["current_state()"])
p("C03","Trajectories do not depend on how time is sliced",
  "Taking a spacecraft to an epoch in one command, in many irregular pieces, with repeated commands, or by overshooting and coming back, ends at the same position and velocity to integration accuracy. Going out and returning to the starting epoch restores the starting state to integration accuracy. In perturbation-free flight the orbit's energy and angular momentum are conserved to integration accuracy along the way.",
  ["schedules","histories","inputs"],"every partition of a time span into ticks, including jitter, stalls, duplicates, zero-length ticks and backward jumps",
  "Tests take exactly one partition of one arc; no test compares two slicings or steps back.",
  [I,S],[("step_to_epoch step count and size",I),("RK4.step",I)],[("state","epoch, position, velocity",I)],["current_state()"])
p("C04","Independent scenarios never influence each other",
  "Each spacecraft, filter, relative propagator and ground site depends only on the commands addressed to it and to what it tracks. Running several scenarios interleaved in one process in any order gives each of them bit-for-bit the results it gives alone in a fresh process. That includes scenarios running beside one that fails part-way through a command.",
  ["schedules","histories","fault_sequences"],"every event-level interleaving of independent scenarios, with any of them aborted inside any command",
  "Tests run one scenario at a time and share nothing; hidden shared state only shows when two histories interleave.",
  [A,I,H,F,S,C,L,G],[("instances hold all state; class-level matrices are never written",F),("copy on construction",S)],
  [("DEFAULT_COVARIANCE / DEFAULT_NOISE / H / I","shared class-level matrices",F)],["current_state()","filter state and covariance","observations"])
p("C05","Concurrent caller threads see no interference and no torn states",
  "Threads that each drive their own spacecraft, filters and ground sites get bit-for-bit the results of running alone, wherever they are preempted. A thread that reads the state of a spacecraft another thread is stepping always gets an epoch, position and velocity that belong together: one of the states that spacecraft actually passed through, in order.",
  ["schedules"],"every preemption point (source line) in every interleaving of up to four caller threads",
  "The suite is single-threaded.",
  [A,I,S,L,F,H,G],[("no module-level mutable state",L),("new state object built, then published in one assignment",I)],
  [("propagator.state","published state object",I)],["current_state()"],None)
p("C06","An interrupted command leaves a usable, consistent spacecraft",
  "If a command fails part-way (an interrupt, exhausted memory or an arithmetic error inside it), the spacecraft keeps its configured step, stops thrusting, its propellant has not grown, and from there it flies exactly like a fresh spacecraft built from its reported state. Repeating a failed clock or attitude command then succeeds with the effect it would have had. A failed observation update or acquisition leaves the filter exactly as it was, so processing the observation again gives the same estimate as if the failure had never happened.",
  ["crash_points","fault_sequences","histories"],"an exception at every numerical operation inside every command, at any point of a history",
  "No test injects a failure.",
  [I,A,F],[("step size and thrust restored on the way out",I),("attitude command computes before it commits",A),("filter update commits or rolls back",F)],
  [("step_size, m_dot, m0","temporarily changed during a command",I),("steering, slewing, slew_stop","attitude command state",A),("epoch, x00, p00","filter estimate",F)],["current_state()","propagator.step_size","filter.x00, p00, epoch"],None)
p("C07","Reported states are stable snapshots from which a run can resume",
  "A state, position, velocity, epoch or observation handed out is a snapshot: later commands never change it, and changing it, or an object passed in earlier, never changes the spacecraft. A process that dies at any point and rebuilds its spacecraft from the last state it saved continues bit-for-bit as if it had never died. The initial state a spacecraft remembers never changes.",
  ["crash_points","histories","fault_sequences"],"crashes between any two commands with the latest, an older or a torn checkpoint surviving; every point at which a snapshot is taken, edited or kept",
  "No test keeps a snapshot across commands, mutates one, or resumes from one.",
  [A,I,S,OB,T],[("copies on construction and on every accessor",S),("Spacecraft.current_state/position/velocity/current_epoch/initial_state",A)],
  [("initial_state","state at creation",A)],["current_state()","initial_state"])
p("C08","An impulsive burn changes velocity by exactly the commanded vector",
  "An impulsive burn leaves position and epoch unchanged and adds to the velocity exactly the commanded radial, in-track and cross-track components, in the frame of the spacecraft's state at that instant. It keeps the spacecraft's configured step and force model. This holds for any sequence of burns and flight segments on any orbit.",
  ["histories","inputs"],"every sequence of burns and coasts, in any order and direction, on any orbit",
  "No test performs an impulsive burn.",
  [A,S],[("impulsive_maneuver",A),("StateConvert.hcw.to_gcrf, HCW.frame_matrix",S)],[("propagator.state","state the burn applies to",A)],["current_state()"])
p("C09","Finite burns obey the rocket equation in mass, time and delta-v",
  "A finite burn uses propellant equal to the rocket equation for the commanded delta-v at the current total mass, takes that propellant divided by the mass flow rate in time, and applies thrust of flow rate times specific impulse times standard gravity over the current, falling mass, along the commanded radial/in-track/cross-track direction as it was at ignition. Afterwards no thrust acts. Mass is conserved over any sequence of burns: burning a delta-v in parts uses the propellant of one burn.",
  ["histories","inputs","configurations"],"every sequence of burns of any size (many integration steps long), mass, flow rate and specific impulse, from any point of any history",
  "No test performs a finite burn.",
  [A,I],[("finite_maneuver",A),("maneuver, thrust_vector, step",I)],
  [("propellant_mass","kg left",A),("m0, m_dot, thrust_direction","burn in progress",I)],["propellant_mass","current_state()"])
p("C10","Attitude always matches the commanded mode at the current state",
  "After every command to a spacecraft (clock movement, burn or attitude command) its payload axis points at Earth in Earth mode, directly away from the Sun in Sun mode, and at the tracked spacecraft in target mode, for its current position and epoch. The three body axes are mutually perpendicular and right-handed; the second axis is along the orbit normal in Earth mode and perpendicular to the Sun direction in target mode, and the first is perpendicular to the pole in Sun mode.",
  ["histories","schedules"],"every history of mode changes, retargeting, clock movements and burns",
  "No test reads the attitude.",
  [A,S],[("update_attitude, track_lvlh, track_sun, track_state",A)],[("steering, tracked_target, body_x, body_y, body_z","attitude",A)],["body_x, body_y, body_z"])
p("C11","A tracker carries its latest target along, whatever the tracking graph",
  "After any clock movement of, or tracking command to, a spacecraft in target mode, the spacecraft it was last told to track is at the same epoch (to clock resolution), and so on down chains and around cycles of trackers for each one whose clock the command moved; every such command completes. A new tracking command replaces the old target at once. A spacecraft that has left target mode no longer moves its former target.",
  ["histories","schedules","configurations"],"every tracking graph (chains, mutual tracking, cycles, shared targets), every order of commands, with members stalled or ahead",
  "No test tracks anything.",
  [A,I],[("update_attitude synchronises the tracked spacecraft",A),("track_state",A),("step_to_epoch",I)],[("tracked_target, steering","tracking edge",A)],["current_epoch()","tracked_target"])
p("C12","The slew timer starts, runs and expires correctly",
  "Changing the attitude mode or target starts a slew whose length is the angle between the old payload direction and the new one times the configured slew time per radian; repeating the current command starts none. The slewing flag stays set while the clock has not passed the slew's end and is cleared by the first command that updates attitude after it, however irregular the ticks. A command issued during a slew starts its own slew from the present direction.",
  ["schedules","histories"],"every sequence of attitude commands and ticks, with jitter, stalls and jumps around the expiry instant",
  "No test changes mode or reads the flag.",
  [A],[("track_lvlh, track_sun, track_state set the timer; update_attitude clears it",A)],[("slewing, slew_stop, slew_scalar","slew timer",A)],["slewing","slew_stop"])
p("C13","Detection is reported exactly when every sensor limit is met",
  "At any moment of any history a target is reported as detected if and only if its Sun, Earth and Moon angles are at or above their limits, its apparent magnitude is at or below the limiting magnitude, and it lies within the boresight limit of the payload axis as it then points. The magnitude is that of a diffuse sphere with the target's own radius and reflectivity at its range and phase. Reported range and Sun, Earth and Moon angles are those of the two spacecraft's current positions, and asking changes nothing.",
  ["histories","configurations","schedules"],"every history of two or more spacecraft, attitude modes and sensor limit settings",
  "No test calls detection or any sensing query.",
  [A,CO,PL,C],[("detect, visual_magnitude, sun_angle, moon_angle, earth_angle, range",A),("OpticalConstraints",CO)],
  [("wfov.limits","sensor limits",CO),("body_radius, albedo","optical size",A)],["detect()","visual_magnitude()"])
p("C14","Simulated observations carry exactly the noise they declare",
  "An observation is stamped with the observer's state and with one-sigma errors: the range error set by the camera, the range and the target's size, and the angular error set by the pointing accuracy. A draw of k sigma displaces the range by k range errors and the direction by k angular errors, in a uniformly distributed direction about the true line of sight, for every draw and every geometry. Observing changes neither spacecraft.",
  ["inputs","histories","fault_sequences"],"every outcome of the random source (including extreme and zero draws), every geometry and both cameras, at any point of a history",
  "No test observes one spacecraft from another; random draws are unseeded.",
  [A,L,PL,OB],[("observe_wfov, observe_nfov",A),("with_noise, with_magnitude_noise, with_angular_noise",L),("Camera.range_error",PL)],
  [("pointing_accuracy","one-sigma angle",A)],["SpaceObservation fields"],None)
p("C15","A seeded run is exactly repeatable",
  "With the standard random generator seeded, a whole scenario (flight, burns, observations, filtering) gives bit-for-bit the same history in any process, at any wall-clock time and whatever ran before it. A different seed gives different observation noise.",
  ["schedules","configurations","histories"],"every scenario, host clock, hash seed and preceding activity in the process",
  "No test seeds or repeats a scenario.",
  [L,A,F],[("all randomness drawn from the random module",L),("no clock, hash or history dependence",A)],[],["whole recorded history"])
p("C16","Observations reconstruct where the target was, however late they arrive",
  "A ground observation's azimuth (clockwise from north), elevation and range are those of the target's Earth-fixed position seen from the site at the observation epoch. Converted back at any later time, after any amount of further activity, a ground or space observation gives the target's inertial position at the epoch of observation, displaced only by its own noise.",
  ["schedules","fault_sequences","inputs"],"every site, target and epoch, and every delay, duplication, reordering or loss between taking and using an observation",
  "One site sees one target once; conversions are tested at one epoch and used at once.",
  [G,OB,PO,C],[("GroundSite.angles_and_range, enz_position",G),("ijk_position, gcrf_position, from_angles_and_range",OB),("PositionConvert",PO)],
  [("observer_state","site or spacecraft state at observation time",OB)],["azimuth, elevation, range, gcrf_position(), ijk_position()"])
p("C17","The navigation filter is the Kalman filter of its observation stream",
  "For any delivered sequence of observations (lost, repeated, late or out of order), the filter's estimate and covariance equal those of a textbook Kalman filter with relative-motion dynamics over the actual time differences, the declared noise and the observed relative positions. The covariance stays symmetric and positive definite, and the filter's epoch is that of the last observation processed. Acquiring a target starts the estimate at its relative state at the tracker's own epoch, whatever epoch the seed was at.",
  ["fault_sequences","schedules","histories"],"every delivery history of observations between sensor and filter, every geometry, any filter restart",
  "No test runs the filter.",
  [F,H,S,A],[("RelativeKalman.process, predict, update",F),("Hill.system_matrix",H),("StateConvert.gcrf.to_hcw",S),("acquire",A)],
  [("x00, p00, epoch","estimate",F)],["filter.x00, p00, epoch, propagator.state"])
p("C18","Tracking converges once observations flow again",
  "For a target within 50 km on a near-circular orbit at medium altitude or above, after any bounded period (up to 15 observation times) of lost, late, duplicated or outlier observations, blackouts, failed updates and restarts, once observations arrive regularly the filter's relative position error is within ten times the observation's declared one-sigma accuracy plus 4% of the separation after 30 observations, and stays there.",
  ["fault_sequences","schedules"],"every bounded fault prefix on near-circular formations, followed by regular observations",
  "No test runs the filter.",
  [F,A,H],[("gain and update",F),("process noise",F)],[("x00","estimate",F)],["filter.propagator.state vs hill_position()"])
p("C19","Relative motion composes over any tick schedule",
  "The relative propagator moves a relative state exactly as the closed-form linearised relative-motion solution for its orbit rate over the total elapsed time, however that time is sliced, repeated, stalled or reversed. Returning to the starting time restores the starting state, and a default step moves by the configured step.",
  ["schedules","histories","inputs"],"every tick schedule in either direction, every relative state and orbit size",
  "No test runs the relative propagator.",
  [H,S,L],[("Hill.system_matrix, step_by_seconds, step",H)],[("state, n, step_size","relative state, orbit rate, step",H)],["state.position, state.velocity, state.vector"])
p("C20","Frame conversions invert each other and preserve distance",
  "Converting a position between inertial, Earth-fixed, geodetic, local and relative frames and back returns it, and rigid conversions preserve lengths and angles, at every epoch and position.",
  ["inputs"],"every position and epoch","Tests sample one conversion at one epoch.",[PO,S,C],[("PositionConvert, StateConvert",PO)])
p("C21","Classical elements and Cartesian states are inverse",
  "Converting any bound orbit's state to elements and back returns the state, and Kepler's equation is solved to tolerance for every mean anomaly and eccentricity.",
  ["inputs"],"every bound orbit","One conversion is tested in one direction.",[EL,FN],[("from_ijk, to_ijk, EccentricAnomaly.from_ma_e",EL)])
p("C22","Vector and matrix operations satisfy linear algebra",
  "Products, transposes, inverses, rotations and norms satisfy the identities of linear algebra for every operand.",
  ["inputs"],"every operand","Only 3-vector operations are sampled.",[L],[("Vector3D ... Matrix6D",L)])
p("C23","Sun and Moon positions are accurate over the supported span",
  "The Sun and Moon positions agree with a precise ephemeris to the accuracy of the documented series at every epoch.",
  ["inputs"],"every epoch","One epoch is sampled.",[C],[("Sun.get_position, Moon.get_position",C)])
p("C24","Orbit determination recovers the target's orbit from any usable reports",
  "From any two position reports of one free two-body flight, from 0.3 to 170 degrees apart on an orbit that is not equatorial, delivered in any order and however late and put in time order, the Gauss method returns the target's orbit: its elements, stamped with the first report's epoch, give the target's state at the first report and predict where every other report of that flight sees it. Converting that state to elements and back returns the state.",
  ["fault_sequences","schedules","inputs"],"every bound non-equatorial orbit, every pair of ground or space reports of one free flight, and every delay, loss, duplication, reordering, retransmission or consumer restart before they are used",
  "One textbook pair is tested, on one orbit, without flight or delivery.",
  [IOD,EL,FN,OB],[("Gauss.coes_from_positions, solve_nu",IOD),("ClassicalElements.from_ijk, to_ijk",EL),("ijk_position",OB)],[("observer_state","observer when the report was made",OB)],["ClassicalElements fields, to_ijk()"])
p("C25","A timeline of calendar dates runs at those dates, over the turning Earth",
  "A spacecraft driven by a timeline of Gregorian dates and times between 1860 and 2150, delivered in any order, late, repeated, lost and sent again or re-read after a restart, is at each entry at the modified Julian date of that date: dates are ordered and spaced as the calendar says, across month and year ends, leap days and century years. There the Earth has turned by the documented sidereal angle of that date, so a ground site sees the spacecraft where it is. A spacecraft started on the library's geosynchronous radius over the equator keeps its longitude in two-body flight.",
  ["schedules","fault_sequences","inputs"],"every date, every order and repetition of dated commands, and every interruption and restart between them",
  "One date is sampled for the epoch and one for the sidereal angle; neither is flown.",
  [T,FN,C,G],[("Epoch.from_gregorian, plus_days, greenwich_hour_angle",T),("Conversions.hms_to_decimal_day",FN),("Earth.rotation, Earth.geo_radius",C),("angles_and_range",G)],[("Epoch.value","date in modified Julian days",T)],["epochs made from dates","current_epoch()","azimuth, elevation, range"])
p("C26","A planned Hohmann transfer, flown, ends on the planned orbit",
  "Between any two circular orbit radii, up or down, the Hohmann plan's two burns executed impulsively at the planned times put the spacecraft on the planned transfer ellipse and then on the target circular orbit, with the planned velocities before and after both burns, however the coasts are sliced, interrupted, repeated or restarted. Along the way speed, radius, energy, momentum and period satisfy the library's own orbit relations.",
  ["schedules","fault_sequences","inputs"],"every pair of circular orbits, and every slicing, interruption, repetition, restart or overshoot of the coasts",
  "Each formula is sampled once and none is flown.",
  [FN,M,A],[("Hohmann",M),("EquationsOfMotion, VisViva",FN),("impulsive_maneuver, step_to_epoch",A)],[("propagator.state","state flown",I)],["current_state()","planned delta-v, velocities and transfer time"])
p("C27","A target handed over as a relative state is the target",
  "A target's relative state, taken by conversion, position query or a new acquisition at any moment of any history and turned back into an inertial state with the observer's state of that moment, however late, repeated or out of order, gives the target's inertial position and velocity at the observer's epoch, for separations up to 85 degrees out of the observer's orbit plane. A spacecraft rebuilt from it flies on as the target does. For a target within 10 km of an observer in circular two-body flight, the relative propagator started from it predicts the relative state over up to 1.5 orbits to second order in the separation.",
  ["schedules","fault_sequences","inputs"],"every pair of orbits, every separation in that range, every history before the handover and every delay, repetition, reordering, interruption or restart before and after it",
  "Conversions are tested for one co-located pair, with zero relative position and without flight.",
  [S,A,H],[("StateConvert.gcrf.to_hcw, StateConvert.hcw.to_gcrf, HCW.frame_matrix",S),("hill_position, acquire",A),("Hill",H)],[("observer state and relative state","captured together",S)],["GCRF and HCW states returned by conversion","hill_position()"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
