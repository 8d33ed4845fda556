#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  usage: python3 nv/props.py"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), level="proof", note="", observe=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((d, level, note))


C = "nyx-core/src/"
prop(
    "P01",
    "State vector conversion loses nothing",
    "Converting a spacecraft to its integration vector and setting a spacecraft from a vector are inverse of each other for position, velocity, reflectivity and drag coefficients (clamped to 0..2 for reflectivity), propellant mass and the transition matrix. Everything the vector does not carry (dry and extra mass, areas, thruster, frame) is left as it was. Constructors and builders set the quantities they name and leave the others; adding a deviation adds component by component; the distance between two states is the norm of their difference. A parameter read by name is that quantity; setting one changes it alone to the value set (the thrust direction staying a unit vector, a distance or speed keeping its direction), and what is derived, or not available, is an error.",
    "every spacecraft state, every 90-element vector, with and without a transition matrix",
    "Tests convert a few hand-picked states; a swapped index or a transposed matrix can hide behind symmetric values.",
    [C + "cosmic/spacecraft.rs"],
    [("to_vector / set / add", C + "cosmic/spacecraft.rs"), ("value / set_value", C + "cosmic/spacecraft.rs"), ("plane_angles_from_unit_vector", C + "dynamics/guidance/mod.rs")],
)
prop(
    "P02",
    "Propagation ends exactly when asked, in the right frame, and can be resumed",
    "Propagating for a duration, or until an epoch, forward or backward, returns a state dated exactly at the requested epoch. The published states advance monotonically by at most one step, end with the returned state, and all are expressed in the frame of the initial state even if the integration runs in another frame. The same propagator instance may be used for further legs in either direction, including after a leg that failed.",
    "every step size, start epoch, duration of either sign, sequence of two legs, and dynamics that fail at any step",
    "Tests propagate a handful of fixed durations, nearly always forward with a fresh instance.",
    [C + "propagators/instance.rs"],
    [("propagate loop", C + "propagators/instance.rs"), ("single_step", C + "propagators/instance.rs"), ("for_duration_with_traj", C + "propagators/instance.rs")],
    over=("inputs", "histories", "fault_sequences"),
    note="One iteration of the propagation loop, from any instance history, is proved for any duration; a leg follows by induction over its iterations (argued, not mechanised). Whole legs are additionally explored up to two full steps plus remainder (bounded).",
)
prop(
    "P03",
    "Adaptive steps respect the tolerance in both directions",
    "An adaptive step is accepted only if its estimated error is within the tolerance, or the step is at the minimum size, or the allowed attempts are used up. Step sizes stay between the configured minimum and maximum, grow only after a step whose error was below the tolerance, and the accepted state is exactly the state obtained with a fixed step of the accepted size. This holds for forward and backward propagation alike.",
    "every dynamics, initial state, tolerance, step bounds, number of attempts (1 to 3) and direction",
    "Tests compare final states of a few orbits; an unenforced tolerance or bound only degrades accuracy silently.",
    [C + "propagators/instance.rs"],
    [("derive", C + "propagators/instance.rs")],
)
prop(
    "P04",
    "Every integration method has the order its name announces",
    "One step of each supported integration method agrees with the exact solution of any smooth differential equation up to the order announced by its name (4, 5, 6, 5, 8 and 9), and its embedded error estimate is of one order less. Each stage is evaluated at its own time, and each method is selected by its own name.",
    "every smooth right-hand side (through the order conditions of all rooted trees) and step size",
    "Tests propagate two-body orbits and compare to a few digits; a slightly wrong coefficient still passes but lowers the order.",
    [C + "propagators/rk_methods/mod.rs", C + "propagators/rk_methods/rk.rs", C + "propagators/rk_methods/dormand.rs", C + "propagators/rk_methods/verner.rs", C + "propagators/instance.rs"],
    [("Butcher tables", C + "propagators/rk_methods"), ("stage evaluation", C + "propagators/instance.rs derive")],
)
prop(
    "P05",
    "Step error metrics follow their definition",
    "Each step error metric is the norm it announces (Euclidean, sum or largest component) of the estimated error, divided by the same norm of the step or of the mean state whenever that exceeds the relative threshold. The Cartesian metrics are the larger of the position and velocity metrics, and reversing the direction of motion changes no metric.",
    "every error estimate, candidate and current state",
    "Tests only observe the final state of a propagation, which barely depends on the metric.",
    [C + "propagators/error_ctrl.rs"],
    [("estimate", C + "propagators/error_ctrl.rs")],
)
prop(
    "P06",
    "Event searches stop at the n-th crossing",
    "Propagating until the n-th occurrence of an event returns a state within the integration step where the event value changes sign for the n-th time, at which the event value, in the requested frame, is the root found; the returned trajectory covers everything from the start to the end of that step. If the event does not occur that many times an error is returned. This holds forward and backward in time.",
    "every sequence of event values over the integration steps, crossing count and direction, with or without an event frame",
    "Tests look for a few orbital events forward in time, all in the frame of the state.",
    [C + "propagators/event.rs", C + "propagators/instance.rs"],
    [("until_nth_event", C + "propagators/event.rs"), ("stop condition", C + "propagators/instance.rs propagate")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: three full integration steps, one to three crossings. The root finder of the almanac library is assumed to return a root of the function it is given inside the bracket.",
)
prop(
    "P07",
    "Trajectories are ordered, free of duplicates, and looked up correctly",
    "A finalized trajectory is strictly chronological and holds each recorded epoch exactly once. Looking up a stored epoch returns the stored state, any other epoch inside the span is interpolated from a window of recorded states that brackets it, and an epoch outside is an error. Filtering, merging, resampling and rebuilding keep exactly the states that their definition asks for.",
    "every set of epochs in any insertion order, every query epoch, every kind of range bound",
    "Tests use long propagated trajectories that are already ordered, and queries far from the ends.",
    [C + "md/trajectory/traj.rs", C + "md/trajectory/traj_it.rs"],
    [("finalize, at, filter_by_epoch, filter_by_offset, add, resample, rebuild", C + "md/trajectory/traj.rs"), ("TrajIterator", C + "md/trajectory/traj_it.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: trajectories of up to 4 symbolic epochs (any order), up to 40 states for the window selection.",
)
prop(
    "P08",
    "Interpolated spacecraft states reproduce smooth motion",
    "Interpolating a spacecraft between recorded states reproduces exactly any motion that is polynomial in time of degree below twice the number of states used, for position and velocity, and reproduces a propellant mass that varies linearly. The state is dated at the requested epoch, no matter which neighbouring state it starts from, and the constant parameters of the spacecraft are unchanged.",
    "every polynomial motion, node epochs, query epoch",
    "Tests compare to propagated orbits with loose tolerances and constant mass.",
    [C + "md/trajectory/interpolatable.rs"],
    [("interpolate", C + "md/trajectory/interpolatable.rs")],
    note="Two nodes at arbitrary epochs (degree 3) and three fixed nodes (degree 5) for every query; thirteen nodes (degree 7) at three query epochs only (bounded).",
)
prop(
    "P09",
    "Equations of motion are the sum of their models",
    "The acceleration of a spacecraft is exactly the central body attraction of its frame plus the sum of the configured acceleration models plus the sum of the configured forces divided by its current total mass, all evaluated at the epoch and state of the integration stage; the position rate is the velocity and all other parameters are constant without guidance. A spacecraft without mass subject to forces, or a frame without gravitational data, is an error.",
    "every stage state, epoch offset, mass, and any value of up to two acceleration and two force models",
    "Tests compare a few propagated orbits to reference software to meters; a model counted twice or evaluated at the wrong epoch is often below the tolerance.",
    [C + "dynamics/spacecraft.rs", C + "dynamics/orbital.rs"],
    [("SpacecraftDynamics::eom", C + "dynamics/spacecraft.rs"), ("OrbitalDynamics::eom", C + "dynamics/orbital.rs")],
    level="other",
    note="Bounded: up to two models of each kind (the loops over the models are unrolled).",
)
prop(
    "P10",
    "Thrust and propellant consumption are consistent",
    "Under a guidance law, the spacecraft acceleration includes throttle times thrust divided by the total mass along the commanded direction, and the propellant rate is minus throttle times thrust over exhaust velocity (or zero if mass depletion is disabled); propellant never increases. A throttle outside of zero to one, a direction that is not a unit vector, a missing thruster and exhausted propellant are errors. After each step the guidance law chooses the mode and the thrust direction of the spacecraft is recorded only when it thrusts.",
    "every state, thruster, throttle and direction commanded by an arbitrary guidance law, any guidance mode",
    "Tests run a few orbit raising cases and check the final propellant mass.",
    [C + "dynamics/spacecraft.rs", C + "dynamics/guidance/mod.rs"],
    [("eom, finally", C + "dynamics/spacecraft.rs"), ("exhaust_velocity_m_s", C + "dynamics/guidance/mod.rs")],
)
prop(
    "P11",
    "Perturbation models implement their physical law",
    "Solar pressure pushes away from the Sun with flux over light speed, scaled by the inverse squared distance in AU, reflectivity, area and lit fraction. Each third body contributes its direct and indirect attraction, the central body none. Drag opposes the velocity relative to the drag frame with half density, drag coefficient, area and squared speed, for the constant, exponential and standard atmosphere. The partials of solar pressure and third bodies are the exact derivatives of these accelerations.",
    "every spacecraft state, body positions and gravitational parameters, lit fraction, frame rotation, model parameter",
    "Tests check a few scenarios against reference software with tolerances that hide wrong units or partials in some regimes.",
    [C + "dynamics/solarpressure.rs", C + "dynamics/orbital.rs", C + "dynamics/drag.rs"],
    [("SolarPressure::eom/gradient", C + "dynamics/solarpressure.rs"), ("PointMasses::eom/gradient", C + "dynamics/orbital.rs"), ("Drag::eom", C + "dynamics/drag.rs")],
)
prop(
    "P12",
    "The state transition matrix is integrated with the true Jacobian",
    "When the transition matrix is propagated, its rate is the Jacobian of the equations of motion at the stage times the transition matrix at that stage. The Jacobian is that of the central attraction, plus the gradient of every acceleration model, plus the gradient of every force divided by the mass, including the column of the estimated parameter. The trajectory is the same as without the transition matrix.",
    "every stage state and transition matrix, any gradients of up to two acceleration and two force models",
    "Tests compare the matrix to finite differences for a few orbits with loose tolerances.",
    [C + "dynamics/spacecraft.rs", C + "dynamics/orbital.rs"],
    [("eom, dual_eom", C + "dynamics/spacecraft.rs"), ("dual_eom", C + "dynamics/orbital.rs")],
    level="other",
    note="Bounded: up to two models of each kind (the loops over the models are unrolled).",
)
prop(
    "P13",
    "Guidance laws steer as specified",
    "A finite-burn maneuver thrusts exactly from its start to its end, at its thrust level, along its direction (constant, or azimuth and elevation polynomials) rotated from its local frame to inertial. Ruggiero and Kluever steering for one objective on semi-major axis, eccentricity, inclination or node is the optimal direction that moves the element towards its target, and for two objectives the weighted blend of both directions, with no thrust within tolerance, below the efficiency threshold, in excessive eclipse, or when inhibited. Replaying the thrust profile of a trajectory commands, at full throttle, the direction of the last sample at or before the epoch (of the next one that has a direction, if that sample thrusts without), coasts before the first and after the last sample and where the sample coasts, and is achieved only after the last sample.",
    "every state, maneuver, objective, tolerance, threshold, eclipse and guidance mode",
    "Tests run a few transfers to convergence; suboptimal steering or a missed burn boundary still converges.",
    [C + "dynamics/guidance/mnvr.rs", C + "dynamics/guidance/ruggiero.rs", C + "dynamics/guidance/kluever.rs", C + "dynamics/guidance/mod.rs", C + "dynamics/guidance/replay.rs", C + "polyfit/polynomial.rs"],
    [("Maneuver", C + "dynamics/guidance/mnvr.rs"), ("Ruggiero", C + "dynamics/guidance/ruggiero.rs"), ("Kluever", C + "dynamics/guidance/kluever.rs"), ("ThrustDirectionReplay", C + "dynamics/guidance/replay.rs")],
    note="Replay profiles are bounded to three samples.",
)
prop(
    "P14",
    "Gravity fields and tides derive from their potential",
    "The acceleration of a gravity field is the gradient of the potential of its normalised coefficients up to the chosen degree and order, rotated from the body-fixed to the integration frame, and its partials are the exact derivatives of that acceleration. Solid tides act as the field of the degree two and three tidal coefficients of the IERS conventions, added over the tide raising bodies.",
    "every position, coefficient, gravitational parameter, radius, rotation and tide raising body position",
    "Tests propagate with a few real fields and compare to meters.",
    [C + "dynamics/gravity_field.rs", C + "dynamics/solid_tides.rs"],
    [("GravityField::new/eom/gradient", C + "dynamics/gravity_field.rs"), ("SolidTides::eom/gradient", C + "dynamics/solid_tides.rs")],
    level="other",
    note="Each coefficient up to degree 8 (bounded in the degree); sums of coefficients up to degree 3.",
)
prop(
    "P15",
    "Kalman filter updates are the optimal linear ones",
    "The time update propagates the covariance as \u03a6 P \u03a6\u1d40 plus the process noise of the interval, and the deviation as \u03a6 x when the reference is not updated. The measurement update uses the gain K with K S = P H\u1d40, S = H P H\u1d40 + R, corrects the deviation by the gain times the innovation, and gives the minimum variance covariance P \u2212 K H P, symmetric. Prefits are observed minus computed, postfits use the deviation, and the ratio is the root mean square of the prefit whitened by S. A measurement whose ratio is above the threshold is flagged rejected and leaves exactly the time update. A state without transition matrix is refused and leaves the filter untouched. Estimates are the nominal state plus the deviation; residuals are accessed by measurement type.",
    "every covariance, deviation, transition matrix, sensitivity, noise and observation, both filter variants, one or two simultaneous observables",
    "Tests filter a few simulated arcs and check convergence; a suboptimal gain or a wrong covariance still converges.",
    [C + "od/kalman/filtering.rs", C + "od/kalman/initializers.rs", C + "od/estimate/kfestimate.rs", C + "od/estimate/residual.rs"],
    [("KalmanFilter::time_update / measurement_update", C + "od/kalman/filtering.rs"), ("KfEstimate", C + "od/estimate/kfestimate.rs"), ("Residual", C + "od/estimate/residual.rs")],
)
prop(
    "P16",
    "Process noise enters the covariance as the state noise compensation model",
    "Acceleration noise, constant or exponentially decaying since the initial epoch, adds to the propagated covariance of both time and measurement updates the matrix \u0393 Q \u0393\u1d40 with \u0393 = (\u0394t\u00b2/2, \u0394t) of the interval since the previous estimate, the variances being rotated from their local frame (if any) to the inertial axes. It is added only from its start time on, and only if neither the interval nor the time since its previous use exceeds the disable time. Of several process noises the last applicable one is used, alone.",
    "every noise variance, decay constant, disable time, start time, interval and state; one or two process noises, used once or twice",
    "Tests use constant noise along a couple of arcs, never crossing the disable time or start time.",
    [C + "od/snc.rs", C + "od/kalman/filtering.rs"],
    [("ProcessNoise::to_matrix / propagate", C + "od/snc.rs"), ("time_update", C + "od/kalman/filtering.rs")],
    note="Rotated noise: the local frame is decided for planar position and velocity.",
)
prop(
    "P17",
    "Orbit determination applies every measurement once, in order, at its epoch",
    "Processing a tracking arc records a time update at each navigation step and one update per group of simultaneous observables of each measurement, each dated at its epoch, with the nominal state from the dynamics and the transition matrix since the previous update. Each update is the filter's update with that tracker's computed observation, sensitivity, noise and bias; ambiguous observations are first shifted by the whole number of moduli that brings them closest to the computed one. Measurements manually rejected or from an arc flagged force-reject only do a time update. Those of unknown or blind trackers are skipped. With reference update, the following leg starts from the corrected state. Fewer than two measurements are refused. Predictions do time updates up to exactly the requested epoch.",
    "every initial estimate, epochs and values of two measurement epochs, tracker model, threshold, modulus, process noise, and prediction span up to three steps",
    "Tests run simulated arcs end to end and look at the final error; a skipped, duplicated, mistimed or mis-signed update is absorbed by the filter.",
    [C + "od/process/mod.rs", C + "od/process/solution/mod.rs", C + "od/process/rejectcrit.rs"],
    [("KalmanODProcess::process_arc / predict_until / predict_for", C + "od/process/mod.rs"), ("ODSolution::push_*", C + "od/process/solution/mod.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: arcs of two measurement epochs, each up to two navigation steps after the previous one; uniform motion; arbitrary (uninterpreted) tracker.",
)
prop(
    "P18",
    "Simulated and computed observations are consistent with the tracking geometry",
    "A ground station in one-way mode observes the range, range rate, azimuth and elevation of the receiver at its epoch (with light time if configured); in two-way mode the average over the integration interval (angles averaged across north), only if the receiver is above the mask and unobstructed at both ends, and never past the ends of the trajectory. An object below the mask, or hidden by its own central body, gives no measurement. Noise is the sampled noise of each type, added once (the two-way sum scaled by 1/\u221a2), and the timestamp noise offsets the epoch. Inter-spacecraft links do the same from the relative position and velocity. The sensitivity rows are the exact derivatives of those observables with respect to the estimated position and velocity, zero for types missing from the measurement; covariances and biases reported are the configured ones.",
    "every receiver and station geometry, epoch, integration time, mask, noise value, measurement types subset and order, measured value",
    "Tests run a few passes end to end; sensitivities are only seen through filter convergence.",
    [C + "od/ground_station/mod.rs", C + "od/ground_station/trk_device.rs", C + "od/interlink/trk_device.rs", C + "od/interlink/sensitivity.rs", C + "od/msr/sensitivity.rs", C + "od/msr/measurement.rs", C + "od/noise/mod.rs"],
    [("TrackingDevice for GroundStation", C + "od/ground_station/trk_device.rs"), ("TrackingDevice for InterlinkTxSpacecraft", C + "od/interlink/trk_device.rs"), ("ScalarSensitivity::new", C + "od/msr/sensitivity.rs"), ("StochasticNoise", C + "od/noise/mod.rs")],
    note="Assumed: the azimuth-elevation-range computation, line of sight and frame transformations of ANISE. The angle partials are decided for a station on the equator in three orientations of the body axes.",
)
prop(
    "P19",
    "Tracking arcs keep, select and split measurements without loss or change",
    "Sorting or adding arcs gives chronological measurements with one record per tracker and epoch, holding every observable it was given and rejected if any part was. Filtering and excluding by epoch, offset from the first measurement, tracker or type keeps exactly the measurements (or observables) selected, with inclusive, exclusive or absent bounds honoured, in order, unmodified, with their rejection flags, source, moduli and force-reject flag. Rejecting by epoch or tracker flags exactly those. Chunks partition the arc in order, none longer than the maximum duration, each as long as possible. Start, end, duration, smallest separation and lists of trackers and types are those of the measurements. Applying moduli removes a whole number of moduli from each observable having one. Measurements of different type, tracker, epoch or value are not equal.",
    "every epoch, value, bound and duration, in every order; arcs of up to four measurements, two trackers, two types",
    "Tests filter one long simulated arc with a few bounds that never coincide with a measurement.",
    [C + "od/msr/trackingdata/mod.rs", C + "od/msr/measurement.rs"],
    [("TrackingDataArc", C + "od/msr/trackingdata/mod.rs"), ("Measurement", C + "od/msr/measurement.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: arcs of up to four measurements.",
)
prop(
    "P20",
    "OD solutions are selected, merged, smoothed and assessed record by record",
    "Selecting from an orbit determination solution by tracker or measurement type, excluding a tracker, dropping time updates or splitting per tracker and type keeps exactly those records, in order, each with its own estimate, residual, gain and smoother ratio. Merging gives all records of both in chronological order. Looking up an epoch gives its record, or none. The trajectory has the estimated states. RMS of residuals are over the residuals; the fraction within a threshold, the accepted and rejected residuals are exact; NIS sums the whitened residuals of the accepted ones and NEES the estimation errors weighted by the inverse covariance, against the two-sided chi-square bounds with their degrees of freedom. Smoothing keeps records, epochs, observations, prefits and the last estimate, maps the last estimate and covariance back to the preceding record, and recomputes each postfit from the smoothed estimate of its own epoch.",
    "every epoch, estimate, residual, threshold and kind of record; solutions of up to five records",
    "Tests process a few arcs and print these statistics or compare aggregates.",
    [C + "od/process/solution/filter_data.rs", C + "od/process/solution/stats.rs", C + "od/process/solution/smooth.rs", C + "od/process/solution/mod.rs", C + "od/estimate/residual.rs"],
    [("ODSolution", C + "od/process/solution/mod.rs"), ("ODSolution::smooth", C + "od/process/solution/smooth.rs"), ("ODSolution::merge", C + "od/process/solution/filter_data.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: solutions of up to five records, NEES with uncorrelated covariances.",
)
prop(
    "P21",
    "Simulated tracking follows the strands, the sampling and the schedule",
    "Simulating tracking data asks each configured tracker for one measurement at the start of each of its strands and then at every multiple of its sampling up to and including the end, on the provided trajectory and with the provided random generator; a failed measurement ends its strand only. The arc has exactly the visible measurements, unaltered and in chronological order. The same seed gives the same data; successive simulations continue the random sequence. A configuration without strands or scheduler, with both, with an empty list or with a strand shorter than its sampling is not usable, and measurements are refused until the schedule is built. A schedule has one strand per visibility pass of each scheduled station, from rise to set rounded to the alignment, without the passes that are too short; an intermittent station is on for at most, and off for at least, its configured times; when two consecutive strands overlap a greedy station keeps its strand and delays the next one by one sample, an eager one stops one sample before the next one, and overlapping ones are left; stations with given strands keep them.",
    "every strand, rise and set time, cadence and handoff; one or two trackers, strands of up to three samples, up to three passes or stations",
    "The integration tests run two schedules against files of their own output.",
    [C + "od/simulator/arc.rs", C + "od/simulator/trkconfig.rs", C + "od/simulator/scheduler.rs"],
    [("TrackingArcSim", C + "od/simulator/arc.rs"), ("TrkConfig::sanity_check", C + "od/simulator/trkconfig.rs"), ("Strand", C + "od/simulator/trkconfig.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: up to two strands per tracker, three samples per strand, three passes; visibility passes are assumed from the almanac.",
)
prop(
    "P22",
    "A targeter solution meets its objectives from its reported corrected state",
    "When a targeter (finite difference or hyperdual) returns a solution, propagating its corrected state to the achievement epoch gives its achieved state, which meets every objective within its tolerance after its weights, and the reported errors are those. The corrected state is the initial state propagated to the correction epoch plus the reported total correction, in the correction frame if there is one. Otherwise an error is returned; the number of iterations is respected. Variables with invalid bounds, positions corrected in a local frame, finite burns without a thruster or given to the hyperdual targeter are refused. Applying a solution returns the propagated state and trajectory if and only if the objectives are met in the objective frame, else an error. Bounding a variable gives the nearest value in bounds. Straight-line multiple shooting nodes are evenly spaced in space and time and end at the destination; a multiple shooting solution is a chain of segments, each starting where the previous one ends and reaching its node.",
    "every initial state, target, miss distance and any dynamics; one to three variables and objectives, up to four iterations",
    "Targeter tests solve a few concrete problems that need ephemerides and look at the size of the correction.",
    [C + "md/opti/raphson_finite_diff.rs", C + "md/opti/raphson_hyperdual.rs", C + "md/opti/targeter.rs", C + "md/opti/target_variable.rs", C + "md/objective.rs", C + "md/opti/multipleshooting/multishoot.rs", C + "md/opti/multipleshooting/equidistant_heuristic.rs"],
    [("Targeter::try_achieve_fd", C + "md/opti/raphson_finite_diff.rs"), ("Targeter::try_achieve_dual", C + "md/opti/raphson_hyperdual.rs"), ("Targeter::apply_with_traj", C + "md/opti/targeter.rs"), ("Objective::assess_value", C + "md/objective.rs"), ("MultipleShooting::solve", C + "md/opti/multipleshooting/multishoot.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: up to four iterations; arbitrary accelerations for one variable, free drift for several. Finite burn targeting is not covered.",
)
prop(
    "P23",
    "Monte Carlo runs: requested dispersions, reproducible, each from its own draw",
    "A state drawn by the multivariate generator is its template plus the mean plus the square root of the covariance times independent standard normal draws, on position, velocity, Cr, Cd and propellant mass; everything else is the template's, and the template plus each reported dispersion is the drawn state. The square root is such that the covariance and mean of the draws are the requested ones: those of each dispersed variable, of each dispersed orbital element to first order, or the given covariance; what is not a state variable and covariances with negative eigenvalues are refused. The states of a run are determined by its seed, number n is the n-th draw and a resumed run continues the same sequence; there is one result per run, in order, and it is the propagation of its own dispersed state to the epoch or to the n-th event, with its own trajectory, or that propagation's error. Reports give one value per state in the order of the runs, and the filler, if any, for failed runs or unavailable parameters.",
    "every template, mean, covariance root and drawn state; any acceleration in the propagation",
    "Statistical tests look at the frequency of large deviations for a few seeds with a wide margin, and the framework tests need ephemerides.",
    [C + "mc/multivariate.rs", C + "mc/montecarlo.rs", C + "mc/results.rs", C + "mc/helpers.rs", C + "mc/generator.rs", C + "mc/dispersion.rs"],
    [("MvnSpacecraft::new", C + "mc/multivariate.rs"), ("MvnSpacecraft::sample", C + "mc/multivariate.rs"), ("MonteCarlo::generate_states", C + "mc/montecarlo.rs"), ("MonteCarlo::resume_run_until_epoch", C + "mc/montecarlo.rs"), ("Results::every_value_of", C + "mc/results.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: standard normal draws of a few seeds, up to three runs, rayon on one thread; dispersed orbital elements on three orbits only, within the accuracy of nalgebra's SVD.",
)
prop(
    "P24",
    "Batch least squares solves the normal equations mapped to the batch epoch",
    "Each iteration of the batch least squares estimator uses every observation of every measurement that is not rejected and whose tracker is known and sees the vehicle, including several at the same epoch and those at the epoch of the estimate, once each: residual against the state propagated from the current estimate, sensitivity times the state transition matrix from the epoch of the estimate to that of the measurement, weight one over the noise variance. The correction solves the normal equations (with the identity as regularisation), or the damped ones of Levenberg-Marquardt, which only steps from an estimate that decreased the residuals. The covariance is the inverse of the information matrix, the RMS that of the weighted residuals over the number of usable measurements (also when only evaluating a state), and converged means that the last position correction is below the tolerance; iterations stop there or at their maximum. Fewer than two usable measurements are refused.",
    "every initial guess, observation, observation function, sensitivity, noise, tolerance and damping",
    "The batch estimator tests need ephemerides and look at the final error of one scenario.",
    [C + "od/blse/mod.rs", C + "od/blse/solution.rs"],
    [("BatchLeastSquares::estimate", C + "od/blse/mod.rs"), ("BatchLeastSquares::evaluate", C + "od/blse/mod.rs"), ("KfEstimate::from", C + "od/blse/solution.rs")],
    over=("inputs", "histories"),
    level="other",
    note="Bounded: arcs of up to three measurements, two observables that see one component each, up to two iterations, uniform motion as dynamics.",
)
prop(
    "P25",
    "Estimates carry the uncertainties they were built from, in every coordinate",
    "An estimate built from a covariance, a diagonal, or standard deviations starts at the given nominal state with zero deviation, identity state transition matrix and exactly that covariance; negative uncertainties are refused; position uncertainties given in a local orbital frame are rotated to the inertial one, those of the parameters are not. The estimated state is nominal plus deviation. An estimate is within k sigma iff every component of its deviation is within k times the square root of its variance. The sigma of an orbital element, and the covariance of the Keplerian elements, are those of the first-order variation of the element with the position and velocity. Scaling an estimate scales its sigmas. Random estimates are drawn from their own covariance, reproducibly for a seed. What is printed as sigmas are standard deviations.",
    "every nominal state, covariance, deviation, bound, set of standard deviations and orbital element with partials",
    "Unit tests evaluate one orbit and one covariance.",
    [C + "od/estimate/kfestimate.rs", C + "od/estimate/mod.rs", C + "od/estimate/sc_uncertainty.rs"],
    [("SpacecraftUncertainty::to_estimate", C + "od/estimate/sc_uncertainty.rs"), ("KfEstimate::sigma_for", C + "od/estimate/kfestimate.rs"), ("KfEstimate::keplerian_covar", C + "od/estimate/kfestimate.rs"), ("Estimate::within_sigma", C + "od/estimate/mod.rs")],
    level="other",
    note="Bounded (concrete): local frames, Keplerian covariance and random estimates on three orbits. One known finding: local frame uncertainties are rotated the wrong way (value pinned by a unit test).",
)
prop(
    "P26",
    "The B-plane of a hyperbola is the impact plane, and targeting it achieves it",
    "The B-plane exists exactly for hyperbolic orbits (anything else is refused). Its axes S, T, R are orthonormal and right-handed, S along the incoming asymptote and T in the reference equator; B.T and B.R are the components of the vector whose norm is the angular momentum over the excess velocity and whose cross product with the excess velocity is the angular momentum; magnitude and angle follow. The partials of B.T and B.R are their derivatives, and the two-component Jacobian drops the column of the fixed velocity component. A delta-v returned by the B-plane targeter leads, when applied, to the reported B-plane, within the tolerances of both targets, along the least-norm direction; the objectives built from a target ask for its values.",
    "every hyperbolic orbit and target",
    "Tests evaluate two B-planes against a reference tool.",
    [C + "cosmic/bplane.rs"],
    [("BPlane::from_dual", C + "cosmic/bplane.rs"), ("BPlane::jacobian", C + "cosmic/bplane.rs"), ("try_achieve_b_plane", C + "cosmic/bplane.rs")],
    level="other",
    note="Symbolic for orbits at periapsis of any size and energy in two planes; other geometries, partials and targeting on four concrete hyperbolas against an independent oracle (bounded). The linearised time of flight is not claimed.",
)
prop(
    "P27",
    "A Lambert solution connects both positions in the time of flight, the way asked",
    "When a Lambert solver (Gooding or Izzo) returns a solution, two-body motion from the first position with the departure velocity reaches the second position after the time of flight, with the arrival velocity; it turns the requested way (short or long, prograde for Auto) in less than one revolution, or with exactly the requested number of revolutions, whatever the orientation of the transfer plane. Solutions are finite: collinear radii that define no plane, null or negative times of flight, too many revolutions, states in different frames or without gravitational parameter are refused. The v-infinity vectors, C3, asymptote angles and the transfer and arrival orbits are those of the solution.",
    "every pair of positions, time of flight, gravitational parameter and kind of transfer",
    "Unit tests compare one planar example of the literature.",
    [C + "tools/lambert/mod.rs", C + "tools/lambert/godding.rs", C + "tools/lambert/izzo.rs"],
    [("gooding", C + "tools/lambert/godding.rs"), ("izzo", C + "tools/lambert/izzo.rs"), ("TransferKind::direction_of_motion", C + "tools/lambert/mod.rs")],
    level="other",
    note="The iterative solvers are checked on a grid of geometries, times of flight and kinds against an independent universal-variable propagation (bounded, not proved); the bookkeeping of the solution is proved for all inputs.",
)
prop(
    "P28",
    "Ground assets keep their geodetic motion, and are measured where they are",
    "The vector of a ground asset holds latitude, longitude, height and their rates, and setting a state from a vector restores it; the Jacobian of its conversion to body-fixed position and velocity is the exact partial derivatives of that conversion. A velocity given as south, east, up is the one read back and is that of the position. A ground asset propagates at constant geodetic rates, forward or backward, and its state transition matrix is that of this motion. Between two states of a ground trajectory the asset is interpolated through both positions and rates. The great circle distance is the central angle times the equatorial radius. A transmitter above the elevation mask (at both ends of the integration for two-way measurements, whose values are averaged) yields range and range rate of that geometry plus the noise of the device for each of its measurement types, and no measurement otherwise. The sensitivity of the range is its derivative with respect to the coordinates of the asset, in the frame of the asset.",
    "every geodetic coordinate, velocity, transmitter, elevation mask and noise",
    "No unit test covers sensitivities or the state transition matrix; one scenario runs end to end.",
    [C + "od/groundpnt/mod.rs", C + "od/groundpnt/ground_dynamics.rs", C + "od/groundpnt/sensitivity.rs", C + "od/groundpnt/trk_device.rs"],
    [("GroundAsset::geodetic_to_cartesian_jacobian", C + "od/groundpnt/mod.rs"), ("GroundDynamics::eom", C + "od/groundpnt/ground_dynamics.rs"), ("ScalarSensitivityT::new", C + "od/groundpnt/sensitivity.rs")],
    note="The sensitivity of the Doppler of a ground asset is not claimed.",
)
prop(
    "P29",
    "A mission sequence executes its phases in order, with their events and thrusters",
    "A mission sequence started at the epoch of one of its phases returns one trajectory per enabled phase from there until the termination (or until the phase it is asked to stop at), named after the phase: each starts at the state and epoch where the previous one ended, after the entry event of the phase has been applied exactly once, and ends at the epoch of the next enabled phase, as if disabled phases were not in the sequence. A staging event subtracts the given masses, areas and coefficients, a docking event adds them, the impulsive maneuver of either changes the velocity by that vector in the local frame of the maneuver, and a swap of the central body re-expresses the same motion from the new one. A phase uses the integrator, options and models of the propagator it names, and nothing of the other phases: a guided phase thrusts with the thrusters it names under its own steering law, consuming propellant unless disabled, and the next phase coasts unless it is guided. A sequence is valid exactly if its last phase is a termination and every phase refers to existing propagators and thrusters; an invalid one is not set up.",
    "every initial spacecraft, phase epochs, event, maneuver, mass property and selection of enabled phases",
    "The repository's sequence tests are all ignored.",
    [C + "dynamics/sequence/mod.rs", C + "dynamics/sequence/config.rs", C + "dynamics/sequence/discrete_event.rs", C + "dynamics/guidance/mnvr.rs"],
    [("SpacecraftSequence::propagate", C + "dynamics/sequence/mod.rs"), ("SpacecraftSequence::validate", C + "dynamics/sequence/mod.rs"), ("PropagatorConfig::build", C + "dynamics/sequence/config.rs")],
    note="Sequences of three phases of one integration step each.",
)
prop(
    "P30",
    "Position devices measure the configured components of the position",
    "A position device measures exactly the components X, Y, Z of the position it is configured for, each with the value of that component of the state of the trajectory at the epoch plus, if noise is requested, the noise configured for that very type, in the order of configuration; the measurement carries the epoch of the state and the name of the device. Its covariance and bias are those of the noise of the type, null for a device without noises. The sensitivity of a component is one with respect to that component of the position and zero otherwise, and zero for a type missing from the measurement. Types it cannot measure, and noises that are not configured, are errors, not values.",
    "every spacecraft, epoch, noise and order of measurement types",
    "One test filters with all three components in order; other orders and subsets are never run.",
    [C + "od/position/mod.rs", C + "od/position/trk_device.rs", C + "od/position/sensitivity.rs"],
    [("PositionDevice::measure_instantaneous", C + "od/position/trk_device.rs"), ("ScalarSensitivityT::new", C + "od/position/sensitivity.rs")],
)
prop(
    "P31",
    "Trajectory conversions keep every state and sample what is asked",
    "Converting a trajectory to another frame returns one state per state, in order: its orbit is the frame transformation of the original at its own epoch, and masses, coefficients, guidance mode and thruster are those of the original; an empty trajectory is an error. Exporting to an ephemeris gives every state as it is, or, when a start, end or step is given, the trajectory interpolated at that step from the start to the end, both defaulting to those of the trajectory and the step to one minute. Building a trajectory from an ephemeris kernel samples the target as seen from the observer at the requested step over the requested span, both ends defaulting to those of the kernel, with everything else of the template.",
    "every state, transformation, start and end",
    "Tests convert one trajectory and look at its ends.",
    [C + "md/trajectory/sc_traj.rs"],
    [("Traj::to_frame", C + "md/trajectory/sc_traj.rs"), ("Traj::to_ephemeris", C + "md/trajectory/sc_traj.rs"), ("Traj::from_bsp", C + "md/trajectory/sc_traj.rs")],
    note="Trajectories of three states; the transformation of ANISE is uninterpreted.",
)
prop(
    "P32",
    "Vector, angle and error utilities satisfy their defining identities",
    "The tilde matrix of a vector times another vector is their cross product. The elementary rotation matrices are proper rotations about their axis by their angle, and rotating a vector about an axis keeps its length and its component along the axis and is Rodrigues' rotation. A vector is the sum of its projection on another, parallel to it, and of its perpendicular part, orthogonal to it; the unit vector has length one and the same direction; null vectors give null vectors. Wrapping an angle keeps it modulo a turn (or twice the bound) and returns it in [0, 360), [-180, 180] or the bounds. Denormalizing inverts normalizing, which maps the bounds to minus and plus one. The RSS of errors is the root of the sum of squares of the differences, of positions and velocities separately for orbits. Spherical coordinates are range, azimuth in the xy plane and polar angle from z, and convert back. The pseudo inverse is a right inverse of a wide matrix and a left inverse of a tall one, and an error when singular. Eigenvalues are stable exactly if none has a positive real part.",
    "every vector, angle, bound and matrix",
    "Tests sample a few vectors and angles.",
    [C + "utils.rs"],
    [("rotv", C + "utils.rs"), ("between_pm_x", C + "utils.rs"), ("projv/perpv", C + "utils.rs"), ("rss_errors", C + "utils.rs")],
    note="Pseudo inverses of 2x3 and 3x2 matrices.",
)
prop(
    "P33",
    "What is written to a file is what is read back",
    "A trajectory written to parquet with its Cartesian and guidance fields and read back has the same states: epoch, position, velocity, frame, dry and propellant mass, guidance mode, thrust direction and thruster; with a start, end or step it holds the trajectory interpolated there. A tracking arc written to parquet and read back has the same measurements: epoch, tracker, exactly the measured types with their values; a start, end or step selects the measurements of that span and no other. An arc written as CCSDS TDM and read back has every measured value once, with its tracker (through the aliases), epoch, type and range modulus, in chronological order. A TDM is read in its own time system; two-way ranges and Dopplers are halved, angles are not; its corrections are added unless already applied; received frequencies become range rates of the ramped transmit frequency, and are dropped without one. A trajectory written as CCSDS OEM reads back to the same states. An orbit determination solution written to parquet and read back has the same nominal states, covariances, residuals, ratios, gains, smoother ratios, rejections and trackers, for all of it or for the requested span; the RIC uncertainties in the file are those of the covariance rotated to the RIC frame.",
    "every value of the states, measurements, covariances and residuals (parquet); given values (text formats)",
    "Tests write files of one scenario and rarely compare what is read back.",
    [C + "md/trajectory/sc_traj.rs", C + "od/msr/trackingdata/io_parquet.rs", C + "od/msr/trackingdata/io_ccsds_tdm.rs", C + "od/process/solution/export.rs", C + "od/process/solution/import.rs"],
    [("Traj::to_parquet / from_parquet", C + "md/trajectory/sc_traj.rs"), ("TrackingDataArc::to_parquet", C + "od/msr/trackingdata/io_parquet.rs"), ("TrackingDataArc::from_tdm", C + "od/msr/trackingdata/io_ccsds_tdm.rs"), ("ODSolution::to_parquet", C + "od/process/solution/export.rs")],
    level="other",
    note="Files of three or four records at given epochs (microsecond accuracy); values are symbolic through the parquet writers and readers, concrete through the text formats (bounded).",
)
prop(
    "P34",
    "Noise models give the noise they are configured for",
    "A white noise sample is its mean plus its standard deviation times one standard normal draw, and its variance the square of the deviation, whatever the epoch; noise given per integration time is divided by it, and negative noises and non-positive integration times are refused. A Gauss-Markov bias starts with a draw of its process noise; later samples are that draw decayed by exp(-dt/tau) since the previous sample, plus a draw whose deviation grows from zero to q tau/2 with the same time constant, plus its constant; its variance is the square of its process noise and non-positive time constants are refused. The noise of an observable is the sum of both, and so is its variance; scaling multiplies the deviations only. Noises from hardware characteristics have the variance of the clock plus that of the thermal noise, and the named links, bands and chip rates are the documented ones. The simulation of a noise has the documented sample times.",
    "every mean, deviation, time constant, constant, scale, sample times, Allan deviation, integration time, frequency and signal to noise ratio",
    "Tests sample one seeded process and a few presets.",
    [C + "od/noise/mod.rs", C + "od/noise/white.rs", C + "od/noise/gauss_markov.rs", C + "od/noise/link_specific.rs"],
    [("StochasticNoise", C + "od/noise/mod.rs"), ("WhiteNoise", C + "od/noise/white.rs"), ("GaussMarkov", C + "od/noise/gauss_markov.rs"), ("from_hardware_range_km", C + "od/noise/link_specific.rs")],
    note="The draws are those of the seeded generator of rand (trusted): the check draws the same ones. The Gauss-Markov recursion is the implemented one, pinned by a unit test. The presets and the simulation are checked on given values (bounded).",
)
prop(
    "P35",
    "Configurations survive serialization",
    "Spacecraft, thrusters, ground stations, noise models, tracking configurations, schedulers, cadences, handoffs and strands encoded as ASN.1 DER have exactly the announced length and decode to the same value, whichever optional parts are present. Spacecraft, stations, noise models, tracking configurations, rejection criteria and mission sequences written as YAML, alone, in a list or in a map, load as the same values, in the same order and under the same names; a missing file is an error.",
    "every combination of optional parts, modes, time scales, cadences and handoffs; given numerical values",
    "Tests encode one default object of some types; optional parts, bits and branches of the format are not combined.",
    [C + "io/mod.rs", C + "cosmic/spacecraft.rs", C + "od/ground_station/mod.rs", C + "od/noise/mod.rs", C + "od/noise/gauss_markov.rs", C + "od/simulator/trkconfig.rs", C + "od/simulator/scheduler.rs", C + "dynamics/guidance/mod.rs", C + "dynamics/sequence/mod.rs"],
    [("ConfigRepr", C + "io/mod.rs"), ("Encode / Decode for GroundStation", C + "od/ground_station/mod.rs"), ("Encode / Decode for Spacecraft", C + "cosmic/spacecraft.rs"), ("Encode / Decode for TrkConfig", C + "od/simulator/trkconfig.rs"), ("Encode / Decode for Scheduler", C + "od/simulator/scheduler.rs")],
    level="other",
    note="Bounded: the digits of numbers are given values, because the formats look at them; all branches of the formats are enumerated.",
)
#MORE

TECH = "contract-based deductive verification: pre/postconditions on the compiled code, obligations from symbolic execution of the current tree discharged by ring normaliser / Z3 / cvc5"
NOTE = "Every obligation generated from the current tree's own IR is discharged for all inputs in the stated ranges; f64 arithmetic treated as real arithmetic; divisors assumed non-zero; assumed contracts on the almanac listed in the evidence. "
NA = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
        for d, _ in NA:
            f.write(json.dumps(d) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash nv/build.sh",
        "hooks": {"guard": "cfg(nyx_verif)", "enable": "RUSTFLAGS=--cfg nyx_verif (set by nv/build.sh)", "source_commits": HOOKS},
        "checks": [
            {"property": d["id"], "quick_cmd": f"python3 check.py {d['id']} quick", "thorough_cmd": f"python3 check.py {d['id']} thorough", "technique": TECH, "level": l, "level_note": NOTE + n, "evidence_file": f"evidence/{d['id']}.json"}
            for d, l, n in P
        ],
        "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA],
        "notes": "One engine (nv) for all properties; see DESIGN.md. Genuine defects that were found and repaired are listed in known_findings.json.",
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


HOOKS = ["602232c"]
main()
