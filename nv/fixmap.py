#!/usr/bin/env python3
"""Records the repaired defects ("fixed" list of known_findings.json) from the fix: commits of /repo."""
import json, subprocess

M = {
    "apply the error tolerance when propagating backward": ("P03", "backward adaptive propagation accepted every step regardless of the tolerance"),
    "restore the step direction when a propagator": ("P02", "a propagator instance whose backward leg ended early could not land on later legs"),
    "LargestError is relative": ("P05", "LargestError used the absolute error for decreasing components"),
    "restore the step size and kind when the last": ("P02", "after a failure in the last step, the instance kept the remainder as a fixed step"),
    "publish and return states in the initial frame": ("P02", "with an integration frame, published states (and the state at a stop condition) were in the integration frame"),
    "event search when propagating backward": ("P06", "event search backward searched the wrong bracket; the event frame was ignored by the root search"),
    "remove all duplicate epochs": ("P07", "duplicate epochs survived finalize when not adjacent"),
    "interpolate the propellant mass from": ("P08", "interpolated propellant mass started from the wrong state"),
    "honour excluded bounds when filtering a trajectory": ("P07", "excluded offset bounds were treated as included"),
    "the third-body gradient no longer": ("P11", "the third-body gradient differentiated the position of the third body as well"),
    "SRP partial with respect to Cr": ("P11", "the SRP partial with respect to Cr was NaN for Cr = 0"),
    "integrate the STM as A(t)": ("P12", "the STM rate used the STM at the start of the step instead of the one of the stage"),
    "exponential drag compares altitudes": ("P11", "the exponential atmosphere compared an altitude in km to a reference in meters"),
    "drag acts along the velocity relative": ("P11", "drag acted along the inertial velocity or in the axes of the drag frame"),
    "the constant drag force is": ("P11", "the constant drag force was expressed in the axes of the drag frame"),
    "select the COF gravity file reader": ("P14", "COF gravity files were never recognised from a configuration and read as SHADR"),
    "Ruggiero guidance coasts": ("P13", "Ruggiero thrust in eclipses exceeding the maximum and coasted otherwise"),
    "sensitivity of an unavailable": ("P18", "the sensitivity row of a measurement type missing from the measurement was not zero (or panicked)"),
    "sensitivities do not depend": ("P18", "range and Doppler partials were divided by the measured (possibly ambiguous or absent) range"),
    "resolve the measurement ambiguity": ("P17", "ambiguous measurements were not resolved to the closest candidate"),
    "document the resolution": ("P17", "documentation of the above"),
    "OD predictions stop": ("P17", "predictions overshot the requested epoch; decaying process noises were never initialized in predictions"),
    "with_msr_bias_constant": ("P18", "with_msr_bias_constant changed a copy and lost the bias"),
    "timestamp noise of a ground": ("P18", "the timestamp noise of a ground station was sampled from a copy and never advanced"),
    "force_reject rejects": ("P17", "force_reject accepted measurements with a null ratio"),
    "constant measurement biases": ("P17", "constant biases were removed with the wrong sign"),
    "two-way azimuth": ("P18", "the two-way azimuth average was wrong across north"),
    "interlink range rate uses": ("P18", "the interlink range rate ignored the velocity of the transmitter"),
    "timestamp noise of an interlink": ("P18", "the timestamp noise of an interlink was sampled from a copy and never advanced"),
    "azimuth and elevation sensitivities": ("P18", "azimuth and elevation partials were taken in the axes of the estimation frame, in radians per km, while the observations are SEZ angles in degrees"),
    "merged OD solutions": ("P20", "merging OD solutions applied the inverse of the sorting permutation (wrong from three records on)"),
    "smoothed residuals are those": ("P20", "smoothed residuals were shifted by one record: the observation of the next epoch was compared to this one's estimate"),
    "RMS of the residuals": ("P20", "RMS of residuals were divided by the number of records including time updates"),
    "schedule with no tracking strands": ("P21", "with no visibility pass the schedule generation underflowed (panic with overflow checks)"),
    "local frame corrections of the targeter": ("P22", "with a local correction frame the reported corrected state did not lead to the achieved state: each iteration used the frame of the current iterate, the report that of the initial state"),
    "applying a targeter solution verifies": ("P22", "applying a targeter solution verified the objectives in the propagation frame and without their weights"),
    "rates of the maneuver angles": ("P22", "MnvrAlphaDot and MnvrDeltaDot were not finite burn variables and corrected the Y position instead"),
    "disperse Cr, Cd and propellant": ("P23", "dispersions of Cr, Cd and mass used their mean as deviation, the wrong index (out of bounds for the mass) and no mean"),
    "actual dispersions are added": ("P23", "the reported dispersions had the opposite sign of their documentation"),
    "dispersions from a spacecraft covariance": ("P23", "dispersions built from a covariance reported variances as standard deviations"),
    "batch least squares STM": ("P24", "the STM was accumulated from STMs that were never reset: from the second step on, sensitivities were mapped with the wrong STM"),
    "batch least squares uses simultaneous": ("P24", "measurements at the same epoch as the previous one, or at the batch epoch, were skipped but counted in the RMS"),
    "the Kolmogorov-Smirnov statistic": ("P20", "the distance to the normal distribution missed the lower side of each step of the empirical distribution"),
    "the normality test counts": ("P20", "the critical distance of the normality test counted residuals, not their components"),
    "estimates print their standard": ("P25", "estimates printed variances (and parameters times 1000) as sigmas"),
    "Izzo's Lambert solver takes": ("P27", "Izzo's solver returned velocities that do not lead to the second position when r1 x r2 points down"),
    "Lambert solvers refuse degenerate": ("P27", "opposite radii (both solvers) and null times of flight (Gooding) gave NaN velocities as a solution"),
    "filtering a tracking arc by offset": ("P19", "excluded offset bounds were treated as included"),
    "different measurement types are not equal": ("P19", "measurements of different types compared equal"),
    "propagate the STM of ground assets": ("P28", "the STM of a propagated ground asset stayed the identity"),
    "impulsive maneuvers of a sequence": ("P29", "the delta-v of a staging or docking event was applied in inertial axes whatever its local frame"),
    "followed by a disabled phase": ("P29", "a phase stopped at the next phase even if disabled, and the one after started early, at the epoch of the disabled phase"),
    "range sensitivity of ground assets": ("P28", "the transmitter was not expressed in the asset's frame and the measured range was used as divisor"),
    "interpolation window excluded the first": ("P07", "in a 13-state trajectory queries in the first interval were extrapolated"),
    "position devices measure the component": ("P30", "position devices measured components by their index in the configuration instead of their type"),
    "missing measurements of a parquet": ("P33", "types missing from a measurement were reloaded from parquet as zeros"),
    "with only a start epoch or a step keeps": ("P33", "exporting an arc with only a start epoch or a step dropped its last measurement"),
    "epochs of an exported TDM are in UTC": ("P33", "epochs of an exported TDM were written in the time scale of the measurement while the file declares UTC"),
    "also selects its gains": ("P33", "exporting part of an OD solution to parquet failed (columns of different lengths)"),
    "exported RIC uncertainties": ("P33", "RIC uncertainties of an exported OD solution were rotated the wrong way"),
    "whitened residuals are reloaded": ("P33", "whitened residuals were not reloaded"),
    "angles of a two-way TDM": ("P33", "azimuth and elevation of a two-way TDM were halved"),
    "a leg that fails leaves the propagator": ("P02", "a leg that failed left the propagator in its integration frame, so the states of later legs were in that frame"),
    "bias of an unconfigured measurement type": ("P18", "setting the bias of an unconfigured measurement type panicked instead of returning its error"),
    "thrust directions of a trajectory are reloaded": ("P33", "thrust direction components were renormalised one by one when reloaded"),
}
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"] = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        m = [v for k, v in M.items() if k in s]
        assert len(m) == 1, s
        d["fixed"].append(f"fixed: property={m[0][0]} {h} {m[0][1]}")
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
