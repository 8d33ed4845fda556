//! Targeters: a reported solution achieves its objectives (P22).
use crate::common::*;
use crate::h_dyn::ArbAccel;
use anise::almanac::Almanac;
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::Orbit;
use nalgebra::Vector3;
use nvrt::*;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::dynamics::{AccelModel, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::objective::Objective;
use nyx_space::md::opti::solution::TargeterSolution;
use nyx_space::md::opti::targeter::Targeter;
use nyx_space::md::opti::multishoot::MultipleShooting;
use nyx_space::md::opti::multipleshooting::CostFunction;
use nyx_space::md::{StateParameter, TargetingError, Variable, Vary};
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::Spacecraft;
use std::sync::Arc;

/// rayon runs everything on the calling thread
pub fn sequential() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build();
    std::mem::forget(p);
}
/// drifting in free space, or under an arbitrary acceleration
fn prop(arb: bool) -> Propagator<SpacecraftDynamics> {
    let acc: Vec<Arc<dyn AccelModel + Sync>> = if arb { vec![Arc::new(ArbAccel(0))] } else { vec![] };
    Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::new(acc)), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(100.0)))
}
fn start(r: [f64; 3], v: [f64; 3]) -> Spacecraft {
    let mut sc = Spacecraft { orbit: Orbit::zero(frame_mu(0.0)), ..Default::default() };
    sc.orbit.radius_km = Vector3::from(r);
    sc.orbit.velocity_km_s = Vector3::from(v);
    sc.orbit.epoch = ep(0.0);
    sc.mass.dry_mass_kg = 100.0;
    sc
}
fn obj(e: OrbitalElement, want: f64, tol: f64) -> Objective {
    Objective::within_tolerance(StateParameter::Element(e), want, tol)
}
fn var(v: Vary) -> Variable {
    Variable { perturbation: 0.5, max_step: 10.0, max_value: 50.0, min_value: -50.0, ..Variable::from(v) }
}
fn value(e: OrbitalElement, o: &Orbit) -> f64 {
    match e {
        OrbitalElement::X => o.radius_km[0],
        OrbitalElement::Y => o.radius_km[1],
        OrbitalElement::Z => o.radius_km[2],
        OrbitalElement::VX => o.velocity_km_s[0],
        OrbitalElement::VY => o.velocity_km_s[1],
        OrbitalElement::VZ => o.velocity_km_s[2],
        OrbitalElement::Rmag => (o.radius_km[0] * o.radius_km[0] + o.radius_km[1] * o.radius_km[1] + o.radius_km[2] * o.radius_km[2]).sqrt(),
        _ => unreachable!(),
    }
}
fn same_orbit(label: &str, a: &Orbit, b: &Orbit) {
    eq_v3(&format!("{label}: position"), &a.radius_km, &b.radius_km);
    eq_v3(&format!("{label}: velocity"), &a.velocity_km_s, &b.velocity_km_s);
    ensures_eq(&format!("{label}: epoch"), secs(a.epoch), secs(b.epoch));
}
/// what a solution promises
fn check<const V: usize, const O: usize>(t: &Targeter<V, O>, sol: &TargeterSolution<V, O>, init: Spacecraft, t0: f64, t1: f64, al: &Arc<Almanac>) {
    let at = t.prop.with(init, al.clone()).until_epoch(ep(t0)).unwrap();
    ensures_eq("the correction is at the correction epoch", secs(sol.corrected_state.orbit.epoch), t0);
    ensures_eq("the objectives are achieved at the achievement epoch", secs(sol.achieved_state.orbit.epoch), t1);
    // the objectives are met
    for (i, o) in t.objectives.iter().enumerate() {
        let StateParameter::Element(e) = o.parameter else { unreachable!() };
        let err = o.multiplicative_factor * (o.desired_value - value(e, &sol.achieved_state.orbit)) + o.additive_factor;
        ensures_eq("achieved errors", sol.achieved_errors[i], err);
        ensures_le("the objective is achieved", err, o.tolerance);
        ensures_le("the objective is achieved", -o.tolerance, err);
    }
    // by the corrected state
    let again = t.prop.with(sol.corrected_state, al.clone()).until_epoch(ep(t1)).unwrap();
    same_orbit("the corrected state leads to the achieved state", &again.orbit, &sol.achieved_state.orbit);
    // which is the initial state plus the reported correction
    let m = match t.correction_frame {
        Some(f) => at.orbit.dcm_to_inertial(f).unwrap().rot_mat,
        None => nalgebra::Matrix3::identity(),
    };
    let mut d = [Vector3::<f64>::zeros(); 2];
    for (i, v) in t.variables.iter().enumerate() {
        let k = [Vary::PositionX, Vary::PositionY, Vary::PositionZ, Vary::VelocityX, Vary::VelocityY, Vary::VelocityZ].iter().position(|c| *c == v.component).unwrap();
        d[k / 3][k % 3] += sol.correction[i];
    }
    let mut want = at.orbit;
    want.radius_km += d[0];
    want.velocity_km_s += m * d[1];
    same_orbit("the reported correction is the one applied", &sol.corrected_state.orbit, &want);
    ensures("the solution is for this problem", sol.variables == t.variables && sol.iterations <= t.iterations);
    cover(if sol.iterations == 0 { "nothing to correct" } else { "corrected" });
}
const ELS: [OrbitalElement; 6] = [OrbitalElement::X, OrbitalElement::Y, OrbitalElement::Z, OrbitalElement::VX, OrbitalElement::VY, OrbitalElement::VZ];
const VARS: [Vary; 6] = [Vary::PositionX, Vary::PositionY, Vary::PositionZ, Vary::VelocityX, Vary::VelocityY, Vary::VelocityZ];
/// any dynamics, one variable, one objective
fn tgt_any() {
    sequential();
    bounded("two iterations, one variable, one objective");
    let p = prop(true);
    set_opts(|o| o.feas_ms = 100);
    let k = [0, 4][choose("variable", 2)];
    let e = ELS[choose("objective", 2) * 3 + k % 3];
    let al = Arc::new(Almanac::default());
    let s = start(reals::<3>("r", -5.0, 5.0), reals::<3>("v", -1.0, 1.0));
    let mut t = Targeter::new(&p, [var(VARS[k])], [obj(e, 3.0, 0.25)]);
    t.iterations = 1;
    let t0 = if flag("later") { 10.0 } else { 0.0 };
    match t.try_achieve_from(s, ep(t0), ep(t0 + 50.0), al.clone()) {
        Ok(sol) => check(&t, &sol, s, t0, t0 + 50.0, &al),
        Err(e) => ensures("refused with a reason", matches!(e, TargetingError::TooManyIterations | TargetingError::CorrectionIneffective { .. } | TargetingError::SingularJacobian)),
    }
}
/// in free space: several variables and objectives, with weights and initial guesses
fn linear<const V: usize, const O: usize>(vars: [Vary; V], objs: [OrbitalElement; O], frame: Option<LocalFrame>, dual: bool) {
    sequential();
    set_opts(|o| o.feas_ms = 100);
    let p = prop(false);
    let al = Arc::new(Almanac::default());
    let mut s = start([3.0, 0.0, 0.0], [0.0, 2.0, 0.0]);
    for (i, e) in objs.iter().enumerate() {
        // an arbitrary miss distance
        let k = ELS.iter().position(|x| x == e).unwrap();
        let d = real(&format!("miss{i}"), -5.0, 5.0);
        if k < 3 {
            s.orbit.radius_km[k] += d;
        } else {
            s.orbit.velocity_km_s[k - 3] += d;
        }
    }
    let vs = vars.map(|v| Variable { init_guess: 0.25, ..var(v) });
    let mut t = Targeter::new(&p, vs, objs.map(|e| Objective { multiplicative_factor: 2.0, additive_factor: 0.125, ..obj(e, 3.0, 0.25) }));
    t.iterations = 2;
    t.correction_frame = frame;
    let r = if dual { t.try_achieve_dual(s, ep(0.0), ep(2.0), al.clone()) } else { t.try_achieve_fd(s, ep(0.0), ep(2.0), al.clone()) };
    match r {
        Ok(sol) => check(&t, &sol, s, 0.0, 2.0, &al),
        Err(e) => ensures("refused with a reason", matches!(e, TargetingError::TooManyIterations | TargetingError::CorrectionIneffective { .. } | TargetingError::SingularJacobian)),
    }
}
fn tgt_linear() {
    bounded("three iterations, free drift");
    match choose("problem", 4) {
        0 => linear([Vary::VelocityX], [OrbitalElement::X], None, false),
        1 => linear([Vary::PositionZ, Vary::VelocityX], [OrbitalElement::X, OrbitalElement::Z], None, false),
        2 => linear([Vary::PositionX, Vary::VelocityX], [OrbitalElement::X], None, false),
        _ => linear([Vary::VelocityZ], [OrbitalElement::VZ, OrbitalElement::Z], None, false),
    }
}
fn tgt_dual() {
    bounded("three iterations, free drift");
    match choose("problem", 4) {
        0 => linear([Vary::VelocityX], [OrbitalElement::X], None, true),
        1 => linear([Vary::PositionZ, Vary::VelocityX], [OrbitalElement::X, OrbitalElement::Z], None, true),
        2 => linear([Vary::PositionX, Vary::VelocityX], [OrbitalElement::X], None, true),
        _ => linear([Vary::VelocityZ], [OrbitalElement::VZ, OrbitalElement::Z], None, true),
    }
}
fn tgt_local() {
    bounded("three iterations, free drift");
    let (f, v, e) = match choose("frame", 3) {
        0 => (LocalFrame::VNC, Vary::VelocityZ, OrbitalElement::X),
        1 => (LocalFrame::RIC, Vary::VelocityZ, OrbitalElement::Z),
        _ => (LocalFrame::RCN, Vary::VelocityY, OrbitalElement::Z),
    };
    sequential();
    set_opts(|o| o.feas_ms = 100);
    let p = prop(false);
    let al = Arc::new(Almanac::default());
    let s = start([3.0, 0.0, 0.0], [0.0, 2.0, 0.0]);
    // an arbitrary target, reached in several steps
    let want = real("target", 0.5, 9.5);
    let mut t = Targeter::new(&p, [Variable { max_step: 1.25, ..var(v) }], [obj(e, want, 0.25)]);
    t.iterations = 3;
    t.correction_frame = Some(f);
    match t.try_achieve_from(s, ep(0.0), ep(2.0), al.clone()) {
        Ok(sol) => check(&t, &sol, s, 0.0, 2.0, &al),
        Err(e) => ensures("refused with a reason", matches!(e, TargetingError::TooManyIterations | TargetingError::CorrectionIneffective { .. } | TargetingError::SingularJacobian)),
    }
}
/// applying a solution propagates it and verifies the objectives, in the objective frame
fn tgt_apply() {
    bounded("one or two objectives");
    sequential();
    let p = prop(false);
    let al = Arc::new(Almanac::default());
    let s = start(reals::<3>("r", -5.0, 5.0), reals::<3>("v", -1.0, 1.0));
    let o = [
        Objective { multiplicative_factor: 2.0, additive_factor: 0.125, ..obj(OrbitalElement::X, 3.0, 0.25) },
        obj(OrbitalElement::VY, 0.5, 0.125),
    ];
    let vars = [var(Vary::VelocityX)];
    let mut t = Targeter::new(&p, vars, o);
    let shift = 2.0;
    let framed = flag("objective frame");
    if framed {
        t = Targeter::in_frame(&p, vars, o, anise::constants::frames::MOON_J2000);
        anise::nvhook::install(|h| {
            h.transform_to = Some(std::rc::Rc::new(move |mut s: Orbit, f| {
                ensures("the objective frame", f.ephemeris_id == anise::constants::frames::MOON_J2000.ephemeris_id);
                s.radius_km[0] += shift;
                s.frame = f;
                Some(s)
            }))
        });
    }
    let mut end = s;
    end.orbit.epoch = ep(50.0);
    let sol = TargeterSolution {
        corrected_state: s,
        achieved_state: end,
        correction: Default::default(),
        variables: vars,
        achieved_errors: Default::default(),
        achieved_objectives: o,
        iterations: 1,
        computation_dur: std::time::Duration::ZERO,
    };
    let r = t.apply_with_traj(&sol, al.clone());
    let end = p.with(s, al.clone()).until_epoch(ep(50.0)).unwrap();
    let xf = end.orbit.radius_km;
    let e0 = 2.0 * (3.0 - (xf[0] + if framed { shift } else { 0.0 })) + 0.125;
    let e1 = 0.5 - s.orbit.velocity_km_s[1];
    match r {
        Ok((x, traj)) => {
            ensures("verified: first objective", e0.abs() <= 0.25);
            ensures("verified: second objective", e1.abs() <= 0.125);
            same_orbit("propagated to the achievement epoch", &x.orbit, &end.orbit);
            ensures("the trajectory is from the corrected to the achieved state", traj.first().orbit.radius_km == s.orbit.radius_km && traj.last().orbit == x.orbit);
            cover("verified");
        }
        Err(e) => {
            ensures("refused: verification", matches!(e, TargetingError::Verification { .. }));
            // at least one objective is missed
            ensures("refused: an objective is missed", e0.abs() > 0.25 || e1.abs() > 0.125);
            cover("refused");
        }
    }
}
/// bounds and validity of variables; assessing objectives
fn tgt_vars() {
    let (lo, hi, step) = (real("min", -10.0, 10.0), real("max", -10.0, 10.0), real("step", -5.0, 5.0));
    let v = Variable { min_value: lo, max_value: hi, max_step: step, ..Variable::from(Vary::VelocityX) };
    ensures("valid variables", v.valid().is_ok() == (step >= 0.0 && hi >= 0.0 && lo <= hi));
    if v.valid().is_ok() {
        let x = real("x", -20.0, 20.0);
        let b = v.apply_bounds(x);
        ensures_le("bounded above", b, hi);
        ensures_le("bounded below", lo, b);
        let inside = lo <= x && x <= hi;
        if inside {
            ensures_eq("within the bounds", b, x);
        }
        let (c, ok) = v.check_bounds(x);
        ensures_eq("check_bounds", c, b);
        ensures("check_bounds", ok == inside);
        let mut y = x;
        v.ensure_bounds(&mut y);
        ensures_eq("ensure_bounds", y, b);
        cover("valid");
    }
    let (m, a, want, got, tol) = (real("m", -3.0, 3.0), real("a", -3.0, 3.0), real("want", -9.0, 9.0), real("got", -9.0, 9.0), real("tol", 0.0, 3.0));
    let o = Objective { multiplicative_factor: m, additive_factor: a, ..Objective::within_tolerance(StateParameter::Element(OrbitalElement::X), want, tol) };
    let (ok, e) = o.assess_value(got);
    ensures_eq("objective error", e, m * (want - got) + a);
    ensures("objective achieved", ok == (e <= tol && -tol <= e));
    let mut sc = start([got, 0.0, 0.0], [0.0; 3]);
    sc.orbit.radius_km[1] = 1.0;
    let r = o.assess(&sc).unwrap();
    ensures_eq("objective error of a state", r.1, e);
    ensures("objective achieved by a state", r.0 == ok);
}
/// which variables are finite burns
fn tgt_kinds() {
    use Vary::*;
    let all = [PositionX, PositionY, PositionZ, VelocityX, VelocityY, VelocityZ, MnvrAlpha, MnvrAlphaDot, MnvrAlphaDDot, MnvrDelta, MnvrDeltaDot, MnvrDeltaDDot, StartEpoch, Duration, EndEpoch, ThrustX, ThrustY, ThrustZ, ThrustLevel, ThrustRateX, ThrustRateY, ThrustRateZ, ThrustAccelX, ThrustAccelY, ThrustAccelZ];
    let k = choose("variable", all.len());
    ensures("finite burn variables", all[k].is_finite_burn() == (k >= 6));
    ensures("defaults are valid", Variable::from(all[k]).valid().is_ok() && Variable::from(all[k]).component == all[k]);
    // a finite burn needs a thruster; a position cannot be corrected in a local frame
    let p = prop(false);
    let s = start([3.0, 0.0, 0.0], [0.0, 2.0, 0.0]);
    let al = Arc::new(Almanac::default());
    let mut t = Targeter::new(&p, [Variable::from(all[k])], [obj(OrbitalElement::X, 99.0, 0.25)]);
    t.iterations = 0;
    sequential();
    if k >= 6 {
        ensures("a finite burn needs a thruster", matches!(t.try_achieve_from(s, ep(0.0), ep(2.0), al.clone()), Err(TargetingError::GuidanceError { .. })));
        ensures("the hyperdual targeter refuses finite burns", matches!(t.try_achieve_dual(s, ep(0.0), ep(2.0), al), Err(TargetingError::UnsupportedVariable { .. })));
    } else if k < 3 {
        t.correction_frame = Some(LocalFrame::VNC);
        ensures("positions are not corrected in a local frame", matches!(t.try_achieve_from(s, ep(0.0), ep(2.0), al), Err(TargetingError::FrameError { .. })));
    } else {
        t.variables[0].max_step = -1.0;
        ensures("invalid variables are refused", matches!(t.try_achieve_from(s, ep(0.0), ep(2.0), al), Err(TargetingError::VariableError { .. })));
    }
    cover("kinds");
}
/// straight-line nodes
fn tgt_nodes() {
    bounded("two to five nodes");
    let p = prop(false);
    let s = start(reals::<3>("r", -5.0, 5.0), [0.0; 3]);
    let mut f = s.orbit;
    f.radius_km = Vector3::from(reals::<3>("f", -5.0, 5.0));
    let tf = real("tf", 1.0, 100.0);
    f.epoch = ep(tf);
    let n = 2 + choose("nodes", 4);
    let d = f.radius_km - s.orbit.radius_km;
    match MultipleShooting::equidistant_nodes(s, f, n, &p) {
        Ok(m) => {
            ensures("node count", n >= 3 && m.targets.len() == n);
            for (k, t) in m.targets.iter().enumerate() {
                let w = (k + 1) as f64 / n as f64;
                for (g, i) in [(t.x, 0), (t.y, 1), (t.z, 2)] {
                    ensures_eq_tol("nodes are evenly spaced on the line", g, s.orbit.radius_km[i] + w * d[i], 1e-9, 1e-9);
                }
                ensures_eq_tol("nodes are evenly spaced in time", secs(t.epoch), w * tf, 1e-9, 1e-9);
                let o: [Objective; 3] = (*t).into();
                for (k, (o, w)) in o.iter().zip([t.x, t.y, t.z]).enumerate() {
                    ensures("node objectives", o.parameter == StateParameter::Element(ELS[k]));
                    ensures_eq("node objectives", o.desired_value, w);
                }
            }
            ensures("the problem is from the initial state to the destination", m.x0 == s && m.xf == f);
            cover("nodes");
        }
        Err(e) => ensures("refused with a reason", if n < 3 { matches!(e, TargetingError::UnderdeterminedProblem) } else { matches!(e, TargetingError::TargetsTooClose) && d.norm() < 1e-9 }),
    }
}
/// a multiple shooting solution is a chain of segments, each reaching its node
fn tgt_multi() {
    bounded("three nodes, one outer iteration, free drift");
    sequential();
    set_opts(|o| o.feas_ms = 100);
    let p = prop(false);
    let al = Arc::new(Almanac::default());
    let s = start([3.0, 0.0, 0.0], [1.0, real("vy", -0.05, 0.05), 0.0]);
    let mut f = s.orbit;
    f.radius_km = Vector3::new(9.0, 0.0, 0.0);
    f.epoch = ep(6.0);
    let mut m = MultipleShooting::equidistant_nodes(s, f, 3, &p).unwrap();
    m.improvement_threshold = 1e30;
    let r = m.solve(CostFunction::MinimumFuel, al.clone());
    let Ok(r) = r else { return };
    ensures("one solution per node", r.solutions.len() == 3 && r.nodes.len() == 3);
    let mut from = s.orbit;
    for (k, sol) in r.solutions.iter().enumerate() {
        ensures_eq("a segment starts where the previous one ends", secs(sol.corrected_state.orbit.epoch), secs(from.epoch));
        eq_v3("a segment starts where the previous one ends: position", &sol.corrected_state.orbit.radius_km, &from.radius_km);
        eq_v3("a segment starts where the previous one ends: velocity", &(sol.corrected_state.orbit.velocity_km_s - sol.correction), &from.velocity_km_s);
        let again = p.with(sol.corrected_state, al.clone()).until_epoch(r.nodes[k].epoch).unwrap();
        same_orbit("the corrected state leads to the achieved state", &again.orbit, &sol.achieved_state.orbit);
        for (i, w) in [r.nodes[k].x, r.nodes[k].y, r.nodes[k].z].into_iter().enumerate() {
            let o: [Objective; 3] = r.nodes[k].into();
            ensures_le("each node is reached", again.orbit.radius_km[i] - w, o[i].tolerance);
            ensures_le("each node is reached", w - again.orbit.radius_km[i], o[i].tolerance);
        }
        from = sol.achieved_state.orbit;
    }
    let t = r.build_trajectories(&p, al).unwrap();
    ensures("one trajectory per segment", t.len() == 3);
    for (k, t) in t.iter().enumerate() {
        same_orbit("a trajectory starts at the corrected state", &t.first().orbit, &r.solutions[k].corrected_state.orbit);
        same_orbit("a trajectory ends at the achieved state", &t.last().orbit, &r.solutions[k].achieved_state.orbit);
    }
    cover("chained");
}
pub fn list() -> Vec<Harness> {
    macro_rules! h {
        ($n:ident, $f:expr) => {
            Harness { name: concat!(stringify!($n)), property: "P22", functions: $f, f: $n, may_panic: false }
        };
    }
    const FD: &[&str] = &["Targeter::try_achieve_fd", "Targeter::try_achieve_from", "Objective::assess_value"];
    vec![h!(tgt_any, FD), h!(tgt_linear, FD), h!(tgt_dual, &["Targeter::try_achieve_dual"]), h!(tgt_local, FD), h!(tgt_apply, &["Targeter::apply_with_traj"]), h!(tgt_vars, &["Variable::valid", "Variable::apply_bounds", "Variable::check_bounds", "Objective::assess"]), h!(tgt_nodes, &["MultipleShooting::equidistant_nodes"]), h!(tgt_multi, &["MultipleShooting::solve", "MultipleShootingSolution::build_trajectories"]), h!(tgt_kinds, &["Vary::is_finite_burn", "Targeter::try_achieve_fd"])]
}
