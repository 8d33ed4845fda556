//! Batch least squares (P24).
use crate::common::*;
use crate::h_od::{flow, noise, observe, sens, Dev, Nav, Uniform};
use anise::almanac::Almanac;
use indexmap::IndexSet;
use nalgebra::{SMatrix, SVector};
use nvrt::*;
use nyx_space::od::blse::{BLSSolution, BLSSolver, BatchLeastSquares};
use nyx_space::od::estimate::KfEstimate;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::{MeasurementType, TrackingDataArc};
use nyx_space::od::ODError;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::Spacecraft;
use std::collections::BTreeMap;
use std::sync::Arc;

type Bls = BatchLeastSquares<Uniform, Dev>;
fn types2() -> IndexSet<MeasurementType> {
    [MeasurementType::Range, MeasurementType::Doppler].into_iter().collect()
}
fn bls(solver: BLSSolver, max_iterations: usize, max_step: f64, visible: bool) -> Bls {
    let mut devices = BTreeMap::new();
    for n in ["A", "B"] {
        devices.insert(n.to_string(), Dev { name: n.to_string(), types: types2(), visible: visible || n == "B" });
    }
    BatchLeastSquares {
        prop: Propagator::new(Uniform, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(100.0))),
        devices,
        solver,
        tolerance_pos_km: real("tolerance", 1e-4, 10.0),
        max_iterations,
        max_step: dur(max_step),
        epoch_precision: dur(1e-6),
        lm_lambda_init: real("lambda", 0.1, 10.0),
        lm_lambda_decrease: 10.0,
        lm_lambda_increase: 5.0,
        lm_lambda_min: 1e-12,
        lm_lambda_max: 1e12,
        lm_use_diag_scaling: false,
        almanac: Arc::new(Almanac::default()),
    }
}
struct Msr {
    t: f64,
    tracker: &'static str,
    types: Vec<MeasurementType>,
    rejected: bool,
}
fn val(k: usize, t: MeasurementType) -> f64 {
    real(&format!("y{k}_{t:?}"), -100.0, 100.0)
}
fn arc(ms: &[Msr]) -> TrackingDataArc {
    let mut v = vec![];
    for (k, m) in ms.iter().enumerate() {
        let mut x = Measurement::new(m.tracker.to_string(), ep(m.t));
        for t in &m.types {
            x.push(*t, val(k, *t));
        }
        x.rejected = m.rejected;
        v.push(x);
    }
    TrackingDataArc { measurements: v, source: None, moduli: None, force_reject: false }
}
struct Iter {
    info: SMatrix<f64, 6, 6>,
    rhs: SVector<f64, 6>,
    rms: f64,
}
/// what one iteration must see from an estimate
fn reference(ms: &[Msr], x0: &SVector<f64, 6>, t0: f64, blind: &[&str]) -> Iter {
    let mut info = SMatrix::identity();
    let mut rhs = SVector::zeros();
    let mut ss = 0.0;
    let mut n = 0.0;
    for (k, m) in ms.iter().enumerate() {
        if m.rejected {
            continue;
        }
        n += 1.0;
        if blind.contains(&m.tracker) {
            continue;
        }
        let phi = flow(m.t - t0);
        let s = Nav { x: phi * x0, phi: None, epoch: ep(m.t) };
        for t in &m.types {
            let h0 = SMatrix::<f64, 1, 6>::from_row_slice(&sens(m.tracker, *t, &s));
            let h = h0 * phi;
            let r = val(k, *t) - observe(m.tracker, *t, &s);
            let w = 1.0 / noise(m.tracker, *t);
            info += h.transpose() * h * w;
            rhs += h.transpose() * (r * w);
            ss += w * r * r;
        }
    }
    Iter { info, rhs, rms: (ss / n).sqrt() }
}
fn check_solve(label: &str, m: &SMatrix<f64, 6, 6>, dx: &SVector<f64, 6>, rhs: &SVector<f64, 6>) {
    let got = m * dx;
    for i in 0..6 {
        ensures_eq_tol(label, got[i], rhs[i], 1e-7, 1e-7);
    }
}
fn check_covar(s: &BLSSolution<Nav>, info: &SMatrix<f64, 6, 6>) {
    let p = s.covariance * info;
    for i in 0..6 {
        for j in 0..6 {
            ensures_eq_tol("the covariance is the inverse of the information matrix", p[(i, j)], if i == j { 1.0 } else { 0.0 }, 1e-7, 1e-7);
        }
    }
}
fn nm(x: &SVector<f64, 6>) -> f64 {
    (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt()
}
fn initial() -> (Nav, f64) {
    let t0 = real("t0", -1e3, 1e3);
    (Nav { x: sym_vec::<6>("x", 10.0), phi: None, epoch: ep(t0) }, t0)
}
fn scenario(t0: f64) -> (Vec<Msr>, Vec<&'static str>, bool, f64) {
    use MeasurementType::*;
    let m = |dt: f64, tracker: &'static str, types: &[MeasurementType]| Msr { t: t0 + dt, tracker, types: types.to_vec(), rejected: false };
    let mut visible = true;
    let mut blind = vec![];
    let mut step = 200.0;
    let c = choose("arc", 7);
    let (d1, d2) = if c < 2 { (real("d1", 1.0, 50.0), real("d2", 1.0, 40.0)) } else { (7.0, 11.0) };
    let ms = match c {
        // two epochs, one observable each
        0 => vec![m(d1, "A", &[Range]), m(d1 + d2, "A", &[Doppler])],
        // both observables, then one seen through two steps
        1 => vec![m(d1, "A", &[Doppler]), m(d1 + d2, "B", &[Range])],
        // two trackers at the same epoch
        2 => vec![m(d1, "A", &[Doppler]), m(d1, "B", &[Range])],
        // at the epoch of the estimate
        3 => vec![m(0.0, "A", &[Range, Doppler]), m(d1, "B", &[Doppler])],
        // a rejected one, an unknown tracker
        4 => {
            let mut v = vec![m(d1, "A", &[Range]), m(d1 + 1.0, "C", &[Range]), m(d1 + d2 + 1.0, "B", &[Range])];
            v[0].rejected = true;
            blind.push("C");
            v
        }
        // a tracker that does not see the vehicle
        5 => {
            visible = false;
            blind.push("A");
            vec![m(d1, "A", &[Range]), m(d1 + d2, "B", &[Range])]
        }
        // short steps
        _ => {
            step = 30.0;
            vec![m(45.0, "B", &[Doppler]), m(50.0 + d1, "A", &[Range])]
        }
    };
    (ms, blind, visible, step)
}
fn blse_one() {
    bounded("arcs of up to three measurements, two observables; one iteration");
    let (x0, t0) = initial();
    let (ms, blind, visible, step) = scenario(t0);
    let lm = flag("levenberg");
    let scale = lm && ms.len() == 2 && step > 100.0 && flag("scaling");
    set_opts(|o| o.feas_ms = 100);
    let mut b = bls(if lm { BLSSolver::LevenbergMarquardt } else { BLSSolver::NormalEquations }, 1, step, visible);
    b.lm_use_diag_scaling = scale;
    match b.estimate(x0, &arc(&ms)) {
        Err(e) => {
            ensures("the only failure is a singular information matrix", matches!(e, ODError::SingularInformationMatrix));
        }
        Ok(s) => {
            let r = reference(&ms, &x0.x, t0, &blind);
            if lm && s.final_corr_pos_km > 1e300 {
                // the damped matrix was found singular, no step
                return;
            }
            discard_if_impossible();
            ensures("one iteration", s.num_iterations == 1);
            let dx = s.estimated_state.x - x0.x;
            ensures_eq("the estimate is at the epoch of the guess", secs(s.estimated_state.epoch), t0);
            let mut m = r.info;
            if lm {
                for i in 0..6 {
                    m[(i, i)] += b.lm_lambda_init * if scale { r.info[(i, i)] } else { 1.0 };
                }
            }
            check_solve(if lm { "the correction solves the damped normal equations" } else { "the correction solves the normal equations" }, &m, &dx, &r.rhs);
            check_covar(&s, &r.info);
            ensures_eq("the RMS is that of the weighted residuals", s.final_rms, r.rms);
            ensures_eq("the reported correction is that of the position", s.final_corr_pos_km, nm(&dx));
            ensures("converged if and only if the position correction is below the tolerance", s.converged == (s.final_corr_pos_km < b.tolerance_pos_km));
            cover(if lm { "damped" } else { "normal" });
        }
    }
    let e = b.evaluate(x0, &arc(&ms)).ok().unwrap();
    ensures_eq("evaluating a state gives the RMS of its weighted residuals", e, reference(&ms, &x0.x, t0, &blind).rms);
}
/// iterations restart from the corrected estimate
fn blse_two() {
    bounded("two measurements, two iterations");
    let (x0, t0) = initial();
    let m = |dt: f64, tracker: &'static str, types: &[MeasurementType]| Msr { t: t0 + dt, tracker, types: types.to_vec(), rejected: false };
    let ms = vec![m(0.0, "A", &[MeasurementType::Range]), m(10.0, "B", &[MeasurementType::Doppler])];
    let b = bls(BLSSolver::NormalEquations, 2, 200.0, true);
    let one = bls(BLSSolver::NormalEquations, 1, 200.0, true);
    let s = b.estimate(x0, &arc(&ms));
    let s1 = one.estimate(x0, &arc(&ms));
    let (Ok(s), Ok(s1)) = (s, s1) else { return };
    let last = if s1.converged {
        ensures("iterations stop at convergence", s.num_iterations == 1 && s.converged);
        cover("converged at once");
        s1
    } else {
        ensures("iterations continue until convergence", s.num_iterations == 2);
        cover("two iterations");
        match one.estimate(s1.estimated_state, &arc(&ms)) {
            Ok(s2) => s2,
            Err(_) => return,
        }
    };
    for i in 0..6 {
        ensures_eq("an iteration starts from the previous estimate", s.estimated_state.x[i], last.estimated_state.x[i]);
        ensures_eq("the covariance is that of the last iteration", s.covariance[(i, i)], last.covariance[(i, i)]);
    }
    ensures_eq("the RMS is that of the last iteration", s.final_rms, last.final_rms);
    ensures_eq("the correction is that of the last iteration", s.final_corr_pos_km, last.final_corr_pos_km);
    ensures("convergence is that of the last iteration", s.converged == last.converged);
}
/// a damped step is kept only if the residuals decrease
fn blse_lm() {
    bounded("two measurements, two iterations");
    let (x0, t0) = initial();
    let m = |dt: f64, tracker: &'static str, types: &[MeasurementType]| Msr { t: t0 + dt, tracker, types: types.to_vec(), rejected: false };
    let ms = vec![m(0.0, "A", &[MeasurementType::Range]), m(10.0, "B", &[MeasurementType::Doppler])];
    let b = bls(BLSSolver::LevenbergMarquardt, 2, 200.0, true);
    let mut one = bls(BLSSolver::LevenbergMarquardt, 1, 200.0, true);
    let s1 = one.estimate(x0, &arc(&ms));
    let s = b.estimate(x0, &arc(&ms));
    let (Ok(s), Ok(s1)) = (s, s1) else { return };
    if s1.converged {
        return;
    }
    ensures("iterations continue until convergence", s.num_iterations == 2);
    one.lm_lambda_init = b.lm_lambda_init / b.lm_lambda_decrease;
    let r = b.evaluate(s1.estimated_state, &arc(&ms)).ok().unwrap();
    if r < s1.final_rms {
        let Ok(s2) = one.estimate(s1.estimated_state, &arc(&ms)) else { return };
        for i in 0..6 {
            ensures_eq("a step that decreases the residuals is kept, with less damping", s.estimated_state.x[i], s2.estimated_state.x[i]);
        }
        ensures_eq("RMS", s.final_rms, r);
        cover("kept");
    } else {
        for i in 0..6 {
            ensures_eq("a step is only taken from an estimate that decreased the residuals", s.estimated_state.x[i], s1.estimated_state.x[i]);
        }
        ensures("a rejected step is not convergence", !s.converged);
        ensures_eq("RMS", s.final_rms, s1.final_rms);
        cover("rejected");
    }
}
/// concrete well-posed problems have a solution
fn blse_exists() {
    bounded("concrete sensitivities");
    let (x0, t0) = initial();
    let n = choose("measurements", 4);
    let nrej = choose("rejected", 3);
    let ms: Vec<Msr> = (0..n + nrej).map(|k| Msr { t: t0 + k as f64, tracker: "C", types: vec![MeasurementType::Range], rejected: k < nrej }).collect();
    let b = bls(BLSSolver::NormalEquations, 1, 200.0, true);
    let r = b.estimate(x0, &arc(&ms));
    ensures("at least two usable measurements are needed", r.is_ok() == (n >= 2));
    ensures("at least one usable measurement is needed to evaluate", b.evaluate(x0, &arc(&ms)).is_ok() == (n >= 1));
    if let Ok(s) = r {
        // no tracker is known: nothing is corrected
        for i in 0..6 {
            ensures_eq("without information there is no correction", s.estimated_state.x[i], x0.x[i]);
        }
        ensures("converged", s.converged);
        cover("solved");
    } else {
        cover("refused");
    }
    let mut sc = Spacecraft::default();
    sc.orbit = sym_orbit("o", ep(0.0), frame_mu(4e5));
    let cov: SMatrix<f64, 9, 9> = sym_mat("cov", 10.0);
    let k: KfEstimate<Spacecraft> = BLSSolution { estimated_state: sc, covariance: cov, num_iterations: 1, final_rms: 0.0, final_corr_pos_km: 0.0, converged: true }.into();
    for i in 0..9 {
        for j in 0..6 {
            if i < 6 {
                ensures_eq("the solution is an initial estimate with its covariance", k.covar[(i, j)], cov[(i, j)]);
            }
        }
        if i >= 6 {
            ensures_eq("the parameters that are not estimated have no uncertainty", k.covar[(i, i)], 0.0);
        }
        ensures_eq("no deviation", k.state_deviation[i], 0.0);
    }
    eq_v3("the solution is the nominal state", &k.nominal_state.orbit.radius_km, &sc.orbit.radius_km);
}
pub fn list() -> Vec<Harness> {
    const E: &[&str] = &["BatchLeastSquares::estimate", "BatchLeastSquares::evaluate"];
    vec![
        Harness { name: "blse_one", property: "P24", functions: E, f: blse_one, may_panic: false },
        Harness { name: "blse_two", property: "P24", functions: E, f: blse_two, may_panic: false },
        Harness { name: "blse_lm", property: "P24", functions: E, f: blse_lm, may_panic: false },
        Harness { name: "blse_exists", property: "P24", functions: &["BatchLeastSquares::estimate", "BatchLeastSquares::evaluate", "KfEstimate::from"], f: blse_exists, may_panic: false },
    ]
}
