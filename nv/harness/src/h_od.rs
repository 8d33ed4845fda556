//! Orbit determination process: an arbitrary tracker, an arbitrary arc (P17).
use crate::common::*;
use anise::almanac::Almanac;
use anise::constants::frames::EARTH_J2000;
use anise::errors::AlmanacResult;
use anise::math::interpolation::InterpolationError;
use anise::prelude::{Frame, Orbit};
use hifitime::Epoch;
use indexmap::IndexSet;
use nalgebra::{Const, DefaultAllocator, DimName, OMatrix, OVector, SMatrix, SVector, U3};
use nvrt::*;
use nyx_space::dynamics::{Dynamics, DynamicsError};
use nyx_space::io::ConfigRepr;
use nyx_space::linalg::allocator::Allocator;
use nyx_space::md::trajectory::{Interpolatable, Traj};
use nyx_space::md::StateParameter;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::kalman::{KalmanFilter, KalmanVariant};
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{MeasurementType, TrackingDataArc};
use nyx_space::od::process::{KalmanODProcess, ODSolution, SigmaRejection};
use nyx_space::od::snc::ProcessNoise3D;
use nyx_space::od::{ODError, TrackingDevice};
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::State;
use rand_pcg::Pcg64Mcg;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

/// position and velocity with an STM
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Nav {
    pub x: SVector<f64, 6>,
    pub phi: Option<SMatrix<f64, 6, 6>>,
    pub epoch: Epoch,
}
impl Default for Nav {
    fn default() -> Self {
        Nav { x: SVector::zeros(), phi: None, epoch: ep(0.0) }
    }
}
impl fmt::Display for Nav {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "nav")
    }
}
impl fmt::LowerExp for Nav {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "nav")
    }
}
impl State for Nav {
    type Size = Const<6>;
    type VecLength = Const<42>;
    fn to_vector(&self) -> OVector<f64, Const<42>> {
        let mut v = SVector::<f64, 42>::zeros();
        for i in 0..6 {
            v[i] = self.x[i];
        }
        if let Some(p) = self.phi {
            for i in 0..36 {
                v[6 + i] = p[(i / 6, i % 6)];
            }
        }
        v
    }
    fn stm(&self) -> Result<OMatrix<f64, Const<6>, Const<6>>, DynamicsError> {
        self.phi.ok_or(DynamicsError::StateTransitionMatrixUnset)
    }
    fn with_stm(mut self) -> Self {
        self.phi = Some(SMatrix::identity());
        self
    }
    fn reset_stm(&mut self) {
        self.phi = Some(SMatrix::identity());
    }
    fn unset_stm(&mut self) {
        self.phi = None;
    }
    fn set(&mut self, epoch: Epoch, v: &OVector<f64, Const<42>>) {
        for i in 0..6 {
            self.x[i] = v[i];
        }
        if self.phi.is_some() {
            self.phi = Some(SMatrix::from_fn(|i, j| v[6 + 6 * i + j]));
        }
        self.epoch = epoch;
    }
    fn add(mut self, d: OVector<f64, Const<6>>) -> Self {
        self.x += d;
        self
    }
    fn epoch(&self) -> Epoch {
        self.epoch
    }
    fn set_epoch(&mut self, epoch: Epoch) {
        self.epoch = epoch
    }
    fn orbit(&self) -> Orbit {
        let mut o = Orbit::zero(EARTH_J2000);
        o.epoch = self.epoch;
        for i in 0..3 {
            o.radius_km[i] = self.x[i];
            o.velocity_km_s[i] = self.x[i + 3];
        }
        o
    }
}
impl std::ops::Add<OVector<f64, Const<6>>> for Nav {
    type Output = Nav;
    fn add(self, d: OVector<f64, Const<6>>) -> Nav {
        State::add(self, d)
    }
}
impl Interpolatable for Nav {
    fn interpolate(self, _: Epoch, _: &[Self]) -> Result<Self, InterpolationError> {
        unreachable!("the trajectory given to the trackers has a state at the epoch of the measurement")
    }
    fn frame(&self) -> Frame {
        EARTH_J2000
    }
    fn set_frame(&mut self, _: Frame) {}
    fn export_params() -> Vec<StateParameter> {
        vec![]
    }
}
/// uniform motion: the flow and its STM are known in closed form
#[derive(Clone)]
pub struct Uniform;
impl Dynamics for Uniform {
    type HyperdualSize = Const<6>;
    type StateType = Nav;
    fn eom(&self, _: f64, v: &OVector<f64, Const<42>>, _: &Nav, _: &Almanac) -> Result<OVector<f64, Const<42>>, DynamicsError> {
        let mut d = SVector::<f64, 42>::zeros();
        for i in 0..3 {
            d[i] = v[i + 3];
            for j in 0..6 {
                d[6 + 6 * i + j] = v[6 + 6 * (i + 3) + j];
            }
        }
        Ok(d)
    }
    fn finally(&self, s: Nav, _: &Almanac) -> Result<Nav, DynamicsError> {
        Ok(s)
    }
}
pub fn flow(dt: f64) -> SMatrix<f64, 6, 6> {
    SMatrix::from_fn(|i, j| if i == j { 1.0 } else if i < 3 && j == i + 3 { dt } else { 0.0 })
}

/// an arbitrary tracker: any observation function, any sensitivity, any noise and bias
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dev {
    pub name: String,
    #[serde(skip)]
    pub types: IndexSet<MeasurementType>,
    pub visible: bool,
}
impl ConfigRepr for Dev {}
pub fn observe(name: &str, t: MeasurementType, s: &Nav) -> f64 {
    let mut a: Vec<f64> = s.x.iter().copied().collect();
    a.push(secs(s.epoch));
    uf(&format!("obs_{name}_{t:?}"), &a, -100.0, 100.0)
}
pub fn sens(name: &str, t: MeasurementType, s: &Nav) -> [f64; 6] {
    let a: Vec<f64> = s.x.iter().copied().collect();
    // each observable sees its own component (keeps the innovation covariance visibly positive definite)
    let mut h = [0.0; 6];
    h[if t == MeasurementType::Range { 0 } else { 4 }] = uf(&format!("h_{name}_{t:?}"), &a, -2.0, 2.0);
    h
}
pub fn noise(name: &str, t: MeasurementType) -> f64 {
    real(&format!("R_{name}_{t:?}"), 0.5, 10.0)
}
pub fn bias(name: &str, t: MeasurementType) -> f64 {
    real(&format!("B_{name}_{t:?}"), -5.0, 5.0)
}
impl TrackingDevice<Nav> for Dev {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn measurement_types(&self) -> &IndexSet<MeasurementType> {
        &self.types
    }
    fn measure(&mut self, epoch: Epoch, traj: &Traj<Nav>, rng: Option<&mut Pcg64Mcg>, al: &Almanac) -> Result<Option<Measurement>, ODError> {
        ensures("observations are computed without noise", rng.is_none());
        let s = traj.at(epoch);
        ensures("the trajectory covers the measurement", s.is_ok());
        self.measure_instantaneous(s.unwrap(), None, al)
    }
    fn location(&self, _: Epoch, _: Frame, _: &Almanac) -> AlmanacResult<Orbit> {
        unimplemented!()
    }
    fn measure_instantaneous(&mut self, s: Nav, _: Option<&mut Pcg64Mcg>, _: &Almanac) -> Result<Option<Measurement>, ODError> {
        if !self.visible {
            return Ok(None);
        }
        let mut m = Measurement::new(self.name.clone(), s.epoch);
        for t in &self.types {
            m.push(*t, observe(&self.name, *t, &s));
        }
        Ok(Some(m))
    }
    fn measurement_covar(&self, t: MeasurementType, _: Epoch) -> Result<f64, ODError> {
        Ok(noise(&self.name, t))
    }
    fn measurement_bias(&self, t: MeasurementType, _: Epoch) -> Result<f64, ODError> {
        Ok(bias(&self.name, t))
    }
}
impl TrackerSensitivity<Nav, Nav> for Dev {
    fn h_tilde<M: DimName>(&self, msr: &Measurement, types: &IndexSet<MeasurementType>, rx: &Nav, _: &Almanac) -> Result<OMatrix<f64, M, Const<6>>, ODError>
    where
        DefaultAllocator: Allocator<M> + Allocator<M, Const<6>>,
    {
        let mut h = OMatrix::<f64, M, Const<6>>::zeros();
        for (i, t) in types.iter().enumerate() {
            if msr.data.contains_key(t) {
                let r = sens(&self.name, *t, rx);
                for j in 0..6 {
                    h[(i, j)] = r[j];
                }
            }
        }
        Ok(h)
    }
}

type Odp<const M: usize> = KalmanODProcess<Uniform, Const<M>, U3, Dev>;
type Sol<const M: usize> = ODSolution<Nav, KfEstimate<Nav>, Const<M>, Dev>;

fn nav_eq(l: &str, a: &KfEstimate<Nav>, b: &KfEstimate<Nav>) {
    eq_mat(&format!("{l} covar"), &a.covar, &b.covar);
    eq_mat(&format!("{l} covar_bar"), &a.covar_bar, &b.covar_bar);
    eq_mat(&format!("{l} deviation"), &a.state_deviation, &b.state_deviation);
    eq_mat(&format!("{l} nominal"), &a.nominal_state.x, &b.nominal_state.x);
    eq_mat(&format!("{l} stm"), &a.stm, &b.stm);
    ensures_eq(&format!("{l} epoch"), secs(a.nominal_state.epoch), secs(b.nominal_state.epoch));
    ensures(&format!("{l} predicted flag"), a.predicted == b.predicted);
}
pub const MAXSTEP: f64 = 60.0;

struct Ref {
    kf: KalmanFilter<Nav, U3>,
    x: Nav,
    k: usize,
    gap: f64,
}
impl Ref {
    /// the filter advances the trajectory from the last update to `t`, then hands the state over with the STM since then
    fn advance(&mut self, dt: f64) {
        self.x.x = flow(dt) * self.x.x;
        self.x.epoch = ep(secs(self.x.epoch) + dt);
        self.gap += dt;
    }
    fn take<const M: usize>(&mut self, sol: &Sol<M>, what: &str) -> (usize, Nav) {
        ensures(&format!("{what}: an estimate is recorded"), sol.estimates.len() > self.k);
        let e = &sol.estimates[self.k];
        eq_mat("nominal state follows the dynamics", &e.nominal_state.x, &self.x.x);
        eq_mat("STM since the previous update", &e.stm, &flow(self.gap));
        ensures_eq("epoch of the estimate", secs(e.nominal_state.epoch), secs(self.x.epoch));
        let mut n = e.nominal_state;
        n.phi = Some(e.stm);
        self.k += 1;
        self.gap = 0.0;
        (self.k - 1, n)
    }
    fn time_update<const M: usize>(&mut self, sol: &Sol<M>) {
        let (k, n) = self.take(sol, "time update");
        let want = self.kf.time_update(n).unwrap();
        nav_eq("time update", &sol.estimates[k], &want);
        ensures("no residual or gain for a time update", sol.residuals[k].is_none() && sol.gains[k].is_none());
    }
}
fn types2() -> IndexSet<MeasurementType> {
    [MeasurementType::Range, MeasurementType::Doppler].into_iter().collect()
}

#[derive(Clone, Copy, Default)]
struct Cfg {
    snc: bool,
    blind: bool,
    threshold: bool,
    force: bool,
    modulus: bool,
    cases: bool,
    long: bool,
    same: bool,
}
fn arc_case<const M: usize>(n_msr: usize, c: Cfg) {
    let snc = c.snc;
    bounded("arcs of 2 measurement epochs, each at most two navigation steps apart; two observables");
    let va = if flag("deviation_tracking") { KalmanVariant::DeviationTracking } else { KalmanVariant::ReferenceUpdate };
    let t0 = real("t0", -1e6, 1e6);
    let mut s0 = Nav { x: sym_vec::<6>("x", 10.0), phi: None, epoch: ep(t0) };
    let diag = SVector::<f64, 6>::from_fn(|i, _| real(&format!("P{i}"), 0.1, 10.0));
    let mut est0 = KfEstimate::from_diag(s0, diag);
    est0.state_deviation = sym_vec::<6>("dx", 1.0);
    s0.phi = Some(SMatrix::identity());
    let mut devices = BTreeMap::new();
    let visible = !c.blind;
    devices.insert("A".to_string(), Dev { name: "A".to_string(), types: types2(), visible });
    if c.same {
        devices.insert("B".to_string(), Dev { name: "B".to_string(), types: types2(), visible });
    }
    // the arc
    let mut msrs = vec![];
    let mut t = t0;
    for i in 0..n_msr {
        // measurements not within a microsecond of a navigation step
        let tracker = if c.same && i > 0 { "B" } else { "A" };
        t = t + if c.same && i > 0 {
            0.0
        } else if c.long && flag(&format!("long{i}")) { real(&format!("gap{i}"), 61.0, 100.0) } else { real(&format!("gap{i}"), 0.01, 59.0) };
        let mut m = Measurement::new(tracker.to_string(), ep(t));
        match if i == 0 && c.cases { choose("case", 4) } else { 0 } {
            0 => {}
            1 => m.rejected = true,
            2 => m.tracker = "unknown".to_string(),
            _ => m = Measurement::new("A".to_string(), ep(t)).with(MeasurementType::Doppler, real("only", -100.0, 100.0)),
        }
        if m.data.is_empty() {
            m.push(MeasurementType::Range, real(&format!("rng{i}"), -100.0, 100.0));
            // the second observable of the later epochs is missing
            if i == 0 || M == 2 {
                m.push(MeasurementType::Doppler, real(&format!("dop{i}"), -100.0, 100.0));
            }
        }
        msrs.push(m);
    }
    let mut arc = TrackingDataArc { measurements: msrs.clone(), ..Default::default() };
    let reject = if c.threshold { Some(SigmaRejection { num_sigmas: real("nsig", 0.5, 5.0) }) } else { None };
    arc.force_reject = c.force;
    let modulus = if c.modulus { Some(real("modulus", 1.0, 50.0)) } else { None };
    if let Some(m) = modulus {
        arc.moduli = Some([(MeasurementType::Range, m)].into_iter().collect());
    }
    let p = Propagator::new(Uniform, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(MAXSTEP)));
    let mut odp = Odp::<M>::new(p, va, reject, devices, Arc::new(Almanac::default()));
    let mut kf = KalmanFilter::<Nav, U3>::new(est0, va);
    if snc {
        let q = ProcessNoise3D::with_decay(&[real("q", 0.0, 1.0); 3], dur(80.0), &[0.01; 3], None);
        odp = odp.with_process_noise(q.clone());
        kf = KalmanFilter::<Nav, U3>::from_process_noise(est0, va, q);
    }
    let sol: Sol<M> = match odp.process_arc(est0, &arc) {
        // P15 shows that a positive definite innovation is never refused
        Err(ODError::SingularKalmanGain) => return,
        r => r.unwrap(),
    };
    cover("arc processed");
    let n = sol.estimates.len();
    ensures("one residual, gain and ratio slot per estimate", sol.residuals.len() == n && sol.gains.len() == n && sol.filter_smoother_ratios.len() == n);
    let mut r = Ref { kf, x: s0, k: 0, gap: 0.0 };
    let mut now = t0;
    for m in &msrs {
        let tm = secs(m.epoch);
        while tm - now > MAXSTEP {
            r.advance(MAXSTEP);
            now = now + MAXSTEP;
            r.time_update(&sol);
        }
        r.advance(tm - now);
        now = tm;
        if m.rejected {
            cover("manually rejected");
            r.time_update(&sol);
            continue;
        }
        let trk = m.tracker.as_str();
        if trk == "unknown" || !visible {
            cover("not expected");
            continue;
        }
        let all: Vec<_> = types2().into_iter().collect();
        for w in all.chunks(M) {
            if !w.iter().any(|t| m.data.contains_key(t)) {
                continue;
            }
            let (k, nominal) = r.take(&sol, "measurement");
            let h = SMatrix::<f64, M, 6>::from_fn(|i, j| if m.data.contains_key(&w[i]) { sens(trk, w[i], &nominal)[j] } else { 0.0 });
            let rk = SMatrix::<f64, M, M>::from_fn(|i, j| if i == j { noise(trk, w[i]) } else { 0.0 });
            let comp = SVector::<f64, M>::from_fn(|i, _| observe(trk, w[i], &nominal) + bias(trk, w[i]));
            let mut obs = SVector::<f64, M>::from_fn(|i, _| m.data.get(&w[i]).copied().unwrap_or(0.0));
            let res = sol.residuals[k].as_ref();
            ensures("a measurement update has a residual", res.is_some());
            let res = res.unwrap();
            for i in 0..M {
                if let (Some(md), MeasurementType::Range) = (modulus, w[i]) {
                    // the ambiguity is resolved to the closest candidate
                    let o = res.real_obs[i];
                    ensures_le("ambiguity resolved (above)", o - comp[i], md / 2.0);
                    ensures_le("ambiguity resolved (below)", comp[i] - o, md / 2.0);
                    let kk = ((comp[i] - obs[i]) / md).round();
                    ensures_eq("a whole number of moduli is added", o, obs[i] + kk * md);
                    obs[i] = o;
                }
            }
            let rej = if arc.force_reject { None } else { reject };
            if arc.force_reject {
                cover("force reject");
                ensures("force_reject rejects every measurement", res.rejected);
                let want = r.kf.time_update(nominal).unwrap();
                nav_eq("forced rejection", &sol.estimates[k], &want);
            } else {
                let (want, wres, gain) = r.kf.measurement_update(nominal, obs, comp, rk, h, rej).unwrap();
                nav_eq("measurement update", &sol.estimates[k], &want);
                eq_mat("prefit", &res.prefit, &wres.prefit);
                ensures_eq("ratio", res.ratio, wres.ratio);
                ensures("rejection", res.rejected == wres.rejected);
                if !wres.rejected {
                    eq_mat("postfit", &res.postfit, &wres.postfit);
                }
                ensures("gain stored", gain.is_some() == sol.gains[k].is_some());
                if let (Some(a), Some(b)) = (gain, sol.gains[k]) {
                    eq_mat("gain", &b, &a);
                }
            }
            ensures("tracker recorded", res.tracker.as_deref() == Some(trk));
            ensures("types recorded", res.msr_types.iter().copied().collect::<Vec<_>>() == w);
            // the next leg starts from the estimate when the reference is updated
            if va == KalmanVariant::ReferenceUpdate && !res.rejected {
                cover("reference updated");
                r.x.x = sol.estimates[k].nominal_state.x + sol.estimates[k].state_deviation;
            }
        }
    }
    ensures("no other estimate is recorded", n == r.k);
}
fn od_arc_scalar() {
    arc_case::<1>(2, Cfg { cases: true, ..Default::default() });
}
fn od_arc_steps() {
    arc_case::<1>(2, Cfg { long: true, ..Default::default() });
}
fn od_arc_vector() {
    arc_case::<2>(2, Cfg { cases: true, ..Default::default() });
}
fn od_arc_snc() {
    arc_case::<1>(2, Cfg { snc: true, long: true, ..Default::default() });
}
fn od_arc_threshold() {
    arc_case::<1>(2, Cfg { threshold: true, ..Default::default() });
}
fn od_arc_force() {
    arc_case::<1>(2, Cfg { force: true, ..Default::default() });
}
fn od_arc_modulus() {
    arc_case::<1>(2, Cfg { modulus: true, ..Default::default() });
}
/// simultaneous measurements of two trackers
fn od_arc_same() {
    arc_case::<1>(2, Cfg { same: true, cases: true, ..Default::default() });
}
fn od_arc_blind() {
    arc_case::<1>(2, Cfg { blind: true, long: true, ..Default::default() });
}
/// predictions: time updates every max_step, the last one exactly at the end
fn od_predict() {
    bounded("predictions of at most three navigation steps");
    let va = if flag("deviation_tracking") { KalmanVariant::DeviationTracking } else { KalmanVariant::ReferenceUpdate };
    let t0 = real("t0", -1e6, 1e6);
    let s0 = Nav { x: sym_vec::<6>("x", 10.0), phi: None, epoch: ep(t0) };
    let mut est0 = KfEstimate::from_diag(s0, SVector::<f64, 6>::from_fn(|i, _| real(&format!("P{i}"), 0.1, 10.0)));
    est0.state_deviation = sym_vec::<6>("dx", 1.0);
    let q = ProcessNoise3D::with_decay(&[real("q", 0.0, 1.0); 3], dur(80.0), &[0.01; 3], None);
    let p = Propagator::new(Uniform, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(MAXSTEP)));
    let odp = Odp::<1>::new(p, va, None, BTreeMap::new(), Arc::new(Almanac::default())).with_process_noise(q.clone());
    let d = real("duration", 0.01, 180.0);
    let sol: Sol<1> = if flag("until") { odp.predict_until(est0, ep(t0 + d)).unwrap() } else { odp.predict_for(est0, dur(d)).unwrap() };
    cover("predicted");
    nav_eq("the first estimate is the initial one", &sol.estimates[0], &est0);
    let kf = KalmanFilter::<Nav, U3>::from_process_noise(est0, va, q);
    let mut r = Ref { kf, x: s0, k: 1, gap: 0.0 };
    let mut now = 0.0;
    while d - now > MAXSTEP {
        r.advance(MAXSTEP);
        now = now + MAXSTEP;
        r.time_update(&sol);
    }
    r.advance(d - now);
    r.time_update(&sol);
    ensures("the prediction stops at the requested epoch", sol.estimates.len() == r.k);
}
fn od_few() {
    let n = choose("n", 2);
    let t0 = real("t0", -1e6, 1e6);
    let est0 = KfEstimate::from_diag(Nav { x: sym_vec::<6>("x", 10.0), phi: None, epoch: ep(t0) }, SVector::repeat(1.0));
    let p = Propagator::new(Uniform, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(MAXSTEP)));
    let odp = Odp::<1>::new(p, KalmanVariant::ReferenceUpdate, None, BTreeMap::new(), Arc::new(Almanac::default()));
    let arc = TrackingDataArc { measurements: (0..n).map(|_| Measurement::new("A".into(), ep(t0 + 1.0))).collect(), ..Default::default() };
    cover("too few");
    ensures("fewer than two measurements are refused", odp.process_arc(est0, &arc).is_err());
}

pub fn list() -> Vec<Harness> {
    let od: &[&str] = &["od::process::process_arc", "od::process::predict_until", "od::process::predict_for", "od::process::solution::push_*"];
    vec![
        Harness { name: "od_arc_scalar", property: "P17", functions: od, f: od_arc_scalar, may_panic: false },
        Harness { name: "od_arc_steps", property: "P17", functions: od, f: od_arc_steps, may_panic: false },
        Harness { name: "od_arc_vector", property: "P17", functions: od, f: od_arc_vector, may_panic: false },
        Harness { name: "od_arc_snc", property: "P17", functions: od, f: od_arc_snc, may_panic: false },
        Harness { name: "od_arc_threshold", property: "P17", functions: od, f: od_arc_threshold, may_panic: false },
        Harness { name: "od_arc_force", property: "P17", functions: od, f: od_arc_force, may_panic: false },
        Harness { name: "od_arc_modulus", property: "P17", functions: od, f: od_arc_modulus, may_panic: false },
        Harness { name: "od_arc_same", property: "P17", functions: od, f: od_arc_same, may_panic: false },
        Harness { name: "od_arc_blind", property: "P17", functions: od, f: od_arc_blind, may_panic: false },
        Harness { name: "od_predict", property: "P17", functions: od, f: od_predict, may_panic: false },
        Harness { name: "od_few", property: "P17", functions: od, f: od_few, may_panic: false },
    ]
}
