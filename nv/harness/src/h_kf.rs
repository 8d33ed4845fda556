//! Kalman filter: time update, measurement update, residuals, estimates (P15), process noise (P16).
use crate::common::*;
use anise::constants::frames::EARTH_J2000;
use anise::prelude::{Frame, Orbit};
use hifitime::Epoch;
use nalgebra::{Const, OMatrix, OVector, SMatrix, SVector, Vector3, U3, U6};
use nvrt::*;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::dynamics::DynamicsError;
use nyx_space::od::estimate::{Estimate, KfEstimate, Residual};
use nyx_space::od::kalman::{KalmanFilter, KalmanVariant};
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::process::SigmaRejection;
use nyx_space::od::snc::{ProcessNoise, ProcessNoise3D, ProcessNoise6D};
use nyx_space::{Spacecraft, State};
use std::fmt;

/// a state with an STM and an orbit
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ks<const N: usize> {
    pub x: SVector<f64, N>,
    pub phi: Option<SMatrix<f64, N, N>>,
    pub epoch: Epoch,
    pub orbit: Orbit,
}
impl<const N: usize> Default for Ks<N> {
    fn default() -> Self {
        Ks { x: SVector::zeros(), phi: None, epoch: ep(0.0), orbit: Orbit::zero(EARTH_J2000) }
    }
}
impl<const N: usize> fmt::Display for Ks<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "ks")
    }
}
impl<const N: usize> fmt::LowerExp for Ks<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "ks")
    }
}
macro_rules! ks {
    ($n:literal) => {
        impl State for Ks<$n> {
            type Size = Const<$n>;
            type VecLength = Const<$n>;
            fn to_vector(&self) -> OVector<f64, Const<$n>> {
                self.x
            }
            fn stm(&self) -> Result<OMatrix<f64, Const<$n>, Const<$n>>, DynamicsError> {
                self.phi.ok_or(DynamicsError::StateTransitionMatrixUnset)
            }
            fn with_stm(mut self) -> Self {
                self.phi = Some(SMatrix::identity());
                self
            }
            fn reset_stm(&mut self) {
                self.phi = Some(SMatrix::identity());
            }
            fn unset_stm(&mut self) {
                self.phi = None;
            }
            fn set(&mut self, epoch: Epoch, v: &OVector<f64, Const<$n>>) {
                self.x = *v;
                self.epoch = epoch;
            }
            fn add(mut self, d: OVector<f64, Const<$n>>) -> Self {
                self.x += d;
                self
            }
            fn epoch(&self) -> Epoch {
                self.epoch
            }
            fn set_epoch(&mut self, epoch: Epoch) {
                self.epoch = epoch
            }
            fn orbit(&self) -> Orbit {
                let mut o = self.orbit;
                o.epoch = self.epoch;
                o
            }
        }
    };
}
ks!(2);
ks!(3);
ks!(6);

fn spd<const N: usize>(name: &str, m: f64) -> SMatrix<f64, N, N> {
    SMatrix::from_fn(|i, j| {
        let (a, b) = (i.min(j), i.max(j));
        if a == b { real(&format!("{name}[{a}{b}]"), 0.0, m) } else { real(&format!("{name}[{a}{b}]"), -m, m) }
    })
}
fn variant() -> KalmanVariant {
    if flag("deviation_tracking") { KalmanVariant::DeviationTracking } else { KalmanVariant::ReferenceUpdate }
}
fn prior<const N: usize>(t0: f64, identity: bool) -> (KfEstimate<Ks<N>>, Ks<N>, f64)
where
    Ks<N>: State<Size = Const<N>, VecLength = Const<N>>,
{
    let mut s0 = Ks::<N>::default();
    s0.x = sym_vec::<N>("x0", 10.0);
    s0.epoch = ep(t0);
    let mut est = KfEstimate::from_covar(s0, spd::<N>("P", 10.0));
    est.state_deviation = sym_vec::<N>("dx", 10.0);
    let t1 = t0 + real("gap", 0.0, 1e4);
    let mut s1 = Ks::<N>::default();
    s1.x = sym_vec::<N>("x1", 10.0);
    s1.epoch = ep(t1);
    s1.phi = Some(if identity { SMatrix::identity() } else { sym_mat::<N, N>("Phi", 5.0) });
    (est, s1, t1)
}
fn est_eq<const N: usize>(l: &str, a: &KfEstimate<Ks<N>>, b: &KfEstimate<Ks<N>>)
where
    Ks<N>: State<Size = Const<N>, VecLength = Const<N>>,
{
    eq_mat(&format!("{l} covar"), &a.covar, &b.covar);
    eq_mat(&format!("{l} covar_bar"), &a.covar_bar, &b.covar_bar);
    eq_mat(&format!("{l} deviation"), &a.state_deviation, &b.state_deviation);
    eq_mat(&format!("{l} nominal"), &a.nominal_state.x, &b.nominal_state.x);
    eq_mat(&format!("{l} stm"), &a.stm, &b.stm);
    ensures_eq(&format!("{l} epoch"), secs(a.nominal_state.epoch), secs(b.nominal_state.epoch));
    ensures(&format!("{l} predicted flag"), a.predicted == b.predicted);
}
/// time update without process noise, any size
fn time_update_n<const N: usize>()
where
    Ks<N>: State<Size = Const<N>, VecLength = Const<N>>,
{
    let (est, s1, _) = prior::<N>(real("t0", -1e6, 1e6), false);
    let va = variant();
    let mut kf = KalmanFilter::<Ks<N>, U3>::new(est, va);
    ensures("new filter has no process noise", kf.process_noise.is_empty());
    est_eq("initial estimate", kf.previous_estimate(), &est);
    if flag("no_stm") {
        let mut s = s1;
        s.phi = None;
        cover("no stm");
        ensures("a state without STM is refused", kf.time_update(s).is_err());
        est_eq("a refused update leaves the filter untouched", kf.previous_estimate(), &est);
        return;
    }
    let r = kf.time_update(s1).unwrap();
    cover("time update");
    let phi = s1.phi.unwrap();
    let want = KfEstimate {
        nominal_state: s1,
        state_deviation: if va == KalmanVariant::DeviationTracking { phi * est.state_deviation } else { SVector::zeros() },
        covar: phi * est.covar * phi.transpose(),
        covar_bar: phi * est.covar * phi.transpose(),
        predicted: true,
        stm: phi,
    };
    est_eq("time update", &r, &want);
    est_eq("time update stored", kf.previous_estimate(), &want);
    ensures("state replaced only by the reference update", kf.replace_state() == (va == KalmanVariant::ReferenceUpdate));
    // a second step chains onto the first
    let mut s2 = s1;
    s2.phi = Some(SMatrix::from_fn(|i, j| if i == j { real(&format!("q{i}"), -5.0, 5.0) } else { 0.0 }));
    let p2 = s2.phi.unwrap();
    let r2 = kf.time_update(s2).unwrap();
    eq_mat("chained covariance", &r2.covar, &(p2 * want.covar * p2.transpose()));
}
fn kf_time_update() {
    time_update_n::<2>();
}
fn kf_time_update6() {
    time_update_n::<6>();
}

fn msr_update<const N: usize, const M: usize>(identity: bool)
where
    Ks<N>: State<Size = Const<N>, VecLength = Const<N>>,
{
    let (est, s1, t1) = prior::<N>(real("t0", -1e6, 1e6), identity);
    let phi = s1.phi.unwrap();
    let va = variant();
    let mut kf = KalmanFilter::<Ks<N>, U3>::new(est, va);
    let real_obs = sym_vec::<M>("real", 10.0);
    let comp = sym_vec::<M>("comp", 10.0);
    let rk = spd::<M>("R", 10.0);
    // two observables: each sees its own component (the single-observable contract has an arbitrary sensitivity)
    let h = if M == 2 {
        SMatrix::from_fn(|i, j| if i == j { real(&format!("H{i}"), 0.1, 10.0) } else { 0.0 })
    } else {
        sym_mat::<M, N>("H", 10.0)
    };
    let pbar = phi * est.covar * phi.transpose();
    let s = h * pbar * h.transpose() + rk;
    // the innovation covariance is positive definite (R is, in every use)
    assume_lt(0.0, s[(0, 0)]);
    if M == 2 {
        assume_lt(0.0, s[(0, 0)] * s[(1, 1)] - s[(0, 1)] * s[(0, 1)]);
        assume_lt(0.0, s[(1, 1)]);
    }
    let rej = if flag("reject") { Some(SigmaRejection { num_sigmas: real("nsig", 0.5, 10.0) }) } else { None };
    let (e, res, gain) = kf.measurement_update(s1, real_obs, comp, rk, h, rej).unwrap();
    let y = real_obs - comp;
    eq_mat("prefit is observed minus computed", &res.prefit, &y);
    eq_mat("real obs recorded", &res.real_obs, &real_obs);
    eq_mat("computed obs recorded", &res.computed_obs, &comp);
    ensures_eq("residual epoch", secs(res.epoch), t1);
    for i in 0..M {
        ensures_eq("innovation sigma squared", res.tracker_msr_noise[i] * res.tracker_msr_noise[i], s[(i, i)]);
        ensures_le("innovation sigma sign", 0.0, res.tracker_msr_noise[i]);
    }
    // Mahalanobis distance: M ratio^2 det(S) = y' adj(S) y
    let (maha, det) = if M == 1 {
        (y[0] * y[0], s[(0, 0)])
    } else {
        (
            y[0] * y[0] * s[(1, 1)] - y[0] * y[1] * (s[(0, 1)] + s[(1, 0)]) + y[1] * y[1] * s[(0, 0)],
            s[(0, 0)] * s[(1, 1)] - s[(0, 1)] * s[(1, 0)],
        )
    };
    ensures_eq("ratio is the Mahalanobis distance per component", (M as f64) * res.ratio * res.ratio * det, maha);
    ensures_le("ratio is non-negative", 0.0, res.ratio);
    ensures_eq("NIS", res.nis() * det, maha);
    ensures("rejected iff beyond the threshold", res.rejected == rej.map(|r| res.ratio > r.num_sigmas).unwrap_or(false));
    if res.rejected {
        cover("rejected");
        ensures("no gain when rejected", gain.is_none());
        let want = KfEstimate {
            nominal_state: s1,
            state_deviation: if va == KalmanVariant::DeviationTracking { phi * est.state_deviation } else { SVector::zeros() },
            covar: pbar,
            covar_bar: pbar,
            predicted: true,
            stm: phi,
        };
        est_eq("rejection is a time update", &e, &want);
        est_eq("rejection stored", kf.previous_estimate(), &want);
        return;
    }
    cover("accepted");
    let k = gain.unwrap();
    eq_mat("K S = P H'", &(k * s), &(pbar * h.transpose()));
    let xbar: SVector<f64, N> = if va == KalmanVariant::DeviationTracking { phi * est.state_deviation } else { SVector::zeros() };
    let hx: SVector<f64, M> = h * xbar;
    let innov: SVector<f64, M> = y - hx;
    eq_mat("state update", &e.state_deviation, &(xbar + k * innov));
    match va {
        KalmanVariant::DeviationTracking => eq_mat("postfit", &res.postfit, &innov),
        KalmanVariant::ReferenceUpdate => eq_mat("postfit", &res.postfit, &(y - h * e.state_deviation)),
    }
    eq_mat("covariance is symmetric", &e.covar, &e.covar.transpose());
    eq_mat("covariance update P - K H P", &e.covar, &(pbar - k * h * pbar));
    eq_mat("predicted covariance", &e.covar_bar, &pbar);
    eq_mat("stm recorded", &e.stm, &phi);
    eq_mat("nominal kept", &e.nominal_state.x, &s1.x);
    ensures("not a prediction", !e.predicted);
    est_eq("stored", kf.previous_estimate(), &e);
    ensures_eq("the estimate is nominal plus deviation", e.state().x[0], s1.x[0] + e.state_deviation[0]);
}
fn kf_msr1() {
    msr_update::<2, 1>(false);
}
fn kf_msr2() {
    msr_update::<2, 2>(true);
}
fn kf_msr3() {
    msr_update::<3, 1>(true);
}
/// a missing STM refuses the measurement update; degenerate innovation is an error, not a wrong estimate
fn kf_refuse() {
    let (est, mut s1, _) = prior::<2>(real("t0", -1e6, 1e6), false);
    s1.phi = None;
    let mut kf = KalmanFilter::<Ks<2>, U3>::new(est, variant());
    let one = SVector::<f64, 1>::new(real("z", -1.0, 1.0));
    let h = sym_mat::<1, 2>("H", 10.0);
    cover("no stm");
    ensures("refused without STM", kf.measurement_update(s1, one, one, SMatrix::<f64, 1, 1>::new(1.0), h, None).is_err());
    est_eq("refused: filter untouched", kf.previous_estimate(), &est);
}
fn kf_estimate() {
    let mut s = Ks::<3>::default();
    s.x = sym_vec::<3>("x", 10.0);
    s.epoch = ep(real("t", -1e6, 1e6));
    let d = sym_vec::<3>("d", 10.0);
    for i in 0..3 {
        assume_le(0.0, d[i]);
    }
    let a = KfEstimate::from_diag(s, d);
    let b = KfEstimate::from_covar(s, SMatrix::from_diagonal(&d));
    est_eq("diag", &a, &b);
    eq_mat("no deviation", &a.state_deviation, &SVector::zeros());
    eq_mat("diag covar", &a.covar, &SMatrix::from_diagonal(&d));
    ensures("prediction", a.predicted);
    eq_mat("identity stm", &a.stm, &SMatrix::identity());
    let mut e = a;
    let dev = sym_vec::<3>("dev", 10.0);
    e.set_state_deviation(dev);
    eq_mat("state = nominal + deviation", &e.state().x, &(s.x + dev));
    eq_mat("deviation read back", &e.state_deviation(), &dev);
    ensures_eq("epoch", secs(e.epoch()), secs(s.epoch));
    let c = spd::<3>("C", 4.0);
    e.set_covar(c);
    eq_mat("covar read back", &e.covar(), &c);
    eq_mat("predicted covar", &e.predicted_covar(), &a.covar_bar);
    eq_mat("nominal", &e.nominal_state().x, &s.x);
    let sg = real("sg", 0.0, 5.0);
    let inside = (0..3).all(|i| {
        let b = c[(i, i)].sqrt() * sg;
        dev[i] <= b && dev[i] >= -b
    });
    cover("sigma");
    ensures("within sigma", e.within_sigma(sg) == inside);
    let m = e * real("scale", -5.0, 5.0);
    eq_mat("scaling an estimate scales its standard deviations", &m.covar, &(c * (real("scale", -5.0, 5.0) * real("scale", -5.0, 5.0))));
}
fn kf_residual() {
    let v: Vec<SVector<f64, 2>> = (0..6).map(|k| sym_vec::<2>(&format!("v{k}"), 10.0)).collect();
    let rejected = flag("rejected");
    let mut r = if rejected {
        Residual::<Const<2>>::rejected(ep(real("t", 0.0, 1.0)), v[0], v[1], real("ratio", 0.0, 9.0), v[3], v[4], v[5])
    } else {
        Residual::<Const<2>>::accepted(ep(real("t", 0.0, 1.0)), v[0], v[1], v[2], real("ratio", 0.0, 9.0), v[3], v[4], v[5])
    };
    ensures("flag", r.rejected == rejected);
    let (a, b) = if flag("swap") { (MeasurementType::Doppler, MeasurementType::Range) } else { (MeasurementType::Range, MeasurementType::Doppler) };
    r.msr_types = [a, b].into_iter().collect();
    cover("accessors");
    for (i, t) in [a, b].into_iter().enumerate() {
        ensures_eq("prefit by type", r.prefit(t).unwrap(), v[0][i]);
        ensures_eq("whitened by type", r.whitened_resid(t).unwrap(), v[1][i]);
        if !rejected {
            ensures_eq("postfit by type", r.postfit(t).unwrap(), v[2][i]);
        }
        ensures_eq("noise by type", r.trk_noise(t).unwrap(), v[3][i]);
        ensures_eq("real by type", r.real_obs(t).unwrap(), v[4][i]);
        ensures_eq("computed by type", r.computed_obs(t).unwrap(), v[5][i]);
    }
    ensures("absent type", r.prefit(MeasurementType::Azimuth).is_none() && r.postfit(MeasurementType::Azimuth).is_none());
    ensures_eq("nis", r.nis(), v[1][0] * v[1][0] + v[1][1] * v[1][1]);
}

// ---------------------------------------------------------------- process noise
struct Q {
    d: [f64; 3],
    snc: ProcessNoise3D,
    dis: f64,
    t0: f64,
    start: Option<f64>,
    decay: Option<[f64; 3]>,
}
/// an arbitrary 3D process noise: with or without start time, decay; `frame` its definition frame
fn any_snc(n: &str, frame: Option<LocalFrame>, t0: f64) -> Q {
    let d = [0, 1, 2].map(|i| real(&format!("{n}q{i}"), 0.0, 10.0));
    let dis = real(&format!("{n}disable"), 0.0, 1e4);
    let (mut snc, start, decay) = match choose(&format!("{n}kind"), 3) {
        0 => (ProcessNoise3D::from_diagonal(&d, dur(dis), frame), None, None),
        1 => {
            let s = real(&format!("{n}start"), -1e6, 1e6);
            (ProcessNoise3D::with_start_time(dur(dis), &d, ep(s)), Some(s), None)
        }
        _ => {
            let c = [0, 1, 2].map(|i| real(&format!("{n}decay{i}"), 0.0, 1e-5));
            (ProcessNoise3D::with_decay(&d, dur(dis), &c, frame), None, Some(c))
        }
    };
    if start.is_some() {
        snc.local_frame = frame;
    }
    ensures("not yet used", snc.prev_epoch.is_none() && snc.init_epoch.is_none());
    Q { d, snc, dis, t0, start, decay }
}
/// acceleration noise densities at `t`, None when disabled
fn q_at(q: &Q, t: f64, prev: Option<f64>) -> Option<[f64; 3]> {
    if let Some(s) = q.start {
        if s > t {
            return None;
        }
    }
    if let Some(p) = prev {
        if t - p > q.dis {
            return None;
        }
    }
    Some([0, 1, 2].map(|i| match q.decay {
        Some(c) => q.d[i] * (-c[i] * (t - q.t0)).exp(),
        None => q.d[i],
    }))
}
fn gamma_q<const S: usize>(q: [f64; 3], dt: f64) -> SMatrix<f64, S, S> {
    SMatrix::from_fn(|i, j| {
        if i > 5 || j > 5 || i % 3 != j % 3 {
            return 0.0;
        }
        let g = |k: usize| if k < 3 { dt * dt / 2.0 } else { dt };
        g(i) * g(j) * q[i % 3]
    })
}
fn snc_matrix() {
    let t0 = real("t0", -1e6, 1e6);
    let mut q = any_snc("", None, t0);
    q.snc.init_epoch = Some(ep(t0));
    let prev = if flag("prev") { Some(real("prev", -1e6, 1e6)) } else { None };
    q.snc.prev_epoch = prev.map(ep);
    let t = real("t", -1e6, 1e6);
    let m = q.snc.to_matrix(ep(t));
    match (m, q_at(&q, t, prev)) {
        (None, None) => cover("disabled"),
        (Some(m), Some(w)) => {
            cover("enabled");
            eq_mat("noise density", &m, &SMatrix::from_diagonal(&Vector3::from(w)));
        }
        _ => ensures("process noise applies exactly between its start and its disable time", false),
    }
}
/// the mapping of the acceleration noise onto the covariance, in the state frame or from a local frame
fn snc_propagate() {
    let t0 = real("t0", -1e6, 1e6);
    let frame = if flag("local") { Some(LocalFrame::RIC) } else { None };
    let mut q = any_snc("", frame, t0);
    q.snc.init_epoch = Some(ep(t0));
    let t = real("t", -1e6, 1e6);
    let dt = real("dt", 0.0, 1e4);
    // planar orbit with symbolic polar position and an in-plane velocity
    let (th, r) = (real("th", -0.7, 0.7), real("r", 1.0, 10.0));
    let (vr, vt) = (real("vr", -1.0, 1.0), real("vt", 0.1, 3.0));
    let o = Orbit {
        radius_km: Vector3::new(r * th.cos(), r * th.sin(), 0.0),
        velocity_km_s: Vector3::new(vr * th.cos() - vt * th.sin(), vr * th.sin() + vt * th.cos(), 0.0),
        epoch: ep(t),
        frame: EARTH_J2000,
    };
    let nine = flag("nine");
    let got: Option<SMatrix<f64, 9, 9>> = if nine {
        q.snc.propagate::<Const<9>>(o, dur(dt)).unwrap()
    } else {
        q.snc.propagate::<Const<6>>(o, dur(dt)).unwrap().map(|m| m.fixed_resize(0.0))
    };
    match (got, q_at(&q, t, None).filter(|_| dt <= q.dis)) {
        (None, None) => cover("disabled"),
        (Some(m), Some(w)) => {
            cover("enabled");
            // radial, in-track, cross-track -> inertial axes: the variances add up along each axis
            let w = if frame.is_some() {
                let (c, s) = (th.cos(), th.sin());
                [w[0] * c * c + w[1] * s * s, w[0] * s * s + w[1] * c * c, w[2]]
            } else {
                w
            };
            eq_mat("process noise covariance", &m, &gamma_q::<9>(w, dt));
        }
        _ => ensures("no process noise beyond the disable time", false),
    }
}
/// the filter uses the last applicable process noise only, in both updates, over the time since the previous estimate
fn snc_in_filter() {
    let t0 = real("t0", -1e6, 1e6);
    let gap = real("gap", 0.0, 1e4);
    let mut s0 = Ks::<6>::default();
    s0.epoch = ep(t0);
    let est = KfEstimate::from_covar(s0, spd::<6>("P", 10.0));
    let (q1, q2) = (any_snc("a", None, t0), any_snc("b", None, t0));
    let mut kf = match choose("build", 3) {
        0 => KalmanFilter::<Ks<6>, U3>::from_process_noise(est, variant(), q1.snc.clone()).and_with_process_noise(q2.snc.clone()),
        1 => KalmanFilter::<Ks<6>, U3>::new(est, variant()).with_process_noise(q1.snc.clone()).and_with_process_noise(q2.snc.clone()),
        _ => KalmanFilter::<Ks<6>, U3>::from_process_noise(est, variant(), q2.snc.clone()).with_process_noise(q1.snc.clone()).and_with_process_noise(q2.snc.clone()),
    };
    ensures("both noises are kept, in order", kf.process_noise.len() == 2);
    for (k, q) in kf.process_noise.iter().zip([&q1, &q2]) {
        ensures_eq("decay starts at the initial estimate", secs(k.init_epoch.unwrap()), t0);
        ensures("same start", k.start_time == q.snc.start_time);
    }
    let mut s1 = Ks::<6>::default();
    s1.epoch = ep(t0 + gap);
    let phi = SMatrix::identity();
    s1.phi = Some(phi);
    let t1 = t0 + gap;
    let pick = |p: Option<f64>, t: f64, dt: f64| -> SMatrix<f64, 6, 6> {
        for q in [&q2, &q1] {
            if let Some(w) = q_at(q, t, p) {
                if dt <= q.dis {
                    return gamma_q::<6>(w, dt);
                }
            }
        }
        SMatrix::zeros()
    };
    let want = est.covar + pick(None, t1, gap);
    let e = if flag("measurement") {
        cover("measurement update");
        let h = SMatrix::<f64, 1, 6>::from_fn(|_, j| if j == 1 { 1.0 } else { 0.0 });
        let rk = real("R", 0.1, 10.0);
        assume_lt(0.0, want[(1, 1)] + rk);
        let y = SVector::<f64, 1>::new(real("y", -10.0, 10.0));
        let (e, _, _) = kf.measurement_update(s1, y, SVector::<f64, 1>::zeros(), SMatrix::<f64, 1, 1>::new(rk), h, None).unwrap();
        e
    } else {
        cover("time update");
        let e = kf.time_update(s1).unwrap();
        eq_mat("covariance with process noise", &e.covar, &want);
        e
    };
    eq_mat("predicted covariance with process noise", &e.covar_bar, &want);
    for k in &kf.process_noise {
        ensures_eq("last use recorded", secs(k.prev_epoch.unwrap()), t1);
    }
}
/// after a use, a later update counts from the last estimate
fn snc_second_use() {
    let t0 = real("t0", -1e6, 1e6);
    let (g1, g2) = (real("gap1", 0.0, 1e4), real("gap2", 0.0, 1e4));
    let mut s0 = Ks::<6>::default();
    s0.epoch = ep(t0);
    let est = KfEstimate::from_covar(s0, spd::<6>("P", 10.0));
    let q = any_snc("a", None, t0);
    let mut kf = KalmanFilter::<Ks<6>, U3>::from_process_noise(est, variant(), q.snc.clone());
    let mut s1 = s0;
    s1.phi = Some(SMatrix::identity());
    s1.epoch = ep(t0 + g1);
    let e1 = kf.time_update(s1).unwrap();
    s1.epoch = ep(t0 + g1 + g2);
    let e2 = kf.time_update(s1).unwrap();
    cover("two updates");
    let w = q_at(&q, t0 + g1 + g2, Some(t0 + g1)).filter(|_| g2 <= q.dis);
    let add = w.map(|w| gamma_q::<6>(w, g2)).unwrap_or(SMatrix::zeros());
    eq_mat("second update", &e2.covar, &(e1.covar + add));
}
fn snc_6d() {
    let d = [0, 1, 2, 3, 4, 5].map(|i| real(&format!("q{i}"), 0.0, 10.0));
    let q = ProcessNoise6D::from_diagonal(&d, dur(100.0), None);
    let m = q.to_matrix(ep(real("t", -10.0, 10.0))).unwrap();
    cover("6d");
    eq_mat("6d noise", &m, &SMatrix::from_diagonal(&SVector::<f64, 6>::from(d)));
}

pub fn list() -> Vec<Harness> {
    let snc: &[&str] = &["od::snc::to_matrix", "od::snc::propagate", "od::kalman::initializers"];
    let kf: &[&str] = &["od::kalman::filtering::time_update", "od::kalman::filtering::measurement_update"];
    vec![
        Harness { name: "kf_time_update", property: "P15", functions: kf, f: kf_time_update, may_panic: false },
        Harness { name: "kf_time_update6", property: "P15", functions: kf, f: kf_time_update6, may_panic: false },
        Harness { name: "kf_msr1", property: "P15", functions: kf, f: kf_msr1, may_panic: false },
        Harness { name: "kf_msr2", property: "P15", functions: kf, f: kf_msr2, may_panic: false },
        Harness { name: "kf_msr3", property: "P15", functions: kf, f: kf_msr3, may_panic: false },
        Harness { name: "kf_refuse", property: "P15", functions: kf, f: kf_refuse, may_panic: false },
        Harness { name: "kf_estimate", property: "P15", functions: &["od::estimate::KfEstimate"], f: kf_estimate, may_panic: false },
        Harness { name: "snc_matrix", property: "P16", functions: snc, f: snc_matrix, may_panic: false },
        Harness { name: "snc_propagate", property: "P16", functions: snc, f: snc_propagate, may_panic: false },
        Harness { name: "snc_in_filter", property: "P16", functions: snc, f: snc_in_filter, may_panic: false },
        Harness { name: "snc_second_use", property: "P16", functions: snc, f: snc_second_use, may_panic: false },
        Harness { name: "snc_6d", property: "P16", functions: snc, f: snc_6d, may_panic: false },
        Harness { name: "kf_residual", property: "P15", functions: &["od::estimate::Residual"], f: kf_residual, may_panic: false },
    ]
}
