//! Propagator contracts, for arbitrary dynamics.
use crate::common::*;
use crate::mini::*;
use anise::almanac::Almanac;
use nalgebra::SVector;
use nvrt::*;
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use std::sync::mpsc::channel;
use std::sync::Arc;

pub const METHODS: [IntegratorMethod; 6] = [
    IntegratorMethod::RungeKutta4,
    IntegratorMethod::CashKarp45,
    IntegratorMethod::Verner56,
    IntegratorMethod::DormandPrince45,
    IntegratorMethod::DormandPrince78,
    IntegratorMethod::RungeKutta89,
];

fn const_rhs(_: f64, v: &SVector<f64, 1>, _: &Mini<1>) -> Result<SVector<f64, 1>, nyx_space::dynamics::DynamicsError> {
    let _ = v;
    Ok(SVector::from_element(real("slope", -10.0, 10.0)))
}

/// Checks one call: `got` is the returned state, `pubd` the published ones.
fn check_leg(tag: &str, t0: f64, d: f64, step_lo: f64, step_hi: f64, got: &Mini<1>, pubd: &[Mini<1>]) {
    let t_end = secs(got.epoch);
    ensures_eq(&format!("{tag}: end epoch is start + duration"), t_end, t0 + d);
    let mut prev = t0;
    let n = pubd.len();
    let fwd = d > 0.0;
    for (i, s) in pubd.iter().enumerate() {
        let t = secs(s.epoch);
        let adv = if fwd { t - prev } else { prev - t };
        ensures_lt(&format!("{tag}: published epochs advance"), 0.0, adv);
        ensures_le(&format!("{tag}: step no longer than allowed"), adv, step_hi);
        if i + 1 < n {
            ensures_le(&format!("{tag}: step no shorter than allowed"), step_lo, adv);
        }
        prev = t;
    }
    ensures(&format!("{tag}: at least one published state"), n > 0);
    if let Some(l) = pubd.last() {
        ensures_eq(&format!("{tag}: last published is the result (epoch)"), secs(l.epoch), t_end);
        ensures_eq(&format!("{tag}: last published is the result (state)"), l.x[0], got.x[0]);
    }
}

/// fixed step, any duration of either sign, instance reused for a second leg of either sign
fn prop_fixed() {
    bounded("at most 2 full steps plus remainder per leg, two legs");
    let h = real("h", 1e-3, 1e3);
    let t0 = real("t0", -1e6, 1e6);
    let x0 = real("x0", -1e3, 1e3);
    let p = Propagator::new(AnyDyn { f: const_rhs }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(h)));
    let mut inst = p.with(Mini::new(SVector::from_element(x0), ep(t0)), Arc::new(Almanac::default())).quiet();
    let mut t = t0;
    let slope = real("slope", -10.0, 10.0);
    for leg in 0..2 {
        let d = real(&format!("d{leg}"), -1e4, 1e4);
        assume_lt(d, 3.0 * h);
        assume_lt(-3.0 * h, d);
        assume_ne(d, 0.0);
        let (tx, rx) = channel();
        let s = inst.for_duration_with_channel(dur(d), tx);
        ensures("propagation succeeds", s.is_ok());
        let s = s.unwrap();
        let pubd: Vec<_> = rx.into_iter().collect();
        check_leg(&format!("leg {leg}"), t, d, h, h, &s, &pubd);
        t = t + d;
        ensures_eq("state advanced by the dynamics over the whole duration", s.x[0], x0 + slope * (t - t0));
        ensures_eq("instance holds the result", inst.state.x[0], s.x[0]);
        ensures_eq("instance epoch", secs(inst.state.epoch), secs(s.epoch));
        cover("leg done");
    }
}

fn prop_zero_and_until() {
    bounded("at most 1 full step plus remainder");
    let h = real("h", 1e-3, 1e3);
    let t0 = real("t0", -1e6, 1e6);
    let x0 = real("x0", -1e3, 1e3);
    let p = Propagator::new(AnyDyn { f: const_rhs }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(h)));
    let mut inst = p.with(Mini::new(SVector::from_element(x0), ep(t0)), Arc::new(Almanac::default())).quiet();
    let s = inst.for_duration(dur(0.0 * h)).unwrap();
    ensures_eq("zero duration: epoch unchanged", secs(s.epoch), t0);
    ensures_eq("zero duration: state unchanged", s.x[0], x0);
    let t1 = real("t1", -1e6, 1e6);
    assume_lt(t1 - t0, 2.0 * h);
    assume_lt(-2.0 * h, t1 - t0);
    let s = inst.until_epoch(ep(t1)).unwrap();
    ensures_eq("until_epoch lands on the epoch", secs(s.epoch), t1);
    ensures_eq("until_epoch state", s.x[0], x0 + real("slope", -10.0, 10.0) * (t1 - t0));
    cover("until");
}

thread_local!(static FAIL_AT: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 0)) });
/// constant slope, failing on the n-th call
fn failing_rhs(_: f64, _: &SVector<f64, 1>, _: &Mini<1>) -> Result<SVector<f64, 1>, nyx_space::dynamics::DynamicsError> {
    let (n, at) = FAIL_AT.get();
    FAIL_AT.set((n + 1, at));
    if n + 1 == at {
        return Err(nyx_space::dynamics::DynamicsError::StateTransitionMatrixUnset);
    }
    Ok(SVector::from_element(real("slope", -10.0, 10.0)))
}
/// a leg that fails part way (in a full or in the last step) leaves the instance usable
fn prop_error_reuse() {
    bounded("two full steps plus remainder per leg; failure in any of the first 3 steps");
    let h = real("h", 1e-3, 1e3);
    let t0 = real("t0", -1e6, 1e6);
    let x0 = real("x0", -1e3, 1e3);
    let slope = real("slope", -10.0, 10.0);
    let p = Propagator::new(AnyDyn { f: failing_rhs }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(h)));
    let mut inst = p.with(Mini::new(SVector::from_element(x0), ep(t0)), Arc::new(Almanac::default())).quiet();
    let k = choose("step that fails", 3) as u32;
    FAIL_AT.set((0, 4 * k + 2));
    let d = real("d", 0.0, 1e4);
    assume_lt(2.0 * h, d);
    assume_lt(d, 3.0 * h);
    let back = flag("backward");
    let r = inst.for_duration(dur(if back { -d } else { d }));
    ensures("the error is reported", r.is_err());
    FAIL_AT.set((0, 0));
    let (t1, x1) = (secs(inst.state.epoch), inst.state.x[0]);
    ensures_eq("the state is the last good one", x1, x0 + slope * (t1 - t0));
    let d2 = real("d2", -1e4, 1e4);
    assume_lt(d2, 2.0 * h);
    assume_lt(-2.0 * h, d2);
    assume_ne(d2, 0.0);
    let (tx, rx) = channel();
    let s = inst.for_duration_with_channel(dur(d2), tx);
    ensures("propagation succeeds", s.is_ok());
    let s = s.unwrap();
    let pubd: Vec<_> = rx.into_iter().collect();
    check_leg("after a failed leg", t1, d2, h, h, &s, &pubd);
    ensures_eq("state after a failed leg", s.x[0], x1 + slope * d2);
    cover(if back { "backward" } else { "forward" });
}

/// one iteration of the propagation loop for a duration of any length, from an instance left in any direction by its
/// history: either the leg ends exactly there, or exactly one full step was taken and published and the rest of the leg
/// starts from it with the same step size
fn prop_iteration() {
    trust("propagate's loop body depends only on the current state, step size, step kind, stop time, direction and frame (induction over the steps of a leg)");
    let other = flag("integration frame");
    if other {
        translation_hook();
    }
    let off = |t: f64| if other { uf("frame offset", &[t], -1e3, 1e3) } else { 0.0 };
    let h = real("h", 1e-3, 1e3);
    let mut t0 = real("t0", -1e6, 1e6);
    let mut x0 = real("x0", -1e3, 1e3);
    let slope = real("slope", -10.0, 10.0);
    let mut opts = IntegratorOptions::with_fixed_step(dur(h));
    if other {
        opts.integration_frame = Some(anise::constants::frames::MOON_J2000);
    }
    let p = Propagator::new(AnyDyn { f: failing_rhs }, IntegratorMethod::RungeKutta4, opts);
    let s0 = Mini::new(SVector::from_element(x0), ep(t0));
    let mut inst = p.with(s0, Arc::new(Almanac::default())).quiet();
    if flag("left backward by its history") {
        inst.set_step(dur(-h), true);
    }
    for leg in 0..if other { 1 } else { 2 } {
        FAIL_AT.set((0, 5));
        let d = real(&format!("d{leg}"), -1e9, 1e9);
        assume_ne(d, 0.0);
        let (tx, rx) = channel();
        let r = inst.for_duration_with_channel(dur(d), tx);
        let pubd: Vec<_> = rx.into_iter().collect();
        let dir = if d < 0.0 { -1.0 } else { 1.0 };
        let full = h < dir * d;
        ensures("exactly one state is published", pubd.len() == 1);
        let t1 = if full { t0 + dir * h } else { t0 + d };
        let x1 = x0 + off(t0) + slope * (t1 - t0) - off(secs(pubd[0].epoch));
        ensures_eq("published epoch", secs(pubd[0].epoch), t1);
        ensures_eq("published state", pubd[0].x[0], x1);
        ensures("published frame", pubd[0].frame == s0.frame);
        ensures_eq("instance epoch", secs(inst.state.epoch), t1);
        ensures("the leg ends iff the remaining duration is at most one step", r.is_ok() == !full);
        if full {
            cover("full step");
            ensures("a failed leg leaves the instance in the initial frame", inst.state.frame == s0.frame);
            ensures_eq("a failed leg leaves the instance at the last good state", inst.state.x[0], x1);
        } else {
            cover("end");
            let r = r.unwrap();
            ensures_eq("returned epoch", secs(r.epoch), t0 + d);
            ensures_eq("returned state", r.x[0], x1);
            ensures("returned frame", r.frame == s0.frame);
        }
        t0 = t1;
        x0 = inst.state.x[0];
    }
}

/// assumed contract of the frame transformation used below: an arbitrary, time dependent, translation
pub fn translation_hook() {
    trust("the almanac's frame transformation is modelled as an arbitrary time-dependent translation with its inverse");
    anise::nvhook::install(|k| {
        k.transform_to = Some(std::rc::Rc::new(|mut o, f| {
            if !f.ephem_origin_match(o.frame) {
                let off = uf("frame offset", &[secs(o.epoch)], -1e3, 1e3);
                o.radius_km.x = if f.ephem_origin_match(anise::constants::frames::MOON_J2000) { o.radius_km.x + off } else { o.radius_km.x - off };
                o.frame = if f.mu_km3_s2.is_some() { f.with_mu_km3_s2(1.0) } else { f };
            }
            Some(o)
        }))
    });
}
/// integrating in another frame: everything the caller sees is in the frame of the initial state
fn prop_frame() {
    bounded("at most 2 full steps plus remainder");
    translation_hook();
    let h = real("h", 1e-3, 1e3);
    let t0 = real("t0", -1e3, 1e3);
    let x0 = real("x0", -1e3, 1e3);
    let slope = real("slope", -10.0, 10.0);
    let mut opts = IntegratorOptions::with_fixed_step(dur(h));
    opts.integration_frame = Some(anise::constants::frames::MOON_J2000.with_mu_km3_s2(4900.0));
    let p = Propagator::new(AnyDyn { f: moon_rhs }, IntegratorMethod::RungeKutta4, opts);
    let s0 = Mini::new(SVector::from_element(x0), ep(t0));
    let mut inst = p.with(s0, Arc::new(Almanac::default())).quiet();
    let d = real("d", -1e4, 1e4);
    assume_lt(d, 3.0 * h);
    assume_lt(-3.0 * h, d);
    assume_ne(d, 0.0);
    let (tx, rx) = channel();
    let s = inst.for_duration_with_channel(dur(d), tx).unwrap();
    let pubd: Vec<_> = rx.into_iter().collect();
    check_leg("other frame", t0, d, h, h, &s, &pubd);
    for s in pubd.iter().chain([&s, &inst.state]) {
        let t = secs(s.epoch);
        ensures("states are in the initial frame", s.frame == s0.frame);
        ensures_eq("state integrated in the other frame and brought back", s.x[0], x0 + uf("frame offset", &[t0], -1e3, 1e3) + slope * (t - t0) - uf("frame offset", &[t], -1e3, 1e3));
    }
    cover("frame");
}
fn moon_rhs(_: f64, _: &SVector<f64, 1>, c: &Mini<1>) -> Result<SVector<f64, 1>, nyx_space::dynamics::DynamicsError> {
    ensures("the dynamics see the integration frame", c.frame.ephem_origin_match(anise::constants::frames::MOON_J2000));
    ensures("the dynamics see the parameters of the integration frame", c.frame.mu_km3_s2 == Some(4900.0));
    Ok(SVector::from_element(real("slope", -10.0, 10.0)))
}
/// the recorded trajectory holds the start, every published state and the end, in order
fn prop_traj() {
    bounded("at most 2 full steps plus remainder");
    let h = real("h", 1e-3, 1e3);
    let t0 = real("t0", -1e3, 1e3);
    let x0 = real("x0", -1e3, 1e3);
    let slope = real("slope", -10.0, 10.0);
    let p = Propagator::new(AnyDyn { f: const_rhs }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(h)));
    let mut inst = p.with(Mini::new(SVector::from_element(x0), ep(t0)), Arc::new(Almanac::default())).quiet();
    let d = real("d", -1e4, 1e4);
    assume_lt(d, 3.0 * h);
    assume_lt(-3.0 * h, d);
    assume_ne(d, 0.0);
    let (s, tr) = if flag("until epoch") { inst.until_epoch_with_traj(ep(t0 + d)).unwrap() } else { inst.for_duration_with_traj(dur(d)).unwrap() };
    ensures_eq("end epoch", secs(s.epoch), t0 + d);
    let back = d < 0.0;
    let n = tr.states.len();
    let (first, last) = if back { (n - 1, 0) } else { (0, n - 1) };
    ensures_eq("trajectory starts at the start", secs(tr.states[first].epoch), t0);
    ensures_eq("trajectory ends at the end", secs(tr.states[last].epoch), t0 + d);
    for i in 0..n {
        let t = secs(tr.states[i].epoch);
        ensures_eq("recorded state", tr.states[i].x[0], x0 + slope * (t - t0));
        if i > 0 {
            let p = secs(tr.states[i - 1].epoch);
            ensures_lt("chronological", p, t);
            ensures_le("no step is missing", t - p, h);
        }
    }
    cover("traj");
}

/// one adaptive step from any state, either direction: accepted only if the error is within tolerance, or the step is
/// at the minimum, or the attempts are exhausted; and the accepted step is the plain step of that size
fn adaptive_accept() {
    let max_att = choose("attempts", 3) as u8 + 1;
    let hmin = real("hmin", 1e-3, 1.0);
    let h = real("h", 1e-3, 1e3);
    let hmax = real("hmax", 1e-3, 1e3);
    let tol = real("tol", 1e-14, 1e-2);
    assume_lt(hmin, h);
    assume_le(h, hmax);
    let back = flag("backward");
    let t0 = real("t0", -1e3, 1e3);
    let x0 = real("x0", -1e3, 1e3);
    let opts = IntegratorOptions::builder().init_step(dur(h)).min_step(dur(hmin)).max_step(dur(hmax)).tolerance(tol).attempts(max_att).error_ctrl(ErrorControl::LargestStep).build();
    let p = Propagator::new(AnyDyn { f: uf_rhs::<1> }, IntegratorMethod::CashKarp45, opts);
    let s0 = Mini::new(SVector::from_element(x0), ep(t0));
    let mut inst = p.with(s0, Arc::new(Almanac::default())).quiet();
    let (mut t0, mut s0) = (t0, s0);
    // a previous leg of one exact step, in either direction, leaves the step adaptive
    if !back && max_att == 2 && flag("after a leg") {
        let d = real("d", -1e3, 1e3);
        assume_lt(d, h);
        assume_lt(-h, d);
        assume_ne(d, 0.0);
        inst.for_duration(dur(d)).unwrap();
        t0 += d;
        s0 = inst.state;
        cover("after a leg");
    }
    if back {
        inst.set_step(dur(-h), false);
    }
    let r = inst.single_step();
    ensures("step succeeds", r.is_ok());
    let d = inst.latest_details();
    let st = d.step.nv_s();
    let ast = if back { -st } else { st };
    ensures("attempts within the limit", d.attempts >= 1 && d.attempts <= max_att);
    ensures_le("step at least the minimum", hmin, ast);
    ensures_le("step at most the initial", ast, h);
    if d.attempts < max_att {
        // either the error is fine or we are at the minimum step
        // the error of a step of that size, from an instance which takes only that step
        let o1 = IntegratorOptions::builder().init_step(dur(h)).min_step(dur(hmin)).max_step(dur(hmax)).tolerance(tol).attempts(1).error_ctrl(ErrorControl::LargestStep).build();
        let p1 = Propagator::new(AnyDyn { f: uf_rhs::<1> }, IntegratorMethod::CashKarp45, o1);
        let mut i1 = p1.with(s0, Arc::new(Almanac::default())).quiet();
        i1.set_step(d.step, false);
        i1.single_step().unwrap();
        if i1.latest_details().error > tol {
            ensures_eq("rejected error only at the minimum step", ast, hmin);
            cover("minimum step");
        } else {
            cover("within tolerance");
        }
    }
    ensures_eq("epoch advanced by the step", secs(inst.state.epoch), t0 + st);
    // the accepted state is the plain (fixed) step of that size
    let p2 = Propagator::new(AnyDyn { f: uf_rhs::<1> }, IntegratorMethod::CashKarp45, IntegratorOptions::with_fixed_step(dur(h)));
    let mut i2 = p2.with(s0, Arc::new(Almanac::default())).quiet();
    i2.set_step(d.step, true);
    i2.single_step().unwrap();
    ensures_eq("accepted state is the step of that size", inst.state.x[0], i2.state.x[0]);
    cover(if back { "backward" } else { "forward" });
}

/// size of the next step
fn adaptive_next() {
    let hmin = real("hmin", 1e-3, 1.0);
    let h = real("h", 1e-3, 1e3);
    let hmax = real("hmax", 1e-3, 1e3);
    let tol = real("tol", 1e-14, 1e-2);
    assume_le(hmin, h);
    assume_le(h, hmax);
    let back = flag("backward");
    let opts = IntegratorOptions::builder().init_step(dur(h)).min_step(dur(hmin)).max_step(dur(hmax)).tolerance(tol).attempts(1).error_ctrl(ErrorControl::LargestStep).build();
    let p = Propagator::new(AnyDyn { f: uf_rhs::<1> }, IntegratorMethod::CashKarp45, opts);
    let s0 = Mini::new(SVector::from_element(real("x0", -1e3, 1e3)), ep(real("t0", -1e3, 1e3)));
    let mut inst = p.with(s0, Arc::new(Almanac::default())).quiet();
    if back {
        inst.set_step(dur(-h), false);
    }
    inst.single_step().unwrap();
    let e1 = inst.latest_details().error;
    ensures_eq("first step used as given", inst.latest_details().step.nv_s(), if back { -h } else { h });
    // with one attempt the second step is taken with whatever size was adapted
    inst.single_step().unwrap();
    let st = inst.latest_details().step.nv_s();
    let ast = if back { -st } else { st };
    ensures_le("next step at least the minimum", hmin, ast);
    ensures_le("next step at most the maximum", ast, hmax);
    if e1 >= tol {
        ensures_eq("no growth unless the error is below tolerance", ast, h);
    } else {
        cover("adapted");
    }
}

pub fn list() -> Vec<Harness> {
    vec![
        Harness { name: "prop_fixed", property: "P02", functions: &["propagators::instance::propagate", "propagators::instance::single_step", "propagators::instance::derive"], f: prop_fixed, may_panic: false },
        Harness { name: "prop_zero_and_until", property: "P02", functions: &["propagators::instance::until_epoch"], f: prop_zero_and_until, may_panic: false },
        Harness { name: "prop_error_reuse", property: "P02", functions: &["propagators::instance::propagate"], f: prop_error_reuse, may_panic: false },
        Harness { name: "prop_iteration", property: "P02", functions: &["propagators::instance::propagate"], f: prop_iteration, may_panic: false },
        Harness { name: "prop_frame", property: "P02", functions: &["propagators::instance::propagate"], f: prop_frame, may_panic: false },
        Harness { name: "prop_traj", property: "P02", functions: &["propagators::instance::for_duration_with_traj", "propagators::instance::until_epoch_with_traj"], f: prop_traj, may_panic: false },
        Harness { name: "adaptive_accept", property: "P03", functions: &["propagators::instance::derive", "propagators::instance::single_step"], f: adaptive_accept, may_panic: false },
        Harness { name: "adaptive_next", property: "P03", functions: &["propagators::instance::derive"], f: adaptive_next, may_panic: false },
    ]
}
