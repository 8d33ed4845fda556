//! Stopping on events.
use crate::common::*;
use crate::h_prop::translation_hook;
use crate::mini::*;
use anise::almanac::Almanac;
use anise::analysis::event::{Condition, Event};
use anise::analysis::prelude::OrbitalElement;
use anise::analysis::prelude::ScalarExpr;
use nalgebra::SVector;
use nvrt::*;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

/// slope constant over each step, arbitrary for each step
fn step_rhs(_: f64, _: &SVector<f64, 1>, c: &Mini<1>) -> Result<SVector<f64, 1>, nyx_space::dynamics::DynamicsError> {
    Ok(SVector::from_element(uf("slope", &[secs(c.epoch)], -10.0, 10.0)))
}
thread_local!(static BRACKET: Cell<Option<(f64, f64)>> = const { Cell::new(None) }; static YTE: Cell<f64> = const { Cell::new(0.0) });

/// 3 full steps of arbitrary motion, either direction, n-th crossing, optionally in another frame
fn event_search() {
    bounded("3 full steps (2 for angular events); trigger 1 to 3");
    let angle = flag("angle");
    let other = !angle && flag("event frame");
    let back = !angle && flag("backward");
    let nst = if angle { 2 } else { 3 };
    let trigger = 1 + choose("trigger", nst);
    if other {
        translation_hook();
    }
    trust("assumed contract of anise::analysis::brent_solver: given a sign change between its two epochs it returns an epoch between them at which the function is zero");
    let sgn = if back { -1.0 } else { 1.0 };
    let h = real("h", 1.0, 100.0);
    let t0 = real("t0", -1e3, 1e3);
    let c = real("c", -1e3, 1e3);
    let x0 = real("x0", -1e3, 1e3);
    let off = |t: f64| if other { uf("frame offset", &[t], -1e3, 1e3) } else { 0.0 };
    // reference: value of the event at each node
    let mut ts = vec![t0];
    let mut xs = vec![x0];
    {
        let p = Propagator::new(AnyDyn { f: step_rhs }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(h)));
        let mut inst = p.with(Mini::new(SVector::from_element(x0), ep(t0)), Arc::new(Almanac::default())).quiet();
        inst.set_step(dur(sgn * h), true);
        for _ in 0..nst {
            inst.single_step().unwrap();
            xs.push(inst.state.x[0]);
            ts.push(secs(inst.state.epoch));
        }
    }
    let ys: Vec<f64> = (0..=nst).map(|k| xs[k] + off(ts[k]) - c).collect();
    for y in &ys {
        assume_ne(*y, 0.0);
    }
    BRACKET.set(None);
    if angle {
        trust("anise evaluates an angular scalar of the state (true anomaly); here it is an arbitrary value");
    }
    anise::nvhook::install(move |k| {
        if angle {
            k.elem = Some(Rc::new(|o, n| if n == "ta_deg" { Some(o.radius_km[0]) } else { None }));
        }
        k.brent = Some(Rc::new(|f, a, b| {
            let (ya, yb) = (f(a).unwrap(), f(b).unwrap());
            ensures_lt("the root search is given a bracket", ya * yb, 0.0);
            let (a, b) = (secs(a), secs(b));
            let (lo, hi) = if a < b { (a, b) } else { (b, a) };
            BRACKET.set(Some((lo, hi)));
            let te = real("event time", -1e4, 1e4);
            assume_lt(lo, te);
            assume_lt(te, hi);
            let e = ep(te);
            YTE.set(f(e).unwrap());
            Some(e)
        }))
    });
    let (scalar, condition) = if angle { (OrbitalElement::TrueAnomaly, Condition::GreaterThan(c)) } else { (OrbitalElement::X, Condition::Equals(c)) };
    let ev = Event { scalar: ScalarExpr::Element(scalar), condition, epoch_precision: hifitime::Unit::Second * 0.1, ab_corr: None };
    let p = Propagator::new(AnyDyn { f: step_rhs }, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(h)));
    let mut inst = p.with(Mini::new(SVector::from_element(x0), ep(t0)), Arc::new(Almanac::default())).quiet();
    let fr = if other { Some(anise::constants::frames::MOON_J2000) } else { None };
    let r = inst.until_nth_event(dur(sgn * (nst as f64 + 0.5) * h), &ev, fr, trigger);
    // reference crossing
    let (mut n, mut at) = (0, None);
    for k in 0..nst {
        // an angle that jumps by more than half a turn wrapped around: not a crossing
        let wrap = angle && (ys[k + 1] - ys[k]).abs() >= 180.0;
        if wrap {
            cover("wrap");
        }
        if ys[k] * ys[k + 1] < 0.0 && !wrap {
            n += 1;
            if n == trigger && at.is_none() {
                at = Some(k);
            }
        }
    }
    match at {
        None => {
            ensures("an event that did not happen often enough is an error", r.is_err());
            cover("no event");
        }
        Some(k) => {
            ensures("the event is found", r.is_ok());
            let (s, tr) = r.unwrap();
            let te = real("event time", -1e4, 1e4);
            let (lo, hi) = BRACKET.get().unwrap();
            ensures_eq("the searched step is the one of the n-th crossing (start)", lo, if back { ts[k + 1] } else { ts[k] });
            ensures_eq("the searched step is the one of the n-th crossing (end)", hi, if back { ts[k] } else { ts[k + 1] });
            ensures_eq("the returned state is at the event", secs(s.epoch), te);
            ensures_eq("the event value of the returned state is the one the root search brought to zero", s.x[0] + off(te) - c, YTE.get());
            // the trajectory covers start to the end of that step
            ensures("trajectory length", tr.states.len() == k + 2);
            for i in 0..tr.states.len() {
                let j = if back { tr.states.len() - 1 - i } else { i };
                ensures_eq("trajectory epochs", secs(tr.states[i].epoch), ts[j]);
                ensures_eq("trajectory states", tr.states[i].x[0], xs[j]);
            }
            cover(if back { "found backward" } else { "found forward" });
        }
    }
}
pub fn list() -> Vec<Harness> {
    vec![Harness { name: "event_search", property: "P06", functions: &["propagators::event::until_nth_event", "propagators::instance::propagate"], f: event_search, may_panic: false }]
}
