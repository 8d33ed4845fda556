//! Trajectory container and interpolation.
use crate::common::*;
use crate::mini::*;
use hifitime::{Duration, Epoch};
use nalgebra::SVector;
use nvrt::*;
use nyx_space::cosmic::GuidanceMode;
use nyx_space::md::trajectory::{Interpolatable, Traj};
use nyx_space::Spacecraft;
use std::ops::Bound::{self, Excluded, Included, Unbounded};

fn traj_of(ts: &[f64]) -> Traj<Mini<1>> {
    let mut t = Traj::new();
    t.states = ts.iter().enumerate().map(|(i, e)| Mini::new(SVector::from_element(i as f64), ep(*e))).collect();
    t
}
fn sorted(label: &str, t: &Traj<Mini<1>>) {
    for w in t.states.windows(2) {
        ensures_lt(label, secs(w[0].epoch), secs(w[1].epoch));
    }
}
/// any insertion order, with duplicates
fn traj_finalize() {
    bounded("4 states");
    let ts = reals::<4>("t", -100.0, 100.0);
    let mut t = traj_of(&ts);
    t.finalize();
    sorted("strictly chronological", &t);
    // every epoch is present, and nothing else
    for e in ts {
        let n = t.states.iter().filter(|s| secs(s.epoch) == e).count();
        ensures("each epoch appears exactly once", n == 1);
    }
    for s in &t.states {
        let i = if s.x[0] == 0.0 { 0 } else if s.x[0] == 1.0 { 1 } else if s.x[0] == 2.0 { 2 } else { 3 };
        ensures_eq("states are unmodified", secs(s.epoch), ts[i]);
    }
    cover("finalized");
}
fn ordered<const N: usize>() -> [f64; N] {
    let ts = reals::<N>("t", -100.0, 100.0);
    for i in 1..N {
        assume_lt(ts[i - 1], ts[i]);
    }
    ts
}
fn traj_at() {
    bounded("4 states");
    let ts = ordered::<4>();
    let t = traj_of(&ts);
    let e = real("e", -200.0, 200.0);
    let r = t.at(ep(e));
    if e < ts[0] || e > ts[3] {
        ensures("outside of the trajectory is an error", r.is_err());
        cover("outside");
        return;
    }
    ensures("inside is not an error", r.is_ok());
    let s = r.unwrap();
    ensures_eq("state at the requested epoch", secs(s.epoch), e);
    for i in 0..4 {
        if e == ts[i] {
            ensures_eq("a stored epoch returns the stored state", s.x[0], i as f64);
            cover("node");
            return;
        }
    }
    ensures_eq("otherwise it is interpolated", s.x[0], uf("interp", &[e], -1e3, 1e3));
    cover("between");
}
/// window selection for longer trajectories (the contract of the window is checked in Mini::interpolate)
fn traj_window() {
    bounded("3 to 40 states one second apart, query anywhere between two of them");
    let n = [3usize, 5, 12, 13, 14, 15, 26, 40][choose("n", 8)];
    let ts: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let t = traj_of(&ts);
    let k = choose("interval", n - 1);
    let e = k as f64 + real("frac", 0.001, 0.999);
    let s = t.at(ep(e)).unwrap();
    ensures_eq("state at the requested epoch", secs(s.epoch), e);
    ensures_eq("interpolated", s.x[0], uf("interp", &[e], -1e3, 1e3));
    cover("window");
}
fn bnd(name: &str) -> (Bound<f64>, f64) {
    let b = real(name, -300.0, 300.0);
    (
        match choose(&format!("{name} kind"), 3) {
            0 => Unbounded,
            1 => Included(b),
            _ => Excluded(b),
        },
        b,
    )
}
fn inside(lo: &Bound<f64>, hi: &Bound<f64>, x: f64) -> bool {
    (match lo {
        Unbounded => true,
        Included(b) => *b <= x,
        Excluded(b) => *b < x,
    }) && (match hi {
        Unbounded => true,
        Included(b) => x <= *b,
        Excluded(b) => x < *b,
    })
}
fn map<T>(b: &Bound<f64>, f: impl Fn(f64) -> T) -> Bound<T> {
    match b {
        Unbounded => Unbounded,
        Included(b) => Included(f(*b)),
        Excluded(b) => Excluded(f(*b)),
    }
}
fn traj_filters() {
    bounded("3 states");
    let ts = ordered::<3>();
    let t = traj_of(&ts);
    let (lo, _) = bnd("lo");
    let (hi, _) = bnd("hi");
    let offset = flag("by offset");
    let out = if offset { t.filter_by_offset::<(Bound<Duration>, Bound<Duration>)>((map(&lo, dur), map(&hi, dur))) } else { t.filter_by_epoch::<(Bound<Epoch>, Bound<Epoch>)>((map(&lo, ep), map(&hi, ep))) };
    let mut want = vec![];
    for (i, e) in ts.iter().enumerate() {
        let x = if offset { *e - ts[0] } else { *e };
        if inside(&lo, &hi, x) {
            want.push(i);
        }
    }
    ensures("exactly the states in the range remain, in order", out.states.len() == want.len() && out.states.iter().zip(&want).all(|(s, i)| s.x[0] == *i as f64));
    cover("filter");
}
fn traj_add() {
    bounded("2 + 2 states");
    let a = reals::<2>("a", -100.0, 100.0);
    assume_lt(a[0], a[1]);
    let b = reals::<2>("b", -100.0, 100.0);
    assume_lt(b[0], b[1]);
    let ta = traj_of(&a);
    let mut tb = traj_of(&b);
    for s in tb.states.iter_mut() {
        s.x[0] = s.x[0] + 10.0;
    }
    let c = (&ta + &tb).unwrap();
    sorted("merged is strictly chronological", &c);
    for (i, e) in a.iter().enumerate() {
        ensures("states of the first are kept", c.states.iter().any(|s| secs(s.epoch) == *e && s.x[0] == i as f64));
    }
    for (i, e) in b.iter().enumerate() {
        let there = c.states.iter().any(|s| secs(s.epoch) == *e && s.x[0] == 10.0 + i as f64);
        ensures("states of the second after the end of the first are appended", there == (*e > a[1]));
    }
    let mut d = ta.clone();
    d += &tb;
    ensures("add-assign is add", d.states.len() == c.states.len());
    cover("merge");
    let mut tm = traj_of(&b);
    for s in tm.states.iter_mut() {
        s.frame = anise::constants::frames::MOON_J2000;
    }
    ensures("frames must match", (&ta + &tm).is_err());
}
fn traj_every() {
    bounded("3 states over 1 to 3 steps");
    let ts = ordered::<3>();
    let h = real("h", 0.1, 100.0);
    let t = traj_of(&ts);
    assume_lt(ts[2] - ts[0], 3.5 * h);
    let mut n = 0;
    for (k, s) in t.every(dur(h)).enumerate() {
        ensures_eq("k-th sample at start + k steps", secs(s.epoch), ts[0] + k as f64 * h);
        n = k + 1;
    }
    ensures_lt("samples reach the end", ts[2], ts[0] + n as f64 * h);
    ensures_le("samples do not pass the end", ts[0] + (n as f64 - 1.0) * h, ts[2]);
    let r = t.resample(dur(h)).unwrap();
    ensures("resample has the same samples", r.states.len() == n);
    let e = real("e", -100.0, 100.0);
    assume_le(ts[0], e);
    assume_le(e, ts[2]);
    let r = t.rebuild(&[ep(e)]).unwrap();
    ensures("rebuild has the requested epochs", r.states.len() == 1);
    ensures_eq("rebuild epoch", secs(r.states[0].epoch), e);
    cover("every");
}
/// samples between bounds that may be beyond the ends of the trajectory
fn traj_between() {
    bounded("3 states over 1 to 3 steps");
    let ts = ordered::<3>();
    let h = real("h", 0.1, 100.0);
    let t = traj_of(&ts);
    let (a, b) = (real("start", -200.0, 200.0), real("end", -200.0, 200.0));
    let lo = if a < ts[0] { ts[0] } else { a };
    let hi = if ts[2] < b { ts[2] } else { b };
    assume_le(lo, hi);
    assume_lt(hi - lo, 2.5 * h);
    let mut n = 0;
    for (k, s) in t.every_between(dur(h), ep(a), ep(b)).enumerate() {
        ensures_eq("k-th sample at start + k steps", secs(s.epoch), lo + k as f64 * h);
        n = k + 1;
    }
    ensures_lt("samples reach the end", hi, lo + n as f64 * h);
    ensures_le("samples do not pass the end", lo + (n as f64 - 1.0) * h, hi);
    cover("between");
}
/// the same operations on long trajectories
fn traj_long() {
    bounded("trajectories of 1 to 300 states, every epoch");
    let n = [1usize, 2, 27, 64, 300][choose("n", 5)];
    let at = |i: usize| 3.0 * i as f64 + ((i * i) % 5) as f64 * 0.25;
    // inserted out of order, some twice
    let mut idx: Vec<usize> = (0..n).map(|i| (i * 7 + 3) % n).collect();
    if n % 7 == 0 {
        idx = (0..n).rev().collect();
    }
    idx.extend((0..n).step_by(3));
    let mut t = Traj::new();
    t.states = idx.iter().map(|i| Mini::new(SVector::from_element(*i as f64), ep(at(*i)))).collect();
    t.finalize();
    ensures("each epoch is there once", t.states.len() == n);
    for i in 0..n {
        ensures_eq("in chronological order", t.states[i].x[0], i as f64);
        let s = t.at(ep(at(i)));
        ensures("a stored epoch is found", s.is_ok());
        ensures_eq("a stored epoch returns the stored state", s.unwrap().x[0], i as f64);
        if i > 0 {
            let e = 0.75 * at(i - 1) + 0.25 * at(i);
            let s = t.at(ep(e));
            ensures("an epoch inside is not an error", s.is_ok());
            let s = s.unwrap();
            ensures_eq("interpolated at the epoch", secs(s.epoch), e);
        }
    }
    ensures_eq("first", t.first().x[0], 0.0);
    ensures_eq("last", t.last().x[0], n as f64 - 1.0);
    ensures_eq("start", secs(t.start_epoch()), at(0));
    ensures_eq("end", secs(t.end_epoch()), at(n - 1));
    for (lo, hi) in [(0, n), (n / 3, n / 2 + 1), (n / 4, n - n / 5)] {
        let hi = hi.min(n).max(lo + 1);
        let (a, b) = (ep(at(lo)), ep(at(hi - 1)));
        let (da, db) = (a - ep(at(0)), b - ep(at(0)));
        for (l, r) in [("epoch", t.clone().filter_by_epoch(a..=b)), ("offset", t.clone().filter_by_offset(da..=db))] {
            ensures(&format!("filtering by {l} keeps what is inside"), r.states.len() == hi - lo && r.states.iter().enumerate().all(|(k, s)| s.x[0] == (lo + k) as f64));
        }
    }
    if n > 1 {
        let k = n / 2;
        let (mut a, mut b) = (t.clone(), t.clone());
        a.states.truncate(k + 1);
        b.states.drain(..k);
        let c = (&a + &b).unwrap();
        ensures("two parts make the whole", c.states.len() == n && c.states.iter().enumerate().all(|(k, s)| s.x[0] == k as f64));
        let m = ((at(n - 1) - at(0)) / 0.5) as usize + 1;
        ensures("as many samples as steps", t.every(dur(0.5)).count() == m && t.resample(dur(0.5)).unwrap().states.len() == m);
        let es: Vec<_> = (0..n).step_by(2).map(|i| ep(at(i))).collect();
        let r = t.rebuild(&es).unwrap();
        ensures("rebuilt at the epochs asked", r.states.len() == es.len() && r.states.iter().enumerate().all(|(k, s)| s.x[0] == 2.0 * k as f64));
    }
    cover("long");
}

// ---- interpolation of spacecraft states

pub fn poly(c: &[f64], t: f64) -> (f64, f64) {
    let (mut p, mut d) = (0.0, 0.0);
    let mut pw = 1.0;
    for (k, ck) in c.iter().enumerate() {
        p = p + ck * pw;
        if k + 1 < c.len() {
            d = d + (k as f64 + 1.0) * c[k + 1] * pw;
        }
        pw = pw * t;
    }
    (p, d)
}
pub fn et(s: f64) -> Epoch {
    Epoch::from_et_duration(dur(s))
}
/// a motion which is a polynomial of time is reproduced exactly at any epoch, position, velocity and propellant
fn interp(nodes: &[f64], deg: usize, e: f64) {
    let n = nodes.len();
        let cs: Vec<Vec<f64>> = (0..3).map(|a| (0..=deg).map(|k| real(&format!("c{a}{k}"), -10.0, 10.0)).collect()).collect();
    let (m0, m1) = (real("m0", 0.0, 100.0), real("m1", -1.0, 1.0));
    let base = sym_sc("sc", et(nodes[0]), frame_mu(398600.0));
    let states: Vec<Spacecraft> = nodes
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let mut s = base;
            s.orbit.epoch = et(*t);
            for a in 0..3 {
                let (p, d) = poly(&cs[a], *t);
                s.orbit.radius_km[a] = p;
                s.orbit.velocity_km_s[a] = d;
            }
            s.mass.prop_mass_kg = m0 + m1 * (*t - nodes[0]);
            s.mode = if i == 0 { GuidanceMode::Thrust } else { GuidanceMode::Coast };
            s.thrust_direction = Some(nyx_space::cosmic::ThrustDirection { x: 1.0, y: 0.0, z: 0.0 });
            s
        })
        .collect();
    let q = et(e);
    let from = choose("neighbour", n);
    let r = states[from].interpolate(q, &states);
    ensures("interpolation succeeds", r.is_ok());
    let r = r.unwrap();
    for a in 0..3 {
        let (p, d) = poly(&cs[a], e);
        ensures_eq("position", r.orbit.radius_km[a], p);
        ensures_eq("velocity", r.orbit.velocity_km_s[a], d);
    }
    ensures_eq("epoch", r.orbit.epoch.to_et_seconds(), e);
    ensures_eq("propellant", r.mass.prop_mass_kg, m0 + m1 * (e - nodes[0]));
    ensures_eq("dry mass", r.mass.dry_mass_kg, base.mass.dry_mass_kg);
    ensures_eq("Cr", r.srp.coeff_reflectivity, base.srp.coeff_reflectivity);
    ensures_eq("Cd", r.drag.coeff_drag, base.drag.coeff_drag);
    ensures("thrust direction is not interpolated", r.thrust_direction.is_none());
    cover("interpolated");
}
fn interp_two() {
    trust("anise::math::interpolation::hermite_eval runs as published (in the instrumented build)");
    let t = ordered::<2>();
    assume_lt(1e-3, t[1] - t[0]);
    let e = real("e", -100.0, 100.0);
    interp(&t, 3, e);
}
fn interp_three() {
    trust("anise::math::interpolation::hermite_eval runs as published (in the instrumented build)");
    let e = real("e", -1.0, 7.0);
    interp(&[0.0, 1.5, 6.0], 5, e);
}
fn interp_many() {
    bounded("13 equally spaced nodes, degree 7, 3 query epochs");
    let e = [0.25, 5.5, 11.125][choose("query", 3)];
    let nodes: Vec<f64> = (0..13).map(|i| i as f64).collect();
    interp(&nodes, 7, e);
}
pub fn list() -> Vec<Harness> {
    let f: &[&str] = &["md::trajectory::interpolatable::interpolate"];
    vec![
        Harness { name: "traj_finalize", property: "P07", functions: &["md::trajectory::traj::finalize"], f: traj_finalize, may_panic: false },
        Harness { name: "traj_at", property: "P07", functions: &["md::trajectory::traj::at"], f: traj_at, may_panic: false },
        Harness { name: "traj_window", property: "P07", functions: &["md::trajectory::traj::at"], f: traj_window, may_panic: false },
        Harness { name: "traj_filters", property: "P07", functions: &["md::trajectory::traj::filter_by_epoch", "md::trajectory::traj::filter_by_offset"], f: traj_filters, may_panic: false },
        Harness { name: "traj_add", property: "P07", functions: &["md::trajectory::traj::add", "md::trajectory::traj::add_assign"], f: traj_add, may_panic: false },
        Harness { name: "traj_every", property: "P07", functions: &["md::trajectory::traj::every", "md::trajectory::traj::resample", "md::trajectory::traj::rebuild", "md::trajectory::traj_it::next"], f: traj_every, may_panic: false },
        Harness { name: "traj_between", property: "P07", functions: &["md::trajectory::traj::every_between", "md::trajectory::traj_it::next"], f: traj_between, may_panic: false },
        Harness { name: "traj_long", property: "P07", functions: &["md::trajectory::traj::finalize", "md::trajectory::traj::at", "md::trajectory::traj::filter_by_epoch", "md::trajectory::traj::filter_by_offset", "md::trajectory::traj::add", "md::trajectory::traj::resample", "md::trajectory::traj::rebuild"], f: traj_long, may_panic: false },
        Harness { name: "interp_two", property: "P08", functions: f, f: interp_two, may_panic: false },
        Harness { name: "interp_three", property: "P08", functions: f, f: interp_three, may_panic: false },
        Harness { name: "interp_many", property: "P08", functions: f, f: interp_many, may_panic: false },
    ]
}
