//! Guidance laws.
use crate::common::*;
use anise::analysis::prelude::OrbitalElement;
use anise::astro::Occultation;
use anise::constants::frames::{EARTH_J2000, SUN_J2000};
use anise::ephemerides::ephemeris::LocalFrame;
use anise::prelude::{Almanac, Orbit};
use nalgebra::{Matrix3, Vector3};
use nvrt::*;
use nyx_space::cosmic::{GuidanceMode, Spacecraft};
use nyx_space::dynamics::guidance::*;
use nyx_space::md::prelude::Traj;
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::State;
use std::rc::Rc;

/// local frames are needed without their time derivative
fn no_dcm_rate() {
    trust("the time derivative of local-frame rotations is not used by guidance (two-body propagation of the frame is skipped)");
    anise::nvhook::install(|k| k.at_epoch = Some(Rc::new(|_, _| None)));
}
fn unit(v: Vector3<f64>) -> Vector3<f64> {
    v / (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
fn cross(a: &Vector3<f64>, b: &Vector3<f64>) -> Vector3<f64> {
    Vector3::new(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
}
/// columns of the local frame, from its definition
fn local_axes(f: LocalFrame, o: &Orbit) -> [Vector3<f64>; 3] {
    let (r, v) = (unit(o.radius_km), unit(o.velocity_km_s));
    let h = unit(cross(&o.radius_km, &o.velocity_km_s));
    match f {
        LocalFrame::Inertial => [Vector3::x(), Vector3::y(), Vector3::z()],
        LocalFrame::VNC => [v, h, cross(&v, &h)],
        _ => [r, cross(&h, &r), h],
    }
}
const FRAMES: [LocalFrame; 4] = [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::RCN, LocalFrame::VNC];
fn radec(a: f64, d: f64) -> Vector3<f64> {
    Vector3::new(d.cos() * a.cos(), d.cos() * a.sin(), d.sin())
}
fn mnvr() {
    no_dcm_rate();
    let (t0, t1, t) = (real("t0", -10.0, 10.0), real("t1", -10.0, 10.0), real("t", -10.0, 10.0));
    let frame = FRAMES[choose("frame", 4)];
    let pct = real("pct", 0.0, 1.0);
    let dt = t - t0;
    let poly = |n: &str, k: usize| {
        let c = [real(&format!("{n}0"), -3.0, 3.0), real(&format!("{n}1"), -1.0, 1.0), real(&format!("{n}2"), -1.0, 1.0)];
        match k {
            1 => (CommonPolynomial::Constant { a: c[0] }, c[0]),
            2 => (CommonPolynomial::Linear { a: c[1], b: c[0] }, c[0] + c[1] * dt),
            _ => (CommonPolynomial::Quadratic { a: c[2], b: c[1], c: c[0] }, c[0] + c[1] * dt + c[2] * dt * dt),
        }
    };
    let (repr, want) = match choose("repr", 4) {
        0 => {
            let v = v3("u", 1.0);
            (MnvrRepr::Vector(v), v)
        }
        k => {
            let ((az, a), (el, d)) = (poly("az", k), poly("el", k));
            (MnvrRepr::Angles { azimuth: az, elevation: el }, radec(a, d))
        }
    };
    let m = Maneuver { start: ep(t0), end: ep(t1), thrust_prct: pct, representation: repr, frame };
    let mut sc = sym_sc("s", ep(t), frame_mu(real("mu", 1.0, 1e6)));
    sc.mode = MODES[choose("mode", 3)];
    assume_lt(1.0, sc.orbit.radius_km[0]);
    assume_lt(0.1, sc.orbit.velocity_km_s[1]);
    eq_v3("thrust vector in the local frame at an epoch", &m.vector(ep(t)), &want);
    let dir = m.direction_of(&sc);
    let thr = m.throttle(&sc).unwrap();
    if sc.mode == GuidanceMode::Thrust {
        let ax = local_axes(frame, &sc.orbit);
        eq_v3("direction rotated from the local frame to inertial", &dir, &(ax[0] * want[0] + ax[1] * want[1] + ax[2] * want[2]));
        ensures_eq("throttle is the thrust level", thr, pct);
        cover("thrusting");
    } else {
        eq_v3("no direction unless thrusting", &dir, &Vector3::zeros());
        ensures_eq("no throttle unless thrusting", thr, 0.0);
        cover("not thrusting");
    }
    let mut nx = sc;
    m.next(&mut nx, &Almanac::default());
    let on = t0 <= t && t <= t1;
    ensures("thrusts exactly from start to end", nx.mode == if on { GuidanceMode::Thrust } else { GuidanceMode::Coast });
    ensures_eq("duration", m.duration().nv_s(), t1 - t0);
    if on {
        cover("on");
    } else {
        cover("off");
    }
}
trait DirOf {
    fn direction_of(&self, s: &Spacecraft) -> Vector3<f64>;
}
impl<T: GuidanceLaw> DirOf for T {
    fn direction_of(&self, s: &Spacecraft) -> Vector3<f64> {
        GuidanceLaw::direction(self, s).unwrap()
    }
}
/// directions and rates set on a maneuver are those read back
fn mnvr_set() {
    let u = |n: &str| {
        let (a, d) = (real(&format!("{n}.a"), -3.0, 3.0), real(&format!("{n}.d"), -1.5, 1.5));
        assume_lt(0.01, d.cos());
        radec(a, d)
    };
    let mut m = Maneuver { start: ep(0.0), end: ep(real("t1", 0.0, 1e6)), thrust_prct: 1.0, representation: MnvrRepr::Vector(Vector3::x()), frame: LocalFrame::VNC };
    let dir = u("dir");
    let k = choose("orders", 3);
    let rate = if k >= 1 { u("rate") } else { Vector3::zeros() };
    let acc = if k >= 2 { u("acc") } else { Vector3::zeros() };
    m.set_direction_and_rates(dir, rate, acc).unwrap();
    eq_v3("direction read back", &Maneuver::direction(&m), &dir);
    eq_v3("rate read back", &m.rate(), &rate);
    eq_v3("acceleration read back", &m.accel(), &acc);
    eq_v3("initial thrust vector is the direction", &m.vector(ep(0.0)), &dir);
    let d2 = u("dir2");
    m.set_direction(d2).unwrap();
    eq_v3("new direction read back", &Maneuver::direction(&m), &d2);
    eq_v3("rate kept by set_direction", &m.rate(), &rate);
    eq_v3("acceleration kept by set_direction", &m.accel(), &acc);
    cover("set");
}
fn elem(e: OrbitalElement) -> StateParameter {
    StateParameter::Element(e)
}
/// arbitrary osculating elements (epoch 0: the initial state, epoch 1: the current one)
fn any_elements() -> [(f64, f64, f64, f64, f64, f64); 2] {
    trust("anise returns the osculating elements (eccentricity, semi-major axis, angles) of an orbit; here they are arbitrary");
    let all = [0, 1].map(|k| {
        let n = |s: &str| format!("{s}{k}");
        let e = real(&n("e"), 0.001, 0.9);
        let ta = real(&n("ta"), 0.0, 6.28);
        assume_lt(0.0, 1.0 + e * ta.cos());
        (real(&n("a"), 1e3, 1e5), e, ta, real(&n("w"), 0.0, 6.28), real(&n("inc"), 0.0, 3.14), real(&n("om"), 0.0, 6.28))
    });
    anise::nvhook::install(move |k| {
        k.elem = Some(Rc::new(move |o, n| {
            let (a, e, ta, w, i, om) = all[if secs(o.epoch) == 0.0 { 0 } else { 1 }];
            Some(match n {
                "sma_km" => a,
                "ecc" => e,
                "ta_deg" => ta.to_degrees(),
                "aop_deg" => w.to_degrees(),
                "inc_deg" => i.to_degrees(),
                "raan_deg" => om.to_degrees(),
                // cos E = (e + cos ta) / (1 + e cos ta)
                _ => ((e + ta.cos()) / (1.0 + e * ta.cos())).acos().to_degrees(),
            })
        }))
    });
    all
}
fn steer() {
    no_dcm_rate();
    let els = any_elements();
    let (a, e, ta, w, inc, om) = els[1];
    let mu = real("mu", 1e3, 1e6);
    let init = sym_sc("i", ep(0.0), frame_mu(mu));
    let mut sc = sym_sc("s", ep(1.0), frame_mu(mu));
    // the local axes are covered by the maneuver contract: here they are the coordinate axes
    sc.orbit.radius_km = Vector3::new(real("r", 1e3, 1e5), 0.0, 0.0);
    sc.orbit.velocity_km_s = Vector3::new(real("vr", -10.0, 10.0), real("vt", 0.1, 10.0), 0.0);
    sc.mode = GuidanceMode::Thrust;
    let kl = flag("kluever");
    let (target, tol) = (real("target", 0.0, 1e6), real("tol", 0.001, 10.0));
    let thr = real("threshold", 0.0, 1.0);
    let which = choose("element", 4);
    // partials of the rate of the element wrt the acceleration in radial, circumferential, normal axes (Gauss)
    let (p, cur, best) = match which {
        0 => (OrbitalElement::SemiMajorAxis, a, Vector3::new(e * ta.sin(), 1.0 + e * ta.cos(), 0.0)),
        1 => (OrbitalElement::Eccentricity, e, Vector3::new(ta.sin(), ta.cos() + (e + ta.cos()) / (1.0 + e * ta.cos()), 0.0)),
        2 => (OrbitalElement::Inclination, inc.to_degrees(), Vector3::new(0.0, 0.0, (ta + w).cos())),
        _ => (OrbitalElement::RAAN, om.to_degrees(), Vector3::new(0.0, 0.0, (ta + w).sin())),
    };
    assume_lt(1e-6, best[0] * best[0] + best[1] * best[1] + best[2] * best[2]);
    let obj = [Objective::within_tolerance(elem(p), target, tol)];
    let law: std::sync::Arc<dyn GuidanceLaw> = if kl { Kluever::new(&obj, &[real("weight", 0.1, 10.0)]) } else { Ruggiero::from_ηthresholds(&obj, &[thr], init).unwrap() };
    let eta = Ruggiero::efficiency(&elem(p), &sc.orbit).unwrap();
    let active = kl || eta >= thr;
    let d = law.direction(&sc).unwrap();
    let err = target - cur;
    let dir = |s: f64| {
        let u = if which >= 2 {
            let z = if best[2] > 0.0 { 1.0 } else { -1.0 };
            Vector3::new(0.0, 0.0, z)
        } else {
            unit(best)
        };
        u * s
    };
    if !active {
        eq_v3("no steering below the efficiency threshold", &d, &Vector3::zeros());
        ensures_eq("no thrust below the efficiency threshold", law.throttle(&sc).unwrap(), 0.0);
        cover("inefficient");
    } else if err >= tol {
        eq_v3("the element is raised as fast as possible", &d, &dir(1.0));
        ensures_eq("full throttle", law.throttle(&sc).unwrap(), 1.0);
        cover("raise");
    } else if -err >= tol {
        eq_v3("the element is lowered as fast as possible", &d, &dir(-1.0));
        cover("lower");
    } else if !kl {
        eq_v3("no steering within tolerance", &d, &Vector3::zeros());
        ensures_eq("no thrust within tolerance", law.throttle(&sc).unwrap(), 0.0);
        cover("within tolerance");
    }
}
fn mnvr_span() {
    let (t0, t1) = (real("t0", -10.0, 10.0), real("t1", -10.0, 10.0));
    let m = Maneuver { start: ep(t0), end: ep(t1), thrust_prct: 1.0, representation: MnvrRepr::Vector(Vector3::x()), frame: LocalFrame::VNC };
    if t1 - t0 < -2e-6 {
        ensures("antichronological when the end is before the start", m.antichronological());
        cover("antichronological");
    } else if t1 - t0 > -0.5e-6 {
        ensures("not antichronological when the end is not before the start", !m.antichronological());
        cover("chronological");
    }
}
/// two objectives at once: one that is best met in the plane, one out of it
fn steer_two() {
    no_dcm_rate();
    let els = any_elements();
    let (a, e, ta, w, inc, om) = els[1];
    let mu = real("mu", 1e3, 1e6);
    let init = sym_sc("i", ep(0.0), frame_mu(mu));
    let mut sc = sym_sc("s", ep(1.0), frame_mu(mu));
    sc.orbit.radius_km = Vector3::new(real("r", 1e3, 1e5), 0.0, 0.0);
    sc.orbit.velocity_km_s = Vector3::new(real("vr", -10.0, 10.0), real("vt", 0.1, 10.0), 0.0);
    sc.mode = GuidanceMode::Thrust;
    let kl = flag("kluever");
    let (p1, cur1, ini1, ip) = if flag("eccentricity") {
        (OrbitalElement::Eccentricity, e, els[0].1, Vector3::new(ta.sin(), ta.cos() + (e + ta.cos()) / (1.0 + e * ta.cos()), 0.0))
    } else {
        (OrbitalElement::SemiMajorAxis, a, els[0].0, Vector3::new(e * ta.sin(), 1.0 + e * ta.cos(), 0.0))
    };
    let (p2, cur2, ini2, z) = if flag("node") { (OrbitalElement::RAAN, om.to_degrees(), els[0].5.to_degrees(), (ta + w).sin()) } else { (OrbitalElement::Inclination, inc.to_degrees(), els[0].4.to_degrees(), (ta + w).cos()) };
    assume_lt(1e-6, ip[0] * ip[0] + ip[1] * ip[1]);
    assume_ne(z, 0.0);
    let (t1, t2) = (real("target1", 0.0, 1e6), real("target2", 0.0, 360.0));
    let (tol1, tol2) = (0.001, 0.001);
    // both far from their target, now and initially
    for (t, c, i) in [(t1, cur1, ini1), (t2, cur2, ini2)] {
        assume_lt(0.001, (t - c).abs());
        assume_lt(0.001, (t - i).abs());
    }
    let obj = [Objective::within_tolerance(elem(p1), t1, tol1), Objective::within_tolerance(elem(p2), t2, tol2)];
    let (w1, w2) = (real("w1", 0.1, 10.0), real("w2", 0.1, 10.0));
    let law: std::sync::Arc<dyn GuidanceLaw> = if kl { Kluever::new(&obj, &[w1, w2]) } else { Ruggiero::simple(&obj, init).unwrap() };
    let d = law.direction(&sc).unwrap();
    let up = if z > 0.0 { 1.0 } else { -1.0 };
    let sgn = |x: f64| if x > 0.0 { 1.0 } else { -1.0 };
    let v = if kl {
        // user weights, each objective in the direction of its error
        Vector3::new(sgn(t1 - cur1) * w1 * ip[0], sgn(t1 - cur1) * w1 * ip[1], sgn(t2 - cur2) * w2 * up)
    } else {
        // each optimal direction, weighted by the error relative to the initial error
        let (q1, q2) = ((t1 - cur1) / (t1 - ini1).abs(), (t2 - cur2) / (t2 - ini2).abs());
        unit(ip) * q1 + Vector3::new(0.0, 0.0, up * q2)
    };
    eq_v3("the blend of the optimal directions of both objectives", &d, &unit(v));
    cover(if kl { "kluever" } else { "ruggiero" });
}
/// efficiency: rate of the element relative to its largest rate along the orbit
fn efficiency() {
    let els = any_elements();
    let (a, e, ta, w, _, _) = els[1];
    let mu = real("mu", 1e3, 1e6);
    let o = sym_orbit("o", ep(1.0), frame_mu(mu));
    let eff = |p| Ruggiero::efficiency(&elem(p), &o).unwrap();
    let v = &o.velocity_km_s;
    let vper = (mu * (1.0 + e) / (a * (1.0 - e))).sqrt();
    ensures_eq("semi-major axis: speed over the speed at periapsis", eff(OrbitalElement::SemiMajorAxis), (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt() / vper);
    let c = ta.cos();
    let x = eff(OrbitalElement::Eccentricity);
    ensures_eq("eccentricity", x * (2.0 * (1.0 + e * c)), 1.0 + 2.0 * e * c + c * c);
    let den = 1.0 + e * c;
    ensures_eq("inclination", eff(OrbitalElement::Inclination) * den, (w + ta).cos().abs() * ((1.0 - e * e * w.sin() * w.sin()).sqrt() - e * w.cos().abs()));
    ensures_eq("node", eff(OrbitalElement::RAAN) * den, (w + ta).sin().abs() * ((1.0 - e * e * w.cos() * w.cos()).sqrt() - e * w.sin().abs()));
    ensures_le("eccentricity efficiency is at most one", 1.0 + 2.0 * e * c + c * c, 2.0 * (1.0 + e * c));
    cover("efficiency");
}
/// mode logic of the closed-loop laws
fn modes() {
    trust("the eclipse percentage is an arbitrary value in [0, 100]");
    let occ = real("occ", 0.0, 100.0);
    anise::nvhook::install(move |k| {
        k.eclipse = Some(Rc::new(move |f, o| Some(Occultation { epoch: o.epoch, percentage: if f.ephem_origin_match(EARTH_J2000) { occ } else { 0.0 }, back_frame: SUN_J2000, front_frame: f })));
        k.frame_info = Some(Rc::new(|u| Some(u.into())));
    });
    let ecl = flag("eclipse limit");
    let max = real("max", 0.0, 100.0);
    let els = any_elements();
    let kl = flag("kluever");
    let (tgt, tol) = (real("target", 1e2, 1e6), real("tol", 0.1, 10.0));
    let init = sym_sc("i", ep(0.0), frame_mu(1.0));
    let mut sc = sym_sc("s", ep(1.0), frame_mu(1.0));
    sc.mode = MODES[choose("mode", 3)];
    let before = sc.mode;
    let two = flag("two objectives");
    let (tgt2, tol2) = (real("target2", 0.0, 1.0), real("tol2", 0.001, 0.1));
    let mut obj = vec![Objective::within_tolerance(elem(OrbitalElement::SemiMajorAxis), tgt, tol)];
    if two {
        obj.push(Objective::within_tolerance(elem(OrbitalElement::Eccentricity), tgt2, tol2));
    }
    let law: std::sync::Arc<dyn GuidanceLaw> = match (kl, ecl) {
        (true, true) => Kluever::from_max_eclipse(&obj, &[1.0, 1.0], max),
        (true, false) => Kluever::new(&obj, &[1.0, 1.0]),
        (false, true) => Ruggiero::from_max_eclipse(&obj, init, max).unwrap(),
        (false, false) => Ruggiero::simple(&obj, init).unwrap(),
    };
    let done = (tgt - els[1].0).abs() <= tol && (!two || (tgt2 - els[1].1).abs() <= tol2);
    ensures("achieved iff every objective is within its tolerance", law.achieved(&sc).unwrap() == done);
    if sc.mode != GuidanceMode::Thrust {
        ensures_eq("no throttle unless thrusting", law.throttle(&sc).unwrap(), 0.0);
        eq_v3("no direction unless thrusting", &law.direction(&sc).unwrap(), &Vector3::zeros());
    }
    law.next(&mut sc, &Almanac::default());
    let want = if before == GuidanceMode::Inhibit {
        cover("inhibited");
        GuidanceMode::Inhibit
    } else if done {
        cover("done");
        GuidanceMode::Coast
    } else if ecl && occ > max {
        cover("eclipsed");
        GuidanceMode::Coast
    } else {
        cover("thrust");
        GuidanceMode::Thrust
    };
    ensures("inhibited stays inhibited, coast when done or eclipsed, thrust otherwise", sc.mode == want);
}
pub fn list() -> Vec<Harness> {
    let h = |name: &'static str, functions: &'static [&'static str], f: fn()| Harness { name, property: "P13", functions, f, may_panic: false };
    vec![
        h("mnvr", &["Maneuver::direction", "Maneuver::throttle", "Maneuver::next", "Maneuver::vector", "CommonPolynomial::eval"], mnvr),
        h("mnvr_span", &["Maneuver::antichronological"], mnvr_span),
        h("mnvr_set", &["Maneuver::set_direction_and_rates", "Maneuver::set_direction", "Maneuver::rate", "Maneuver::accel"], mnvr_set),
        h("steer", &["Ruggiero::direction", "Ruggiero::weighting", "Ruggiero::throttle", "Kluever::direction", "Kluever::throttle"], steer),
        h("steer_two", &["Ruggiero::direction", "Ruggiero::weighting", "Kluever::direction"], steer_two),
        h("efficiency", &["Ruggiero::efficiency"], efficiency),
        h("guid_modes", &["Ruggiero::next", "Ruggiero::achieved", "Kluever::next", "Kluever::achieved"], modes),
    ]
}
