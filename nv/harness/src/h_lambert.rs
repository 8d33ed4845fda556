//! Lambert solvers (P27).
use crate::common::*;
use anise::prelude::Orbit;
use nalgebra::Vector3;
use nvrt::*;
use nyx_space::tools::lambert::{gooding, izzo, LambertInput, LambertSolution, TransferKind};

const MU: f64 = 398600.4415;
fn stumpff(z: f64) -> (f64, f64) {
    if z > 1e-3 {
        let s = z.sqrt();
        ((1.0 - s.cos()) / z, (s - s.sin()) / (z * s))
    } else if z < -1e-3 {
        let s = (-z).sqrt();
        ((1.0 - s.cosh()) / z, (s.sinh() - s) / (-z * s))
    } else {
        (0.5 - z / 24.0 + z * z / 720.0 - z * z * z / 40320.0, 1.0 / 6.0 - z / 120.0 + z * z / 5040.0 - z * z * z / 362880.0)
    }
}
/// two-body motion with universal variables, solved by bisection
fn kepler(r0: &Vector3<f64>, v0: &Vector3<f64>, dt: f64, mu: f64) -> (Vector3<f64>, Vector3<f64>) {
    let (r, vr) = (r0.norm(), r0.dot(v0) / r0.norm());
    let alpha = 2.0 / r - v0.norm_squared() / mu;
    let sm = mu.sqrt();
    let t = |x: f64| {
        let z = alpha * x * x;
        let (c, s) = stumpff(z);
        (r * vr / sm * x * x * c + (1.0 - alpha * r) * x * x * x * s + r * x) / sm
    };
    let (mut a, mut b) = (0.0, 1.0);
    while t(b) < dt {
        b *= 1.5;
    }
    for _ in 0..200 {
        let m = 0.5 * (a + b);
        if t(m) < dt {
            a = m
        } else {
            b = m
        }
    }
    let x = 0.5 * (a + b);
    let z = alpha * x * x;
    let (c, s) = stumpff(z);
    let f = 1.0 - x * x * c / r;
    let g = dt - x * x * x * s / sm;
    let p = r0 * f + v0 * g;
    let rn = p.norm();
    let fd = sm / (rn * r) * x * (z * s - 1.0);
    let gd = 1.0 - x * x * c / rn;
    (p, r0 * fd + v0 * gd)
}
fn geometry(k: usize) -> (Vector3<f64>, Vector3<f64>) {
    match k {
        0 => (Vector3::new(15945.34, 0.0, 0.0), Vector3::new(12214.83899, 10249.46731, 0.0)),
        1 => (Vector3::new(7000.0, 0.0, 0.0), Vector3::new(0.0, -7000.0, -500.0)),
        2 => (Vector3::new(-8000.0, 2000.0, 3000.0), Vector3::new(5000.0, 9000.0, -4000.0)),
        3 => (Vector3::new(1000.0, -20000.0, 4000.0), Vector3::new(-7000.0, -1000.0, 9000.0)),
        4 => (Vector3::new(9000.0, 3000.0, -2000.0), Vector3::new(-25000.0, -2000.0, 4000.0)),
        5 => (Vector3::new(0.0, 7000.0, 7000.0), Vector3::new(500.0, -6000.0, 40000.0)),
        _ => {
            // any direction, radii of 7000 to 60000 km
            let mut z = (k as u64) << 32 | 12345;
            let mut u = || {
                z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (z >> 11) as f64 / (1u64 << 53) as f64
            };
            let mut p = || {
                let (r, c, l) = (7000.0 + 53000.0 * u(), 2.0 * u() - 1.0, 6.283185307179586 * u());
                let e = (1.0 - c * c).sqrt();
                Vector3::new(r * e * l.cos(), r * e * l.sin(), r * c)
            };
            (p(), p())
        }
    }
}
fn input(r1: Vector3<f64>, r2: Vector3<f64>, tof: f64) -> LambertInput {
    let f = frame_mu(MU);
    let o = |radius_km, epoch| Orbit { radius_km, velocity_km_s: Vector3::new(1.0, 2.0, 3.0), epoch, frame: f };
    LambertInput::from_planetary_states(o(r1, ep(1000.0)), o(r2, ep(1000.0 + tof))).unwrap()
}
/// parabolic time of flight of the short/long way (Euler)
fn parabolic(r1: &Vector3<f64>, r2: &Vector3<f64>, long: bool) -> f64 {
    let c = (r2 - r1).norm();
    let s = 0.5 * (r1.norm() + r2.norm() + c);
    let k = if long { -1.0 } else { 1.0 };
    (2.0f64).sqrt() / 3.0 * (s.powf(1.5) - k * (s - c).powf(1.5)) / MU.sqrt()
}
/// turns (radians) of the motion from r1, v1 over tof: it passes the direction of r1 once per period
fn swept(r1: &Vector3<f64>, v1: &Vector3<f64>, tof: f64) -> f64 {
    let tau = 2.0 * std::f64::consts::PI;
    let h = r1.cross(v1).normalize();
    let (q, _) = kepler(r1, v1, tof, MU);
    let a = r1.cross(&q).dot(&h).atan2(r1.dot(&q));
    let inv_a = 2.0 / r1.norm() - v1.norm_squared() / MU;
    let turns = if inv_a > 0.0 { (tof / tau * (MU * inv_a.powi(3)).sqrt()).floor() } else { 0.0 };
    turns * tau + if a < 0.0 { a + tau } else { a }
}
fn solves(label: &str, sol: &LambertSolution, r1: &Vector3<f64>, r2: &Vector3<f64>, tof: f64) {
    let (p, v) = kepler(r1, &sol.v_init_km_s, tof, MU);
    let vm = sol.v_init_km_s.norm() + sol.v_final_km_s.norm();
    ensures(&format!("{label}: the departure velocity leads to the arrival position in the time of flight"), (p - r2).norm() <= 1e-6 * (r1.norm() + r2.norm()) + 2e-4 * vm);
    ensures(&format!("{label}: the arrival velocity is that of the transfer"), (v - sol.v_final_km_s).norm() <= 1e-5 * vm);
    let t = sol.transfer_orbit();
    let a = sol.arrival_orbit();
    ensures(&format!("{label}: transfer orbit"), t.radius_km == *r1 && t.velocity_km_s == sol.v_init_km_s);
    ensures(&format!("{label}: arrival orbit"), a.radius_km == *r2 && a.velocity_km_s == sol.v_final_km_s);
}
fn lambert_once() {
    bounded("60 geometries, seven times of flight (fast hyperbolic to slow elliptic), all directions, both solvers");
    let (r1, r2) = geometry(choose("geometry", 60));
    let long = flag("long way");
    let auto = flag("auto");
    // Auto picks the prograde way: the one whose angle in the xy plane is in [0, pi]
    let mut dnu = r2[1].atan2(r2[0]) - r1[1].atan2(r1[0]);
    if dnu < 0.0 {
        dnu += 2.0 * std::f64::consts::PI;
    }
    let is_long = if auto { dnu > std::f64::consts::PI } else { long };
    let tp = parabolic(&r1, &r2, is_long);
    let tof = tp * [0.1, 0.6, 0.95, 1.2, 2.0, 3.5, 30.0][choose("tof", 7)];
    let kind = || if auto { TransferKind::Auto } else if long { TransferKind::LongWay } else { TransferKind::ShortWay };
    let h0 = r1.cross(&r2);
    for (name, sol) in [("gooding", gooding(input(r1, r2, tof), kind())), ("izzo", izzo(input(r1, r2, tof), kind()))] {
        match sol {
            Ok(sol) => {
                solves(name, &sol, &r1, &r2, tof);
                let h = r1.cross(&sol.v_init_km_s);
                ensures(&format!("{name}: the requested way is taken"), (h.dot(&h0) < 0.0) == is_long);
                ensures(&format!("{name}: less than one revolution"), swept(&r1, &sol.v_init_km_s, tof) < 2.0 * std::f64::consts::PI);
                cover(name);
            }
            // the bracketing of Gooding's method may not reach very fast transfers
            Err(_) => ensures(&format!("{name}: a transfer exists"), name == "gooding" && tof < 0.7 * tp),
        }
    }
}
fn lambert_revs() {
    bounded("60 geometries, one to three revolutions, four times of flight");
    let (r1, r2) = geometry(choose("geometry", 60));
    let n = 1 + choose("revolutions", 3);
    let c = (r2 - r1).norm();
    let s = 0.5 * (r1.norm() + r2.norm() + c);
    let k = [0.3, 2.5, 15.0, 60.0][choose("tof", 4)];
    // period of the minimum energy ellipse
    let tof = (n as f64 + k) * 2.0 * std::f64::consts::PI * ((s / 2.0).powi(3) / MU).sqrt();
    match izzo(input(r1, r2, tof), TransferKind::NRevs(n as u8)) {
        Ok(sol) => {
            solves("multiple revolutions", &sol, &r1, &r2, tof);
            let a = swept(&r1, &sol.v_init_km_s, tof) / (2.0 * std::f64::consts::PI);
            ensures("as many complete revolutions as requested", a > n as f64 && a < n as f64 + 1.0);
            ensures("multiple revolutions are prograde", r1.cross(&sol.v_init_km_s)[2] > 0.0);
            cover("multiple revolutions");
        }
        Err(_) => ensures("a multiple revolution transfer exists in a long enough time", k < 1.0),
    }
    ensures("Gooding's method refuses multiple revolutions", gooding(input(r1, r2, tof), TransferKind::NRevs(n as u8)).is_err());
    ensures("too many revolutions are refused", izzo(input(r1, r2, tof), TransferKind::NRevs(n as u8 + 68)).is_err());
}
/// bookkeeping of the solution, and refused inputs
fn lambert_solution() {
    let f = frame_mu(MU);
    let (a, b) = (sym_orbit("a", ep(real("t1", 0.0, 10.0)), f), sym_orbit("b", ep(real("t2", 20.0, 30.0)), f));
    let input = LambertInput::from_planetary_states(a, b).unwrap();
    ensures_eq("mu", input.mu_km2_s3(), MU);
    let s = LambertSolution { v_init_km_s: v3("v1", 50.0), v_final_km_s: v3("v2", 50.0), phi_rad: 0.0, input };
    eq_v3("departure v infinity", &s.v_inf_outgoing_km_s(), &(a.velocity_km_s - s.v_init_km_s));
    eq_v3("arrival v infinity", &s.v_inf_incoming_km_s(), &(b.velocity_km_s - s.v_final_km_s));
    ensures_eq("c3", s.c3_km2_s2(), (a.velocity_km_s - s.v_init_km_s).norm_squared());
    let (t, e) = (s.transfer_orbit(), s.arrival_orbit());
    eq_v3("transfer position", &t.radius_km, &a.radius_km);
    eq_v3("transfer velocity", &t.velocity_km_s, &s.v_init_km_s);
    ensures_eq("transfer epoch", secs(t.epoch), secs(a.epoch));
    eq_v3("arrival position", &e.radius_km, &b.radius_km);
    eq_v3("arrival velocity", &e.velocity_km_s, &s.v_final_km_s);
    ensures_eq("arrival epoch", secs(e.epoch), secs(b.epoch));
    let mut c = b;
    c.frame = frame_mu(4e4);
    ensures("both states have to be in the same frame", LambertInput::from_planetary_states(a, c).is_err());
    let (mut a2, mut b2) = (a, b);
    a2.frame.mu_km3_s2 = None;
    b2.frame.mu_km3_s2 = None;
    ensures("mu is needed", LambertInput::from_planetary_states(a2, b2).is_err());
    cover("solution");
}
fn lambert_asymptote() {
    bounded("three velocities");
    let v = [Vector3::new(3.0, -4.0, 12.0), Vector3::new(-1.0, 0.5, -0.2), Vector3::new(0.1, 2.0, 0.0)][choose("v", 3)];
    let mut i = input(Vector3::new(7e3, 0.0, 0.0), Vector3::new(0.0, 8e3, 0.0), 3000.0);
    i.initial_state.velocity_km_s = Vector3::new(1.0, 1.0, 1.0);
    let s = LambertSolution { v_init_km_s: Vector3::new(1.0, 1.0, 1.0) + v, v_final_km_s: v, phi_rad: 0.0, input: i };
    ensures_eq_tol("declination of the outgoing asymptote", s.v_inf_outgoing_declination_deg(), (v[2] / v.norm()).asin().to_degrees(), 1e-9, 1e-9);
    ensures_eq_tol("right ascension of the outgoing asymptote", s.v_inf_outgoing_right_ascension_deg(), v[1].atan2(v[0]).to_degrees(), 1e-9, 1e-9);
    for tof in [0.0, -100.0] {
        let (r1, r2) = geometry(2);
        ensures("no transfer without time (gooding)", gooding(input(r1, r2, tof), TransferKind::ShortWay).is_err());
        ensures("no transfer without time (izzo)", izzo(input(r1, r2, tof), TransferKind::ShortWay).is_err());
    }
    // opposite radii do not define a plane
    let r1 = [Vector3::new(7000.0, 0.0, 0.0), Vector3::new(0.0, -8192.0, 4096.0), Vector3::new(-9000.0, 0.0, 3000.0)][choose("r1", 3)];
    for k in [-1.0, -1.5, -0.25, 2.0] {
        let fine = |s: Result<LambertSolution, _>| match s {
            Ok(s) => s.v_init_km_s.iter().chain(s.v_final_km_s.iter()).all(|v| v.is_finite()),
            Err(nyx_space::errors::LambertError::MultiRevNotSupported) => false,
            Err(_) => true,
        };
        for kind in [|| TransferKind::ShortWay, || TransferKind::LongWay] {
            ensures("collinear radii are refused or solved (gooding)", fine(gooding(input(r1, r1 * k, 5000.0), kind())));
            ensures("collinear radii are refused or solved (izzo)", fine(izzo(input(r1, r1 * k, 5000.0), kind())));
        }
    }
    cover("asymptote");
}
pub fn list() -> Vec<Harness> {
    const L: &[&str] = &["gooding", "izzo", "TransferKind::direction_of_motion"];
    let h = |name, functions, f: fn()| Harness { name, property: "P27", functions, f, may_panic: false };
    vec![
        h("lambert_once", L, lambert_once),
        h("lambert_revs", &["izzo", "find_xy"], lambert_revs),
        h("lambert_solution", &["LambertInput::from_planetary_states", "LambertSolution::c3_km2_s2"], lambert_solution),
        h("lambert_asymptote", L, lambert_asymptote),
    ]
}
