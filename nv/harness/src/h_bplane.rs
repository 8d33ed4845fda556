//! B-plane of hyperbolic orbits and its targeting (P26).
use crate::common::*;
use anise::analysis::prelude::OrbitalElement;
use anise::prelude::Orbit;
use nalgebra::{Matrix3, Vector3};
use nvrt::*;
use nyx_space::cosmic::{try_achieve_b_plane, BPlane, BPlaneTarget};
use nyx_space::md::StateParameter;
use nyx_space::Spacecraft;

/// at the periapsis of a hyperbola in an inclined plane: B-plane known in closed form
fn bp_closed() {
    bounded("orbits at periapsis on the x axis, two inclinations (any size and energy)");
    let (rp, v) = (real("rp", 100.0, 1e5), real("v", 0.1, 50.0));
    let (ci, si) = if flag("inclination") { (0.6, -0.8) } else { (0.28, 0.96) };
    let (vy, vz) = (v * ci, v * si);
    let s = if flag("mirrored") { -1.0 } else { 1.0 };
    let v2 = v * v;
    let mu = real("mu", 1.0, 1e6);
    // energy > 0, with a margin
    assume_lt(2.0 * mu * 1.01, v2 * rp);
    let o = Orbit { radius_km: Vector3::new(s * rp, 0.0, 0.0), velocity_km_s: Vector3::new(0.0, s * vy, vz), epoch: ep(0.0), frame: frame_mu(mu) };
    let b = BPlane::new(o).unwrap();
    let m = b.str_dcm;
    let id = m * m.transpose();
    for i in 0..3 {
        for j in 0..3 {
            ensures_eq("the B-plane axes are orthonormal", id[(i, j)], if i == j { 1.0 } else { 0.0 });
        }
    }
    ensures_eq("T is in the equatorial plane", m[(1, 2)], 0.0);
    let d = m.determinant();
    ensures_eq("S, T, R is right-handed", d, 1.0);
    // |B| = h / v infinity
    let vinf2 = v2 - 2.0 * mu / rp;
    let (br, bt) = (b.b_dot_r_km(), b.b_dot_t_km());
    ensures_eq("the impact parameter is h over the excess velocity", (br * br + bt * bt) * vinf2, rp * rp * v2);
    ensures_eq("magnitude", b.magnitude_km() * b.magnitude_km(), br * br + bt * bt);
    // h = B x v_inf: component along T and R (B = bt T + br R; T x S = -R, R x S = T)
    let h = o.radius_km.cross(&o.velocity_km_s);
    let ht = h[0] * m[(1, 0)] + h[1] * m[(1, 1)] + h[2] * m[(1, 2)];
    let hr = h[0] * m[(2, 0)] + h[1] * m[(2, 1)] + h[2] * m[(2, 2)];
    let vinf = vinf2.sqrt();
    ensures_eq("B gives the angular momentum (T)", ht, br * vinf);
    ensures_eq("B gives the angular momentum (R)", hr, -bt * vinf);
    // incoming asymptote
    ensures_lt("S points along the incoming velocity", 0.0, m[(0, 1)] * s * vy);
    cover("closed form");
}
fn hyperbolas() -> Vec<Orbit> {
    let f = frame_mu(398600.4415);
    let mut v = vec![];
    for (rp, e, i, raan, aop, ta) in [(7000.0, 1.3, 28.5, 15.0, 55.0, -100.0), (20000.0, 2.5, 110.0, 200.0, 300.0, -60.0), (9000.0, 1.05, 65.0, 310.0, 170.0, 20.0), (40000.0, 4.0, 5.0, 90.0, 10.0, -80.0)] {
        let d = |x: f64| x.to_radians();
        let (p, mu) = (rp * (1.0 + e), 398600.4415f64);
        let r = p / (1.0 + e * d(ta).cos());
        let (rx, ry) = (r * d(ta).cos(), r * d(ta).sin());
        let (vx, vy) = (-(mu / p).sqrt() * d(ta).sin(), (mu / p).sqrt() * (e + d(ta).cos()));
        let (co, so, cw, sw, ci, si) = (d(raan).cos(), d(raan).sin(), d(aop).cos(), d(aop).sin(), d(i).cos(), d(i).sin());
        let q = Matrix3::new(co * cw - so * sw * ci, -co * sw - so * cw * ci, so * si, so * cw + co * sw * ci, -so * sw + co * cw * ci, -co * si, sw * si, cw * si, ci);
        v.push(Orbit { radius_km: q * Vector3::new(rx, ry, 0.0), velocity_km_s: q * Vector3::new(vx, vy, 0.0), epoch: ep(0.0), frame: f });
    }
    v
}
/// independent B-plane: S from the excess velocity of the Laplace vector, B from the angular momentum
fn oracle(o: &Orbit) -> (Matrix3<f64>, f64, f64) {
    let mu = o.frame.mu_km3_s2().unwrap();
    let (r, v) = (o.radius_km, o.velocity_km_s);
    let h = r.cross(&v);
    let vinf = (v.norm_squared() - 2.0 * mu / r.norm()).sqrt();
    // incoming asymptote: S solves  (1/e) e_hat + sqrt(1 - 1/e^2) n_hat
    let ev = v.cross(&h) / mu - r / r.norm();
    let e = ev.norm();
    let n = h.cross(&ev).normalize();
    let s = ev / (e * e) + n * (1.0 - 1.0 / (e * e)).sqrt();
    let t = Vector3::new(s[1], -s[0], 0.0).normalize();
    let rr = s.cross(&t);
    let b = s.cross(&h) / vinf;
    (Matrix3::from_rows(&[s.transpose(), t.transpose(), rr.transpose()]), b.dot(&rr), b.dot(&t))
}
fn bp_orbits() {
    bounded("four hyperbolic and two elliptical orbits");
    let k = choose("orbit", 6);
    if k >= 4 {
        let o = Orbit::keplerian(9000.0, if k == 4 { 0.3 } else { 0.0001 }, 30.0, 10.0, 20.0, 30.0, ep(0.0), frame_mu(4e5));
        ensures("an ellipse has no B-plane", BPlane::new(o).is_err());
        ensures("an ellipse cannot be targeted", try_achieve_b_plane(o, BPlaneTarget::from_bt_br(5000.0, 500.0)).is_err());
        ensures("an ellipse has no B-plane parameter", Spacecraft::from(o).value(StateParameter::BdotR()).is_err());
        cover("ellipse");
        return;
    }
    let o = hyperbolas()[k];
    let b = BPlane::new(o).unwrap();
    let (m, br, bt) = oracle(&o);
    for i in 0..3 {
        for j in 0..3 {
            ensures_eq_tol("B-plane axes", b.inertial_to_bplane()[(i, j)], m[(i, j)], 1e-9, 1e-9);
        }
    }
    ensures_eq_tol("B dot R", b.b_dot_r_km(), br, 1e-9, 1e-6);
    ensures_eq_tol("B dot T", b.b_dot_t_km(), bt, 1e-9, 1e-6);
    ensures_eq_tol("magnitude", b.magnitude_km(), (br * br + bt * bt).sqrt(), 1e-9, 1e-6);
    ensures_eq_tol("angle", b.angle_deg(), br.atan2(bt).to_degrees(), 1e-9, 1e-6);
    ensures("frame and epoch", b.frame == o.frame && b.epoch == o.epoch);
    use nyx_space::State;
    let sc = Spacecraft::from(o);
    ensures_eq_tol("B dot R of a spacecraft", sc.value(StateParameter::BdotR()).unwrap(), br, 1e-9, 1e-6);
    ensures_eq_tol("B dot T of a spacecraft", sc.value(StateParameter::BdotT()).unwrap(), bt, 1e-9, 1e-6);
    // partials
    let j = b.jacobian();
    for c in 0..6 {
        let h = if c < 3 { 1.0 } else { 1e-4 };
        let at = |d: f64| {
            let mut p = o;
            if c < 3 {
                p.radius_km[c] += d;
            } else {
                p.velocity_km_s[c - 3] += d;
            }
            let (_, br, bt) = oracle(&p);
            (br, bt)
        };
        let (p, q) = (at(h), at(-h));
        let (dr, dt) = ((p.0 - q.0) / (2.0 * h), (p.1 - q.1) / (2.0 * h));
        let (wr, wt) = match c {
            0 => (b.b_r_km.wrt_x(), b.b_t_km.wrt_x()),
            1 => (b.b_r_km.wrt_y(), b.b_t_km.wrt_y()),
            2 => (b.b_r_km.wrt_z(), b.b_t_km.wrt_z()),
            _ => (j[(0, c - 3)], j[(1, c - 3)]),
        };
        let tol = if c < 3 { 1e-4 } else { 1e-4 * 1e4 };
        ensures_eq_tol("partial of B dot R", wr, dr, 1e-9, tol + 1e-4 * dr.abs());
        ensures_eq_tol("partial of B dot T", wt, dt, 1e-9, tol + 1e-4 * dt.abs());
    }
    for (inv, a, c) in [(OrbitalElement::VX, 1, 2), (OrbitalElement::VY, 0, 2), (OrbitalElement::VZ, 0, 1)] {
        let j2 = b.jacobian2(StateParameter::Element(inv)).unwrap();
        for r in 0..2 {
            ensures_eq_tol("two-component Jacobian", j2[(r, 0)], j[(r, a)], 1e-12, 0.0);
            ensures_eq_tol("two-component Jacobian", j2[(r, 1)], j[(r, c)], 1e-12, 0.0);
        }
    }
    ensures("only a velocity component may be fixed", b.jacobian2(StateParameter::Element(OrbitalElement::X)).is_err());
    cover("hyperbola");
}
fn bp_target() {
    bounded("three hyperbolic orbits, four targets");
    let o = hyperbolas()[[0, 1, 3][choose("orbit", 3)]];
    let b0 = BPlane::new(o).unwrap();
    let (kt, kr) = [(1.1, 1.0), (1.0, 0.9), (0.95, 1.2), (1.3, 1.4)][choose("target", 4)];
    let (t, r) = (b0.b_dot_t_km() * kt, b0.b_dot_r_km() * kr);
    let mut tgt = BPlaneTarget::from_bt_br(t, r);
    if flag("loose on T") {
        tgt.tol_b_t_km = 50.0;
    }
    match try_achieve_b_plane(o, tgt) {
        Ok((dv, bp)) => {
            let mut c = o;
            c.velocity_km_s += dv;
            let b = BPlane::new(c).unwrap();
            ensures_eq_tol("the B-plane reported is the one after the maneuver (R)", bp.b_dot_r_km(), b.b_dot_r_km(), 1e-9, 1e-6);
            ensures_eq_tol("the B-plane reported is the one after the maneuver (T)", bp.b_dot_t_km(), b.b_dot_t_km(), 1e-9, 1e-6);
            ensures("B dot R is achieved", (b.b_dot_r_km() - r).abs() < tgt.tol_b_r_km + 1e-6);
            ensures("B dot T is achieved", (b.b_dot_t_km() - t).abs() < tgt.tol_b_t_km + 1e-6);
            // the correction is the smallest to first order: no component along the kernel of the Jacobian
            let j = b0.jacobian();
            let ker = Vector3::new(j[(0, 0)], j[(0, 1)], j[(0, 2)]).cross(&Vector3::new(j[(1, 0)], j[(1, 1)], j[(1, 2)])).normalize();
            ensures("the maneuver is of least norm", dv.dot(&ker).abs() <= 0.2 * dv.norm() + 1e-9);
            cover("achieved");
        }
        Err(_) => ensures("a reachable B-plane is achieved", false),
    }
}
fn bp_objectives() {
    let (t, r, tol) = (real("t", -1e5, 1e5), real("r", -1e5, 1e5), real("tol", 0.0, 1e3));
    let g = BPlaneTarget::from_bt_br(t, r);
    ensures("no time of flight is targeted", !g.ltof_target_set());
    let with = flag("tolerance");
    let o = if with { g.to_objectives_with_tolerance(tol) } else { g.to_objectives() };
    ensures("objectives are B dot R and B dot T", o[0].parameter == StateParameter::BdotR() && o[1].parameter == StateParameter::BdotT());
    ensures_eq("B dot R desired", o[0].desired_value, r);
    ensures_eq("B dot T desired", o[1].desired_value, t);
    for k in o {
        ensures_eq("tolerance", k.tolerance, if with { tol } else { 1.0 });
        ensures_eq("multiplicative factor", k.multiplicative_factor, 1.0);
        ensures_eq("additive factor", k.additive_factor, 0.0);
    }
    let l = real("ltof", 1.0, 1e5);
    let g = BPlaneTarget::from_targets(t, r, dur(l));
    ensures("a time of flight is targeted", g.ltof_target_set());
    let o = g.to_all_objectives_with_tolerance(tol);
    ensures("objectives are B dot R, B dot T and LTOF", o[0].parameter == StateParameter::BdotR() && o[1].parameter == StateParameter::BdotT() && o[2].parameter == StateParameter::BLTOF());
    ensures_eq("B dot R desired", o[0].desired_value, r);
    ensures_eq("B dot T desired", o[1].desired_value, t);
    ensures_eq("LTOF desired", o[2].desired_value, l);
    cover("objectives");
}
pub fn list() -> Vec<Harness> {
    const B: &[&str] = &["BPlane::from_dual", "BPlane::jacobian", "BPlane::jacobian2"];
    let h = |name, functions, f: fn()| Harness { name, property: "P26", functions, f, may_panic: false };
    vec![h("bp_closed", B, bp_closed), h("bp_orbits", B, bp_orbits), h("bp_target", &["try_achieve_b_plane"], bp_target), h("bp_objectives", &["BPlaneTarget::to_objectives_with_tolerance"], bp_objectives)]
}
