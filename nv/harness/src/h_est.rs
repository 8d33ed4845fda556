//! Estimates: building them from uncertainties, mapping them to orbital elements (P25).
use crate::common::*;
use anise::analysis::prelude::OrbitalElement;
use anise::astro::orbit_gradient::OrbitGrad;
use anise::prelude::Orbit;
use nalgebra::{SMatrix, SVector, Vector3};
use nvrt::*;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::mc::{Distribution, MvnSpacecraft, Pcg64Mcg, StateDispersion};
use nyx_space::md::StateParameter;
use nyx_space::od::estimate::{Estimate, KfEstimate, NavSolution};
use nyx_space::od::prelude::SpacecraftUncertainty;
use nyx_space::{Spacecraft, State};

type M9 = SMatrix<f64, 9, 9>;
type V9 = SVector<f64, 9>;

fn fresh(label: &str, e: &KfEstimate<Spacecraft>, nominal: &Spacecraft, dev: &V9, covar: &M9) {
    ensures(&format!("{label}: the nominal state is the one given"), e.nominal_state == *nominal && e.nominal_state() == *nominal);
    for i in 0..9 {
        ensures_eq(&format!("{label}: state deviation"), e.state_deviation()[i], dev[i]);
        for j in 0..9 {
            ensures_eq(&format!("{label}: covariance [{i},{j}]"), e.covar()[(i, j)], covar[(i, j)]);
            ensures_eq(&format!("{label}: predicted covariance [{i},{j}]"), e.predicted_covar()[(i, j)], covar[(i, j)]);
            ensures_eq(&format!("{label}: the STM starts at identity"), e.stm()[(i, j)], if i == j { 1.0 } else { 0.0 });
        }
    }
    ensures(&format!("{label}: a new estimate is a prediction"), e.predicted());
    ensures_eq(&format!("{label}: epoch"), secs(e.epoch()), secs(nominal.epoch()));
}
fn est_build() {
    let sc = sym_sc("n", ep(real("t", -1e3, 1e3)), frame_mu(4e5));
    let p: M9 = sym_mat("P", 10.0);
    let d: V9 = sym_vec("d", 1.0);
    match choose("how", 5) {
        0 => fresh("from covariance", &KfEstimate::from_covar(sc, p), &sc, &V9::zeros(), &p),
        1 => fresh("from diagonal", &KfEstimate::from_diag(sc, d), &sc, &V9::zeros(), &M9::from_diagonal(&d)),
        2 => fresh("zeros", &KfEstimate::<Spacecraft>::zeros(sc), &sc, &V9::zeros(), &M9::zeros()),
        3 => {
            // scaling and setters
            let k = real("k", 0.0, 10.0);
            let e = KfEstimate::from_covar(sc, p) * k;
            for i in 0..9 {
                for j in 0..9 {
                    ensures_eq("scaling an estimate scales the sigmas", e.covar[(i, j)], p[(i, j)] * k * k);
                }
            }
            let mut e = KfEstimate::from_covar(sc, p);
            e.set_state_deviation(d);
            e.set_covar(M9::from_diagonal(&d));
            for i in 0..9 {
                ensures_eq("deviation is set", e.state_deviation[i], d[i]);
                ensures_eq("covariance is set", e.covar[(i, i)], d[i]);
            }
        }
        _ => {
            let mut e = KfEstimate::from_covar(sc, p);
            e.state_deviation = d;
            let s = e.state();
            eq_v3("the estimated position is nominal plus deviation", &s.orbit.radius_km, &(sc.orbit.radius_km + Vector3::new(d[0], d[1], d[2])));
            eq_v3("the estimated velocity is nominal plus deviation", &s.orbit.velocity_km_s, &(sc.orbit.velocity_km_s + Vector3::new(d[3], d[4], d[5])));
            ensures_eq("the estimated Cr is nominal plus deviation, in its domain", s.srp.coeff_reflectivity, clamp02(sc.srp.coeff_reflectivity + d[6]));
            ensures_eq("the estimated Cd is nominal plus deviation", s.drag.coeff_drag, sc.drag.coeff_drag + d[7]);
            ensures_eq("the estimated mass is nominal plus deviation", s.mass.prop_mass_kg, sc.mass.prop_mass_kg + d[8]);
            ensures_eq("the estimate's epoch", secs(s.epoch()), secs(sc.epoch()));
            ensures("the orbital state is that of the state", e.orbital_state() == s.orbit);
            ensures("the expected state is the nominal", e.expected_state() == sc.orbit);
        }
    }
    cover("built");
}
fn est_within() {
    bounded("two components vary at a time");
    let sc = sym_sc("n", ep(0.0), frame_mu(4e5));
    let (i, j) = (choose("i", 9), choose("j", 9));
    let sigma = real("sigma", 0.0, 6.0);
    let mut e = KfEstimate::<Spacecraft>::zeros(sc);
    let (a, b) = (real("sa", 0.0, 10.0), real("sb", 0.0, 10.0));
    let (da, db) = (real("da", -30.0, 30.0), real("db", -30.0, 30.0));
    e.covar = M9::identity();
    e.covar[(i, i)] = a * a;
    e.state_deviation[i] = da;
    if i != j {
        e.covar[(j, j)] = b * b;
        e.state_deviation[j] = db;
        // correlations do not matter
        e.covar[(i, j)] = real("c", -1.0, 1.0);
    }
    let got = e.within_sigma(sigma);
    let inside = |d: f64, s: f64| d <= sigma * s && d >= -sigma * s;
    let want = inside(da, a) && (i == j || inside(db, b));
    ensures("within so many sigmas iff every deviation is", got == want);
    cover(if got { "inside" } else { "outside" });
    if i == 0 && j == 0 {
        let t = da <= 3.0 * a && da >= -3.0 * a;
        ensures("within 3 sigma", e.within_3sigma() == t);
    }
}
const SIG: [&str; 9] = ["sx", "sy", "sz", "svx", "svy", "svz", "sCr", "sCd", "sm"];
fn est_uncertainty() {
    let sc = sym_sc("n", ep(real("t", -1e3, 1e3)), frame_mu(4e5));
    let neg = choose("negative", 10);
    let s: [f64; 9] = std::array::from_fn(|k| if k == neg { real("neg", -10.0, 0.0) } else { real(SIG[k], 0.0, 10.0) });
    let mut u = SpacecraftUncertainty::builder().nominal(sc).x_km(s[0]).y_km(s[1]).z_km(s[2]).vx_km_s(s[3]).vy_km_s(s[4]).vz_km_s(s[5]).coeff_reflectivity(s[6]).coeff_drag(s[7]).mass_kg(s[8]).build();
    if flag("explicitly inertial") {
        u.frame = Some(LocalFrame::Inertial);
    }
    if neg < 9 {
        assume_lt(s[neg], 0.0);
        ensures("a negative uncertainty is refused", u.to_estimate().is_err());
        ensures("a negative uncertainty is refused (randomized)", u.to_estimate_randomized(Some(0)).is_err());
        cover("negative");
        return;
    }
    let e = u.to_estimate().unwrap();
    let want = M9::from_fn(|i, j| if i == j { s[i] * s[i] } else { 0.0 });
    fresh("from uncertainties", &e, &sc, &V9::zeros(), &want);
    cover("inertial");
}
fn concrete_sc(k: usize) -> Spacecraft {
    let f = frame_mu(398600.4415);
    let o = [
        Orbit::keplerian(7000.0, 0.01, 28.5, 15.0, 55.0, 123.0, ep(100.0), f),
        Orbit::keplerian(12000.0, 0.4, 98.0, 200.0, 5.0, 300.0, ep(0.0), f),
        Orbit::keplerian(42164.0, 0.002, 63.4, 310.0, 270.0, 12.0, ep(-50.0), f),
    ][k];
    Spacecraft::builder().orbit(o).build()
}
fn est_local() {
    bounded("three orbits, three local frames, two sets of uncertainties");
    let sc = concrete_sc(choose("orbit", 3));
    let fr = [LocalFrame::RIC, LocalFrame::RCN, LocalFrame::VNC][choose("frame", 3)];
    let s = if flag("set") { [1.5, 0.5, 2.0, 1e-3, 2e-3, 5e-4, 0.1, 0.2, 3.0] } else { [0.1, 0.2, 0.3, 1e-4, 1e-4, 1e-4, 0.0, 0.0, 0.0] };
    let u = SpacecraftUncertainty::builder().nominal(sc).frame(fr).x_km(s[0]).y_km(s[1]).z_km(s[2]).vx_km_s(s[3]).vy_km_s(s[4]).vz_km_s(s[5]).coeff_reflectivity(s[6]).coeff_drag(s[7]).mass_kg(s[8]).build();
    let e = u.to_estimate().unwrap();
    ensures("the nominal state is the one given", e.nominal_state == sc);
    let r = sc.orbit.dcm_to_inertial(fr).unwrap().rot_mat;
    let c = SMatrix::<f64, 3, 3>::from_diagonal(&Vector3::new(s[0] * s[0], s[1] * s[1], s[2] * s[2]));
    let want = r * c * r.transpose();
    for i in 0..9 {
        for j in 0..9 {
            ensures_eq_tol("the covariance is symmetric", e.covar[(i, j)], e.covar[(j, i)], 1e-9, 1e-12);
            if i < 3 && j < 3 {
                ensures_eq_tol("position uncertainties of a local frame are rotated to the inertial frame", e.covar[(i, j)], want[(i, j)], 1e-6, 1e-6);
            }
            if i >= 6 || j >= 6 {
                ensures_eq_tol("uncertainties of the parameters are not rotated", e.covar[(i, j)], if i == j { s[i] * s[i] } else { 0.0 }, 1e-12, 0.0);
            }
        }
    }
    ensures("positive semi-definite", e.covar.fixed_view::<6, 6>(0, 0).clone_owned().symmetric_eigenvalues().min() > -1e-9);
    cover("local");
}
/// variances of an orbital element: J P Jt, J the partials of the element
fn est_sigma() {
    let sc = sym_sc("n", ep(0.0), frame_mu(real("mu", 1.0, 1e6)));
    assume_lt(1.0, sc.orbit.radius_km[0]);
    assume_lt(0.1, sc.orbit.velocity_km_s[0]);
    let p: M9 = sym_mat("P", 10.0);
    let e = KfEstimate::from_covar(sc, p);
    let el = [OrbitalElement::X, OrbitalElement::Y, OrbitalElement::Z, OrbitalElement::VX, OrbitalElement::VY, OrbitalElement::VZ, OrbitalElement::Rmag, OrbitalElement::Vmag, OrbitalElement::Energy, OrbitalElement::HX, OrbitalElement::HZ];
    let el = el[choose("element", el.len())];
    let value = sc.value(StateParameter::Element(el)).unwrap();
    let j: [f64; 6] = std::array::from_fn(|k| deriv(value, &if k < 3 { format!("n.r{k}") } else { format!("n.v{}", k - 3) }));
    let mut var = 0.0;
    for a in 0..6 {
        for b in 0..6 {
            var += j[a] * p[(a, b)] * j[b];
        }
    }
    assume_lt(0.0, var);
    let got = e.sigma_for(el).unwrap();
    ensures_eq("the variance of an element is that of its first-order variation", got * got, var);
    ensures_le("sigmas are not negative", 0.0, got);
    cover("sigma");
}
const KEP: [OrbitalElement; 6] = [OrbitalElement::SemiMajorAxis, OrbitalElement::Eccentricity, OrbitalElement::Inclination, OrbitalElement::RAAN, OrbitalElement::AoP, OrbitalElement::TrueAnomaly];
/// every element, on three orbits, against central differences; the Keplerian covariance is consistent with the sigmas
fn est_kepler() {
    bounded("three orbits, one covariance; partials against finite differences");
    let sc = concrete_sc(choose("orbit", 3));
    let mut p = M9::zeros();
    for i in 0..9 {
        for j in 0..9 {
            // L Lt of a unit lower triangular matrix scaled by component
            let sc_i = if i < 3 { 0.5 } else { 5e-4 };
            let sc_j = if j < 3 { 0.5 } else { 5e-4 };
            let mut s = 0.0;
            for k in 0..=i.min(j) {
                let l = |a: usize| if a == k { 1.0 } else { ((a * 7 + k * 3) % 5) as f64 * 0.2 - 0.4 };
                s += l(i) * l(j);
            }
            p[(i, j)] = s * sc_i * sc_j;
        }
    }
    let e = KfEstimate::from_covar(sc, p);
    let k = e.keplerian_covar();
    let mut jac = SMatrix::<f64, 6, 6>::zeros();
    for (r, el) in KEP.iter().enumerate() {
        for c in 0..6 {
            let h = if c < 3 { 1e-2 } else { 1e-5 };
            let at = |d: f64| {
                let mut s = sc;
                if c < 3 {
                    s.orbit.radius_km[c] += d;
                } else {
                    s.orbit.velocity_km_s[c - 3] += d;
                }
                s.value(StateParameter::Element(*el)).unwrap()
            };
            jac[(r, c)] = (at(h) - at(-h)) / (2.0 * h);
        }
    }
    let want = jac * p.fixed_view::<6, 6>(0, 0) * jac.transpose();
    for r in 0..6 {
        let s = e.sigma_for(KEP[r]).unwrap();
        ensures_eq_tol("sigma of a Keplerian element", s, want[(r, r)].sqrt(), 1e-9, 1e-4 * want[(r, r)].sqrt());
        for c in 0..6 {
            ensures_eq_tol("covariance of the Keplerian elements", k[(r, c)], want[(r, c)], 1e-9, 2e-4 * (want[(r, r)] * want[(c, c)]).sqrt());
        }
    }
    ensures("an element without partials is refused", e.sigma_for(OrbitalElement::EquinoctialLambda).is_err() || OrbitGrad::from(sc.orbit).partial_for(OrbitalElement::EquinoctialLambda).is_ok());
    cover("kepler");
}
/// random estimates
fn est_random() {
    bounded("two seeds, one spacecraft, three sets of dispersions");
    let sc = concrete_sc(1);
    let seed = [0u128, 7][choose("seed", 2)];
    match choose("how", 3) {
        0 => {
            let disp = || vec![StateDispersion::zero_mean(StateParameter::Element(OrbitalElement::SemiMajorAxis), 1.1), StateDispersion::zero_mean(StateParameter::Element(OrbitalElement::Inclination), 0.2), StateDispersion::zero_mean(StateParameter::Cr(), 0.1)];
            let e = KfEstimate::from_dispersions(sc, disp(), Some(seed)).unwrap();
            let d = MvnSpacecraft::new(sc, disp()).unwrap().sample(&mut Pcg64Mcg::new(seed));
            let (x, y) = (sc.to_vector(), d.state.to_vector());
            ensures("the nominal state is left unchanged", e.nominal_state == sc);
            ensures("a new estimate is a prediction", e.predicted);
            for i in 0..9 {
                let delta = (x[i] - y[i]).abs();
                ensures_eq_tol("the deviation is the dispersion", e.state_deviation[i].abs(), delta, 1e-9, 1e-12);
                for j in 0..9 {
                    ensures_eq_tol("the covariance is that of thrice the dispersion", e.covar[(i, j)], if i == j { 9.0 * delta * delta } else { 0.0 }, 1e-9, 1e-18);
                    ensures_eq_tol("predicted covariance", e.covar_bar[(i, j)], e.covar[(i, j)], 1e-12, 0.0);
                }
            }
        }
        1 => {
            let u = SpacecraftUncertainty::builder().nominal(sc).x_km(0.3).y_km(0.6).z_km(0.9).vx_km_s(1e-4).vy_km_s(2e-4).vz_km_s(3e-4).coeff_reflectivity(0.1).mass_kg(2.0).build();
            let (a, b) = (u.to_estimate().unwrap(), u.to_estimate_randomized(Some(seed)).unwrap());
            let d = MvnSpacecraft::from_spacecraft_cov(sc, a.covar, V9::zeros()).unwrap().sample(&mut Pcg64Mcg::new(seed));
            ensures("randomizing draws the nominal state from the covariance", b.nominal_state == d.state);
            ensures("the nominal state is randomized", b.nominal_state.orbit.radius_km != sc.orbit.radius_km);
            for i in 0..9 {
                ensures_eq_tol("no deviation", b.state_deviation[i], 0.0, 0.0, 0.0);
                for j in 0..9 {
                    ensures_eq_tol("the covariance is not randomized", b.covar[(i, j)], a.covar[(i, j)], 0.0, 0.0);
                }
            }
        }
        _ => {
            let dev = V9::from_fn(|i, _| (i as f64 + 1.0) * 1e-3);
            let mut e = KfEstimate::from_diag(sc, V9::from_fn(|i, _| (i as f64 + 1.0) * 1e-2));
            e.state_deviation = dev;
            let g = e.to_random_variable().unwrap();
            ensures("the random variable is about the nominal state", g.template == sc);
            for i in 0..9 {
                ensures_eq_tol("the mean is the deviation", g.mean[i], dev[i], 1e-12, 0.0);
                for j in 0..9 {
                    let s: f64 = (0..9).map(|k| g.sqrt_s_v[(i, k)] * g.sqrt_s_v[(j, k)]).sum();
                    ensures_eq_tol("the covariance is the estimate's", s, e.covar[(i, j)], 1e-9, 1e-12);
                }
            }
        }
    }
    cover("random");
}
/// what is printed as sigmas are standard deviations
fn est_print() {
    bounded("one estimate");
    let sc = concrete_sc(0);
    let e = KfEstimate::from_diag(sc, V9::from_fn(|i, _| if i < 3 { 0.25 } else if i < 6 { 4e-6 } else { 0.04 }));
    let t = format!("{e}");
    let l = t.lines().find(|l| l.starts_with("sigmas")).unwrap_or("").to_string();
    ensures("sigmas are printed in m, m/s", l == "sigmas [500.000000 m, 500.000000 m, 500.000000 m, 2.000000 m/s, 2.000000 m/s, 2.000000 m/s, 0.200000 , 0.200000 , 0.200000 ]");
    let t = format!("{e:e}");
    let l = t.lines().find(|l| l.starts_with("sigmas")).unwrap_or("").to_string();
    ensures("sigmas are printed in km, km/s", l == "sigmas [5e-1 km, 5e-1 km, 5e-1 km, 2e-3 km/s, 2e-3 km/s, 2e-3 km/s, 2e-1 , 2e-1 , 2e-1 ]");
    cover("printed");
}
const F: &[&str] = &["KfEstimate::from_covar", "KfEstimate::from_diag", "KfEstimate::zeros", "KfEstimate::mul", "Estimate::state", "Estimate::within_sigma"];
const U: &[&str] = &["SpacecraftUncertainty::to_estimate", "SpacecraftUncertainty::to_estimate_randomized"];
const S: &[&str] = &["KfEstimate::sigma_for", "KfEstimate::keplerian_covar"];
pub fn list() -> Vec<Harness> {
    let h = |name, functions, f: fn()| Harness { name, property: "P25", functions, f, may_panic: false };
    vec![
        h("est_build", F, est_build),
        h("est_within", F, est_within),
        h("est_uncertainty", U, est_uncertainty),
        h("est_local", U, est_local),
        h("est_sigma", S, est_sigma),
        h("est_kepler", S, est_kepler),
        h("est_random", &["KfEstimate::from_dispersions", "SpacecraftUncertainty::to_estimate_randomized", "KfEstimate::to_random_variable"], est_random),
        h("est_print", &["KfEstimate::fmt"], est_print),
    ]
}
