//! Ground assets positioned from navigation satellites (P28).
use crate::common::*;
use crate::h_msr::{aer, any_noise, tx};
use crate::h_traj::{et, poly};
use anise::almanac::Almanac;
use anise::analysis::prelude::OrbitalElement;
use anise::constants::frames::{EARTH_J2000, IAU_MOON_FRAME};
use anise::prelude::{Frame, Orbit};
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, SMatrix, SVector, Vector3};
use nvrt::*;
use nyx_space::dynamics::Dynamics;
use nyx_space::md::prelude::Interpolatable;
use nyx_space::md::trajectory::Traj;
use nyx_space::md::StateParameter;
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::msr::MeasurementType::*;
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::TrackingDevice;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::State;
use rand_pcg::Pcg64Mcg;
use std::rc::Rc;
use std::sync::Arc;

/// body-fixed frame of an arbitrary spheroid
fn body() -> Frame {
    let (a, b) = (real("req", 100.0, 1e4), real("rpol", 100.0, 1e4));
    let mut f = IAU_MOON_FRAME;
    f.shape = Some(Ellipsoid { semi_major_equatorial_radius_km: a, semi_minor_equatorial_radius_km: a, polar_radius_km: b });
    f
}
fn asset(n: &str, t: f64, frame: Frame) -> GroundAsset {
    let r = |s: &str, a, b| real(&format!("{n}{s}"), a, b);
    let mut g = GroundAsset::from_fixed(r("lat", -80.0, 80.0), r("lon", -180.0, 180.0), r("h", -5.0, 10.0), ep(t), frame);
    ensures("a fixed asset does not move", g.latitude_rate_deg_s == 0.0 && g.longitude_rate_deg_s == 0.0 && g.height_rate_km_s == 0.0 && g.stm.is_none());
    g.latitude_rate_deg_s = r("lat'", -1.0, 1.0);
    g.longitude_rate_deg_s = r("lon'", -1.0, 1.0);
    g.height_rate_km_s = r("h'", -1.0, 1.0);
    g
}
fn comps(g: &GroundAsset) -> SVector<f64, 6> {
    SVector::from([g.latitude_deg, g.longitude_deg, g.height_km, g.latitude_rate_deg_s, g.longitude_rate_deg_s, g.height_rate_km_s])
}
fn pnt_state() {
    let f = body();
    let t = real("t", -1e6, 1e6);
    let mut g = asset("", t, f);
    let c = comps(&g);
    let stm = flag("stm");
    if stm {
        g.stm = Some(sym_mat::<6, 6>("phi", 1e3));
    }
    let v = g.to_vector();
    for i in 0..6 {
        ensures_eq("vector of an asset", v[i], c[i]);
        for j in 0..6 {
            ensures_eq("transition matrix in the vector", v[6 + i + 6 * j], if stm { g.stm.unwrap()[(i, j)] } else { 0.0 });
        }
    }
    let w = sym_vec::<42>("w", 100.0);
    let t1 = real("t1", -1e6, 1e6);
    let mut s = g;
    s.set(ep(t1), &w);
    let (r, cs) = (s.to_vector(), comps(&s));
    for i in 0..6 {
        ensures_eq("set from a vector", cs[i], w[i]);
    }
    if stm {
        for i in 6..42 {
            ensures_eq("transition matrix set from a vector", r[i], w[i]);
        }
    } else {
        ensures("no transition matrix appears", s.stm.is_none());
    }
    ensures_eq("epoch set", secs(s.epoch()), t1);
    ensures("frame kept", s.frame == f);
    s.set_epoch(ep(t));
    ensures_eq("epoch set", secs(s.epoch()), t);
    let d = sym_vec::<6>("d", 1.0);
    let a = State::add(g, d);
    for i in 0..6 {
        ensures_eq("adding a deviation", comps(&a)[i], c[i] + d[i]);
    }
    ensures_eq("epoch kept", secs(a.epoch), t);
    let val = |e| g.value(StateParameter::Element(e));
    ensures_eq("latitude", val(OrbitalElement::Latitude).unwrap(), c[0]);
    ensures_eq("longitude", val(OrbitalElement::Longitude).unwrap(), c[1]);
    ensures_eq("height", val(OrbitalElement::Height).unwrap(), c[2]);
    ensures("nothing else", val(OrbitalElement::X).is_err() && g.value(StateParameter::Cr()).is_err());
    let id = SMatrix::<f64, 6, 6>::identity();
    let mut k = g;
    k.reset_stm();
    eq_mat("the reset transition matrix is the identity", &k.stm().unwrap(), &id);
    eq_mat("the initial transition matrix is the identity", &g.with_stm().stm().unwrap(), &id);
    k.unset_stm();
    ensures("no transition matrix", k.stm().is_err() && k.stm.is_none());
    let l = g.to_location();
    ensures_eq("location latitude", l.latitude_deg, c[0]);
    ensures_eq("location longitude", l.longitude_deg, c[1]);
    ensures_eq("location height", l.height_km, c[2]);
    ensures("location frame, without mask", l.frame == f.into() && l.terrain_mask.is_empty());
    cover("state");
}
/// position on the spheroid, from its definition: foot point plus height along the normal
fn position(g: &GroundAsset) -> Vector3<f64> {
    let s = g.frame.shape.unwrap();
    let (a, b) = (s.semi_major_equatorial_radius_km, s.polar_radius_km);
    let (p, l) = (g.latitude_deg.to_radians(), g.longitude_deg.to_radians());
    let n = Vector3::new(p.cos() * l.cos(), p.cos() * l.sin(), p.sin());
    // foot point of a surface of normal n: proportional to (a² n_x, a² n_y, b² n_z)
    let q = (a * a * p.cos() * p.cos() + b * b * p.sin() * p.sin()).sqrt();
    Vector3::new(a * a * n[0] / q + g.height_km * n[0], a * a * n[1] / q + g.height_km * n[1], b * b * n[2] / q + g.height_km * n[2])
}
const NAMES: [&str; 6] = ["lat", "lon", "h", "lat'", "lon'", "h'"];
fn pnt_jacobian() {
    let g = asset("", 0.0, body());
    let x = position(&g);
    let c = comps(&g);
    eq_v3("position of the asset", &g.orbit().radius_km, &x);
    let j = g.geodetic_to_cartesian_jacobian().unwrap();
    // velocity: time derivative of the position
    let v = Vector3::from_fn(|i, _| (0..3).map(|k| deriv(x[i], NAMES[k]) * c[k + 3]).sum::<f64>());
    for i in 0..3 {
        for k in 0..6 {
            ensures_eq(&format!("position partial {i},{k}"), j[(i, k)], deriv(x[i], NAMES[k]));
            ensures_eq(&format!("velocity partial {i},{k}"), j[(i + 3, k)], deriv(v[i], NAMES[k]));
        }
    }
    cover("jacobian");
}
fn pnt_dynamics() {
    let t = real("t", -1e6, 1e6);
    let g0 = asset("", t, body());
    let dyn_ = GroundDynamics {};
    let stm = flag("stm");
    let g = if stm { g0.with_stm() } else { g0 };
    // right-hand side at an arbitrary stage
    let mut w = sym_vec::<42>("w", 100.0);
    // the rates are constant over the propagation
    for i in 3..6 {
        w[i] = comps(&g)[i];
    }
    let dt = real("stage", 0.0, 10.0);
    let d = dyn_.eom(dt, &w, &g, &Almanac::default()).unwrap();
    for i in 0..6 {
        ensures_eq("constant rates", d[i], if i < 3 { w[i + 3] } else { 0.0 });
        for j in 0..6 {
            let want = if stm && i < 3 { w[6 + i + 3 + 6 * j] } else { 0.0 };
            ensures_eq("the transition matrix follows the rates", d[6 + i + 6 * j], want);
        }
    }
    let (x, a) = dyn_.dual_eom(dt, &g, &Almanac::default()).unwrap();
    for i in 0..6 {
        ensures_eq("rates", x[i], if i < 3 { comps(&g)[i + 3] } else { 0.0 });
        for j in 0..6 {
            ensures_eq("gradient", a[(i, j)], if i < 3 && j == i + 3 { 1.0 } else { 0.0 });
        }
    }
    cover("eom");
}
fn pnt_propagate() {
    bounded("up to two fixed steps, either direction");
    let t = real("t", -1e6, 1e6);
    let h = real("step", 1.0, 100.0);
    let g = asset("", t, body());
    let stm = flag("stm");
    let n = [-2.0, -1.0, -0.5, 0.5, 1.0, 2.0][choose("steps", 6)];
    let method = [IntegratorMethod::RungeKutta4, IntegratorMethod::RungeKutta89][choose("method", 2)];
    let p = Propagator::new(GroundDynamics {}, method, IntegratorOptions::with_fixed_step(dur(h)));
    let s = p.with(if stm { g.with_stm() } else { g }, Arc::new(Almanac::default())).quiet().for_duration(dur(n * h)).unwrap();
    let (c0, c1) = (comps(&g), comps(&s));
    for i in 0..3 {
        ensures_eq("moves at its rates", c1[i], c0[i] + c0[i + 3] * (n * h));
        ensures_eq("keeps its rates", c1[i + 3], c0[i + 3]);
    }
    ensures_eq("epoch", secs(s.epoch), t + n * h);
    ensures("transition matrix only if requested", s.stm.is_some() == stm);
    if stm {
        let m = SMatrix::<f64, 6, 6>::from_fn(|i, j| if i == j { 1.0 } else if j == i + 3 { n * h } else { 0.0 });
        eq_mat("transition matrix of the motion", &s.stm.unwrap(), &m);
    }
    cover("propagated");
}
fn pnt_interpolate() {
    trust("anise::math::interpolation::hermite_eval runs as published (in the instrumented build)");
    let (t0, t1, e) = (real("t0", -100.0, 100.0), real("t1", -100.0, 100.0), real("e", -100.0, 100.0));
    assume_lt(1e-3, t1 - t0);
    let cs: Vec<Vec<f64>> = (0..3).map(|a| (0..=3).map(|k| real(&format!("c{a}{k}"), -10.0, 10.0)).collect()).collect();
    let f = body();
    let at = |t: f64| {
        let p: Vec<_> = (0..3).map(|a| poly(&cs[a], t)).collect();
        GroundAsset { latitude_deg: p[0].0, longitude_deg: p[1].0, height_km: p[2].0, latitude_rate_deg_s: p[0].1, longitude_rate_deg_s: p[1].1, height_rate_km_s: p[2].1, epoch: et(t), frame: f, stm: None }
    };
    let st = [at(t0), at(t1)];
    let r = st[choose("neighbour", 2)].interpolate(et(e), &st).unwrap();
    let (a, b) = (comps(&r), comps(&at(e)));
    for i in 0..6 {
        ensures_eq("a motion that is cubic in time is reproduced", a[i], b[i]);
    }
    ensures_eq("epoch", r.epoch.to_et_seconds(), e);
    ensures("frame", r.frame == f);
    cover("interpolated");
}
/// great circle distance: central angle of the two directions on the sphere
fn pnt_distance() {
    let f = body();
    let sym = flag("symbolic");
    let at = |n: &str, k: usize| {
        if sym {
            (real(&format!("{n}lat"), -80.0, 80.0), real(&format!("{n}lon"), -170.0, 170.0))
        } else {
            [(0.0, 0.0), (45.0, 30.0), (-60.0, 120.0), (10.0, -100.0), (80.0, 179.0)][k]
        }
    };
    let (p1, p2) = if sym { (at("a", 0), at("b", 0)) } else { (at("", choose("from", 5)), at("", choose("to", 5))) };
    let mut unit = f;
    unit.shape = Some(Ellipsoid { semi_major_equatorial_radius_km: 1.0, semi_minor_equatorial_radius_km: 1.0, polar_radius_km: 1.0 });
    let dist = |f| {
        let g = |n: &str, p: (f64, f64)| GroundAsset::from_fixed(p.0, p.1, real(&format!("h{n}"), -5.0, 10.0), ep(0.0), f);
        g("a", p1).great_circle_distance_km(&g("b", p2)).unwrap()
    };
    let (d, c) = (dist(f), dist(unit) * 0.5);
    ensures_eq("proportional to the radius", d, 2.0 * c * f.shape.unwrap().semi_major_equatorial_radius_km);
    ensures_le("not negative", 0.0, c);
    let rad = |p: (f64, f64)| (p.0.to_radians(), p.1.to_radians());
    let (q1, q2) = (rad(p1), rad(p2));
    if sym {
        let hav = |x: f64| (x / 2.0).sin() * (x / 2.0).sin();
        ensures_eq("haversine of the central angle", c.sin() * c.sin(), hav(q2.0 - q1.0) + q1.0.cos() * q2.0.cos() * hav(q2.1 - q1.1));
        cover("any two points");
    } else {
        // the chord between the two unit vectors is twice the sine of half the angle
        let u = |a: f64, b: f64| Vector3::new(a.cos() * b.cos(), a.cos() * b.sin(), a.sin());
        let ch = u(q1.0, q1.1) - u(q2.0, q2.1);
        ensures_eq_tol("the distance is the arc of the chord", 2.0 * c.sin(), ch.norm(), 1e-9, 1e-9);
        cover("some points");
    }
}
/// velocity in the local horizon
fn pnt_velocity() {
    bounded("a grid of 20 positions, concrete velocities");
    let mut f = IAU_MOON_FRAME;
    f.shape = Some(Ellipsoid { semi_major_equatorial_radius_km: 6378.0, semi_minor_equatorial_radius_km: 6378.0, polar_radius_km: 6356.0 });
    let (lat, lon) = ([-75.0, -30.0, 0.0, 12.5, 60.0][choose("lat", 5)], [0.0, 45.0, 170.0, 300.0][choose("lon", 4)]);
    let h = 2.5;
    let (vs, ve, vz) = (3.0, -7.0, 0.5);
    let g = GroundAsset::from_fixed(lat, lon, h, ep(0.0), f).with_velocity_sez_m_s(vs, ve, vz).unwrap();
    let r = g.velocity_sez_m_s().unwrap();
    for (i, v) in [vs, ve, vz].into_iter().enumerate() {
        ensures_eq_tol("the velocity set is the one read back", r[i], v, 1e-9, 1e-9);
    }
    // and it is the velocity of the position
    let j = g.geodetic_to_cartesian_jacobian().unwrap();
    let c = comps(&g);
    let v = Vector3::from_fn(|i, _| (0..3).map(|k| j[(i, k)] * c[k + 3]).sum::<f64>());
    let (p, l): (f64, f64) = (lat * std::f64::consts::PI / 180.0, lon * std::f64::consts::PI / 180.0);
    let axes = [Vector3::new(p.sin() * l.cos(), p.sin() * l.sin(), -p.cos()), Vector3::new(-l.sin(), l.cos(), 0.0), Vector3::new(p.cos() * l.cos(), p.cos() * l.sin(), p.sin())];
    for i in 0..3 {
        ensures_eq_tol("south, east and up components", v.dot(&axes[i]) * 1e3, r[i], 1e-9, 1e-7);
    }
    cover("velocity");
}
fn pnt_sensitivity() {
    let t = real("t", -1e6, 1e6);
    let g = asset("", t, body());
    let fr = g.frame;
    let o = sym_sc("tx", ep(t), EARTH_J2000);
    let (r, v) = (v3("p", 1e5), v3("q", 10.0));
    trust("the almanac transforms the transmitter to the frame of the asset: an arbitrary state");
    anise::nvhook::install(move |k| {
        k.transform_to = Some(Rc::new(move |q, f| {
            ensures("the transmitter is expressed in the frame of the asset", f == fr);
            ensures_eq("the transmitter is at its trajectory", q.radius_km.x, o.orbit.radius_km.x);
            ensures_eq("at the epoch of the asset", secs(q.epoch), t);
            Some(Orbit { radius_km: r, velocity_km_s: v, epoch: q.epoch, frame: f })
        }));
    });
    let dev = tx(&[Range], vec![o]);
    let ts: IndexSet<MeasurementType> = [Doppler, Range].into_iter().collect();
    let mut m = Measurement::new("GroundAsset".into(), ep(t));
    let avail = flag("available");
    if avail {
        m.push(Range, real("rho", 1.0, 1e6));
    }
    let h = <InterlinkTxSpacecraft as TrackerSensitivity<GroundAsset, GroundAsset>>::h_tilde::<Const<2>>(&dev, &m, &ts, &g, &Almanac::default()).unwrap();
    let d = position(&g) - r;
    assume_lt(1.0, d[0]);
    let rho = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    for j in 0..6 {
        ensures_eq("no sensitivity without a measurement", h[(0, j)], 0.0);
        ensures_eq("range sensitivity", h[(1, j)], if avail { deriv(rho, NAMES[j]) } else { 0.0 });
    }
    ensures("other types are refused", {
        let a: IndexSet<MeasurementType> = [Azimuth].into_iter().collect();
        let m = Measurement::new("x".into(), ep(t)).with(Azimuth, 1.0);
        <InterlinkTxSpacecraft as TrackerSensitivity<GroundAsset, GroundAsset>>::h_tilde::<Const<1>>(&dev, &m, &a, &g, &Almanac::default()).is_err()
    });
    cover("sensitivity");
}
fn pnt_measure() {
    let t = real("t", -1e6, 1e6);
    let tau = real("tau", 0.1, 100.0);
    let f = IAU_MOON_FRAME;
    let (g0, g1) = (asset("a", t - tau, f), asset("b", t, f));
    let (o0, o1) = (sym_sc("txa", ep(t - tau), EARTH_J2000), sym_sc("txb", ep(t), EARTH_J2000));
    let types = if flag("swap") { vec![Doppler, Range] } else { vec![Range] };
    let mut dev = tx(&types, vec![o0, o1]);
    let (two_way, noisy) = (flag("two way"), flag("noisy"));
    trust("the almanac computes the elevation, mask, range and range rate of the transmitter seen from a location: arbitrary values");
    anise::nvhook::install(move |k| {
        k.aer_loc = Some(Rc::new(move |o, l, body, lt| {
            let late = secs(o.epoch) == t;
            let (g, w) = if late { (&g1, &o1) } else { (&g0, &o0) };
            ensures("seen from the asset, without obstruction or light time", l.frame == f.into() && body.is_none() && !lt);
            ensures_eq("latitude of the asset", l.latitude_deg, g.latitude_deg);
            ensures_eq("longitude of the asset", l.longitude_deg, g.longitude_deg);
            ensures_eq("height of the asset", l.height_km, g.height_km);
            ensures_eq("transmitter of that epoch", o.radius_km[0], w.orbit.radius_km[0]);
            Some(aer(&o, false, false, true))
        }));
    });
    let mut noises: IndexMap<MeasurementType, StochasticNoise> = IndexMap::new();
    let mut stamp = None;
    if noisy {
        for ty in &types {
            noises.insert(*ty, any_noise(&format!("{ty:?}")));
        }
        dev.stochastic_noises = Some(noises.clone());
        if flag("stamp") {
            stamp = Some(StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: real("stamp", 0.0, 1.0) }), bias: None });
            dev.timestamp_noise_s = stamp;
        }
        for ty in &types {
            let n = noises[ty];
            ensures_eq("measurement variance", <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measurement_covar(&dev, *ty, ep(t)).unwrap(), n.covariance(ep(t)));
            ensures_eq("measurement bias", <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measurement_bias(&dev, *ty, ep(t)).unwrap(), n.bias.and_then(|b| b.constant).unwrap_or(0.0));
        }
    }
    if two_way {
        dev.integration_time = Some(dur(tau));
    }
    let traj = Traj { name: None, states: vec![g0, g1] };
    let mut rng = Pcg64Mcg::new(7);
    let mut rng2 = rng.clone();
    let m = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut dev, ep(t), &traj, if noisy { Some(&mut rng) } else { None }, &Almanac::default()).unwrap();
    let (a0, a1) = (aer(&o0.orbit, false, false, true), aer(&o1.orbit, false, false, true));
    let up = |a: &anise::astro::AzElRange| a.elevation_deg >= a.mask_deg.unwrap();
    let vis = up(&a1) && (!two_way || up(&a0));
    ensures("measured exactly while the transmitter is above the mask", m.is_some() == vis);
    let Some(m) = m else {
        cover("below the mask");
        return;
    };
    let at = if two_way { ep(t - tau * 0.5) } else { ep(t) };
    let dt = stamp.as_mut().map(|s| s.sample(at, &mut rng2)).unwrap_or(0.0);
    ensures_eq("time stamp", secs(m.epoch), t + dt);
    ensures("one value per type", m.data.len() == types.len());
    for ty in &types {
        let n = noises.get_mut(ty).map(|n| n.sample(at, &mut rng2)).unwrap_or(0.0);
        let p = |a: &anise::astro::AzElRange| if *ty == Range { a.range_km } else { a.range_rate_km_s };
        let want = if two_way { (p(&a0) + p(&a1)) * 0.5 + n / std::f64::consts::SQRT_2 } else { p(&a1) + n };
        ensures_eq(&format!("{ty:?}"), m.data[ty], want);
    }
    cover("measured");
}
pub fn list() -> Vec<Harness> {
    let h = |name, functions: &'static [&'static str], f: fn()| Harness { name, property: "P28", functions, f, may_panic: false };
    vec![
        h("pnt_state", &["GroundAsset as State", "GroundAsset::to_location", "GroundAsset::from_fixed"], pnt_state),
        h("pnt_jacobian", &["GroundAsset::geodetic_to_cartesian_jacobian", "GroundAsset::orbit"], pnt_jacobian),
        h("pnt_dynamics", &["GroundDynamics::eom", "GroundDynamics::dual_eom"], pnt_dynamics),
        h("pnt_propagate", &["GroundDynamics::eom", "PropInstance::for_duration"], pnt_propagate),
        h("pnt_interpolate", &["GroundAsset::interpolate"], pnt_interpolate),
        h("pnt_distance", &["GroundAsset::great_circle_distance_km"], pnt_distance),
        h("pnt_velocity", &["GroundAsset::with_velocity_sez_m_s", "GroundAsset::velocity_sez_m_s", "latlongalt_rate", "velocity_sez_from_latlongalt_rate"], pnt_velocity),
        h("pnt_sensitivity", &["InterlinkTxSpacecraft::h_tilde (ground asset)"], pnt_sensitivity),
        h("pnt_measure", &["InterlinkTxSpacecraft::measure (ground asset)", "InterlinkTxSpacecraft::measure_instantaneous (ground asset)"], pnt_measure),
    ]
}
