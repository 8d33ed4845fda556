//! Measurement models: ground stations, interlinks, noises, sensitivities (P18).
use crate::common::*;
use anise::almanac::Almanac;
use anise::astro::{AzElRange, Location};
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, MOON_J2000};
use anise::prelude::{Frame, Orbit};
use hifitime::{Duration, Epoch};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, SMatrix, SVector, Vector3};
use nvrt::*;
use nyx_space::md::trajectory::Traj;
use nyx_space::md::Trajectory;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::msr::MeasurementType::*;
use nyx_space::od::noise::link_specific::{CarrierFreq, ChipRate, CN0, SN0};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, Stochastics, WhiteNoise};
use nyx_space::od::{GroundStation, TrackingDevice};
use nyx_space::Spacecraft;
use nyx_space::mc::RngExt;
use rand_pcg::Pcg64Mcg;
use std::rc::Rc;

const S2: f64 = std::f64::consts::SQRT_2;

/// azimuth, elevation, range, range rate and mask as arbitrary functions of the received orbit
pub fn aer(o: &Orbit, blocked: bool, lt: bool, mask: bool) -> AzElRange {
    let mut a: Vec<f64> = o.radius_km.iter().chain(o.velocity_km_s.iter()).copied().collect();
    a.push(secs(o.epoch));
    let n = |s: &str| if lt { format!("lt_{s}") } else { s.to_string() };
    AzElRange {
        epoch: o.epoch,
        azimuth_deg: uf(&n("az"), &a, 0.0, 359.9),
        elevation_deg: uf(&n("el"), &a, -90.0, 90.0),
        range_km: uf(&n("rho"), &a, 1.0, 1e6),
        range_rate_km_s: uf(&n("rhod"), &a, -20.0, 20.0),
        mask_deg: if mask { Some(uf("maskv", &a, 0.0, 20.0)) } else { None },
        obstructed_by: if blocked { Some(MOON_J2000) } else { None },
        light_time: Duration::ZERO,
    }
}
fn station(types: &[MeasurementType]) -> GroundStation {
    let mut g = GroundStation::from_point("GS".into(), real("lat", -80.0, 80.0), real("lon", 0.0, 359.0), real("h", 0.0, 3.0), IAU_EARTH_FRAME);
    for t in types {
        g = g.with_msr_type(*t, StochasticNoise::ZERO);
    }
    g
}
pub fn any_noise(n: &str) -> StochasticNoise {
    let mut gm = GaussMarkov::new(hifitime::Unit::Hour * 2, real(&format!("{n}.gm"), 0.0, 1.0)).unwrap();
    if flag("constant") {
        gm.constant = Some(real(&format!("{n}.const"), -1.0, 1.0));
    }
    StochasticNoise {
        white_noise: Some(WhiteNoise { mean: real(&format!("{n}.mean"), -1.0, 1.0), sigma: real(&format!("{n}.sigma"), 0.0, 1.0) }),
        bias: if flag("gm") { Some(gm) } else { None },
    }
}
fn types_case() -> Vec<MeasurementType> {
    match choose("types", 3) {
        0 => vec![Range],
        1 => vec![Doppler, Range],
        _ => vec![Elevation, Range, Azimuth, Doppler],
    }
}
fn pick(t: MeasurementType, a: &AzElRange) -> f64 {
    match t {
        Range => a.range_km,
        Doppler => a.range_rate_km_s,
        Azimuth => a.azimuth_deg,
        Elevation => a.elevation_deg,
        _ => unreachable!(),
    }
}
/// mean azimuth along the shortest arc, in [0, 360)
fn mean_az(a: f64, b: f64) -> f64 {
    let (m, d) = ((a + b) * 0.5, b - a);
    if d <= 180.0 && d >= -180.0 {
        m
    } else if m < 180.0 {
        m + 180.0
    } else {
        m - 180.0
    }
}
fn hooks(blocked: impl Fn(Epoch) -> bool + 'static, want_body: Option<Frame>, loc: Location, lt: bool, mask: bool) {
    let b = Rc::new(blocked);
    anise::nvhook::install(move |k| {
        let (b1, loc1) = (b.clone(), loc.clone());
        k.aer_loc = Some(Rc::new(move |o, l, body, ab| {
            ensures("the location of the station is used", l == loc1);
            ensures("obstruction is checked by the central body of the receiver, when it is not the station's", body == want_body);
            ensures("light time corrected as configured", ab == lt);
            Some(aer(&o, b1(o.epoch), ab, mask))
        }));
    });
}

/// one-way and two-way measurements of a ground station: values, visibility, epochs, noise
fn gs_measure_case(two_way: bool, noisy: bool) {
    let types = if noisy { vec![Doppler, Range] } else { types_case() };
    let mut g = station(&types);
    let lt = !noisy && flag("light_time");
    g.light_time_correction = lt;
    let al = Almanac::default();
    let t = real("t", -1e6, 1e6);
    let tau = real("tau", 0.1, 100.0);
    let moon = !noisy && flag("moon");
    let fr = if moon { MOON_J2000 } else { EARTH_J2000 };
    let s1 = sym_sc("b", ep(t), fr);
    let s0 = sym_sc("a", ep(t - tau), fr);
    let mask = flag("mask");
    let (b0, b1) = (!noisy && flag("blocked0"), !noisy && flag("blocked1"));
    hooks(move |e| if secs(e) == t { b1 } else { b0 }, if moon { Some(fr) } else { None }, g.location.clone(), lt, mask);
    let mut noises: IndexMap<MeasurementType, StochasticNoise> = IndexMap::new();
    let mut stamp = None;
    if noisy {
        for ty in &types {
            noises.insert(*ty, any_noise(&format!("{ty:?}")));
        }
        g.stochastic_noises = Some(noises.clone());
        if flag("stamp") {
            stamp = Some(StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: real("stamp", 0.0, 1.0) }), bias: None });
            g.timestamp_noise_s = stamp;
        }
    }
    if two_way {
        g = g.with_integration_time(Some(dur(tau)));
    }
    let traj: Traj<Spacecraft> = Traj { name: None, states: vec![s0, s1] };
    let (a0, a1) = (aer(&s0.orbit, b0, lt, mask), aer(&s1.orbit, b1, lt, mask));
    let hidden = |a: &AzElRange| a.elevation_deg < a.mask_deg.unwrap_or(0.0) || a.obstructed_by.is_some();
    let mut rng = Pcg64Mcg::new(7);
    let mut rng2 = rng.clone();
    // two measurements in a row: the noise processes advance
    for k in 0..if noisy { 2 } else { 1 } {
        let m = g.measure(ep(t), &traj, if noisy { Some(&mut rng) } else { None }, &al).unwrap();
        let vis = if two_way { !hidden(&a0) && !hidden(&a1) } else { !hidden(&a1) };
        ensures("measured exactly when visible over the whole integration", m.is_some() == vis);
        let Some(m) = m else {
            cover("not visible");
            return;
        };
        cover("visible");
        // noise: one sample of each process, at the middle of the integration
        let at = if two_way { ep(t - tau * 0.5) } else { ep(t) };
        let mut dt = 0.0;
        if let Some(s) = stamp.as_mut() {
            dt = s.sample(at, &mut rng2);
        }
        ensures_eq("time stamp", secs(m.epoch), t + dt);
        ensures("tracker", m.tracker == "GS" && !m.rejected);
        ensures("one value per type", m.data.len() == types.len());
        for ty in &types {
            let n = match noises.get_mut(ty) {
                Some(n) => n.sample(at, &mut rng2),
                None => 0.0,
            };
            let got = m.data[ty];
            if two_way {
                let mean = if *ty == Azimuth { mean_az(a0.azimuth_deg, a1.azimuth_deg) } else { (pick(*ty, &a0) + pick(*ty, &a1)) * 0.5 };
                ensures_eq(&format!("two-way {ty:?} #{k}"), got, mean + n / S2);
            } else {
                ensures_eq(&format!("one-way {ty:?} #{k}"), got, pick(*ty, &a1) + n);
            }
        }
    }
}
fn gs_one_way() {
    gs_measure_case(false, false);
}
fn gs_two_way() {
    gs_measure_case(true, false);
}
fn gs_one_way_noise() {
    gs_measure_case(false, true);
}
fn gs_two_way_noise() {
    gs_measure_case(true, true);
}
/// outside of the trajectory, nothing is measured
fn gs_outside() {
    let mut g = station(&[Range]);
    hooks(|_| false, None, g.location.clone(), false, false);
    let t = real("t", -1e6, 1e6);
    let s1 = sym_sc("b", ep(t), EARTH_J2000);
    let s0 = sym_sc("a", ep(t - 10.0), EARTH_J2000);
    let traj: Traj<Spacecraft> = Traj { name: None, states: vec![s0, s1] };
    g.integration_time = Some(dur(real("tau", 10.1, 100.0)));
    cover("starts before the trajectory");
    ensures("no measurement before the trajectory", g.measure(ep(t), &traj, None, &Almanac::default()).unwrap().is_none());
    g.integration_time = Some(dur(1.0));
    ensures("no measurement after the trajectory", g.measure(ep(t + 1.0), &traj, None, &Almanac::default()).unwrap().is_none());
}
/// configuration and noise statistics
fn gs_config() {
    let g = GroundStation::from_point("GS".into(), real("lat", -80.0, 80.0), real("lon", 0.0, 359.0), real("h", 0.0, 3.0), IAU_EARTH_FRAME);
    ensures("no types at first", g.measurement_types.is_empty());
    let (n1, n2) = (any_noise("r"), any_noise("d"));
    let g = g.with_msr_type(Range, n1).with_msr_type(Doppler, n2);
    let e = ep(real("t", -1e6, 1e6));
    cover("configured");
    let var = |n: &StochasticNoise| {
        let w = n.white_noise.unwrap().sigma;
        w * w + n.bias.map(|b| b.process_noise * b.process_noise).unwrap_or(0.0)
    };
    let bias = |n: &StochasticNoise| n.bias.and_then(|b| b.constant).unwrap_or(0.0);
    ensures_eq("range variance", g.measurement_covar(Range, e).unwrap(), var(&n1));
    ensures_eq("Doppler variance", g.measurement_covar(Doppler, e).unwrap(), var(&n2));
    ensures_eq("range bias", g.measurement_bias(Range, e).unwrap(), bias(&n1));
    ensures_eq("Doppler bias", g.measurement_bias(Doppler, e).unwrap(), bias(&n2));
    ensures("an unconfigured type is an error", g.measurement_covar(Azimuth, e).is_err() && g.measurement_bias(Azimuth, e).is_err());
    let ts: IndexSet<_> = if flag("swap") { [Doppler, Range].into_iter().collect() } else { [Range, Doppler].into_iter().collect() };
    let ns: Vec<_> = ts.iter().map(|t| if *t == Range { n1 } else { n2 }).collect();
    let r: SMatrix<f64, 2, 2> = g.measurement_covar_matrix::<Const<2>>(&ts, e).unwrap();
    eq_mat("noise matrix", &r, &SMatrix::<f64, 2, 2>::new(var(&ns[0]), 0.0, 0.0, var(&ns[1])));
    let b: SVector<f64, 2> = g.measurement_bias_vector::<Const<2>>(&ts, e).unwrap();
    eq_mat("bias vector", &b, &SVector::<f64, 2>::new(bias(&ns[0]), bias(&ns[1])));
    let mixed: IndexSet<_> = [Azimuth, Range].into_iter().collect();
    let r: SMatrix<f64, 2, 2> = g.measurement_covar_matrix::<Const<2>>(&mixed, e).unwrap();
    eq_mat("noise matrix with a type of another tracker", &r, &SMatrix::<f64, 2, 2>::new(0.0, 0.0, 0.0, var(&n1)));
    let c = real("newbias", -1.0, 1.0);
    let h = g.clone().with_msr_bias_constant(Doppler, c).unwrap();
    ensures_eq("constant bias set", h.measurement_bias(Doppler, e).unwrap(), c);
    ensures_eq("the other bias is kept", h.measurement_bias(Range, e).unwrap(), bias(&n1));
    ensures_eq("the variance is kept", h.measurement_covar(Doppler, e).unwrap(), var(&n2));
    let w = g.clone().without_msr_type(Range);
    ensures("removed type", w.measurement_types.len() == 1 && w.measurement_types.contains(&Doppler) && w.measurement_covar(Range, e).is_err());
    ensures_eq("other type kept", w.measurement_covar(Doppler, e).unwrap(), var(&n2));
    let x = g.clone().with_msr_type(Range, n2);
    ensures_eq("replaced type", x.measurement_covar(Range, e).unwrap(), var(&n2));
    ensures("the bias of an unconfigured type is refused", g.clone().with_msr_bias_constant(Azimuth, c).is_err());
    // predefined stations
    let m = real("mask", 0.0, 30.0);
    let k = choose("station", 3);
    let (s, name) = match k {
        0 => (GroundStation::dss65_madrid(m, n1, n2), "Madrid"),
        1 => (GroundStation::dss34_canberra(m, n1, n2), "Canberra"),
        _ => (GroundStation::dss13_goldstone(m, n1, n2), "Goldstone"),
    };
    ensures("name of the station", s.name == name);
    ensures("range and Doppler", s.measurement_types.iter().copied().collect::<Vec<_>>() == vec![Range, Doppler]);
    ensures_eq("range variance of the station", s.measurement_covar(Range, e).unwrap(), var(&n1));
    ensures_eq("Doppler variance of the station", s.measurement_covar(Doppler, e).unwrap(), var(&n2));
    ensures_eq("elevation mask of the station", s.location.elevation_mask_at_azimuth_deg(real("az", 0.0, 359.0)), m);
    ensures("instantaneous, without light time", s.integration_time.is_none() && !s.light_time_correction && s.timestamp_noise_s.is_none());
    ensures("hemisphere", (s.location.latitude_deg < 0.0) == (k == 1) && s.location.frame == IAU_EARTH_FRAME.into());
}
fn delta(s: &Spacecraft, r: Vector3<f64>, v: Vector3<f64>) -> (f64, f64) {
    let (dr, dv) = (s.orbit.radius_km - r, s.orbit.velocity_km_s - v);
    let rho = dr.norm();
    (rho, dr.dot(&dv) / rho)
}
/// rows of the sensitivity matrix are the derivatives of the measurement (evaluated at the computed measurement)
fn rows(name: &str, h: SMatrix<f64, 2, 9>, ts: &IndexSet<MeasurementType>, m: &Measurement, f: (f64, f64)) {
    for (i, t) in ts.iter().enumerate() {
        for j in 0..9 {
            let want = if !m.data.contains_key(t) {
                0.0
            } else {
                let v = if *t == Range { f.0 } else { f.1 };
                match j {
                    0..=2 => deriv(v, &format!("sc.r{j}")),
                    3..=5 => deriv(v, &format!("sc.v{}", j - 3)),
                    _ => 0.0,
                }
            };
            ensures_eq(&format!("{name} d{t:?}/dx{j}"), h[(i, j)], want);
        }
    }
}
fn sens_inputs() -> (Spacecraft, Vector3<f64>, Vector3<f64>, IndexSet<MeasurementType>, Measurement) {
    let s = sym_sc("sc", ep(real("t", -1e6, 1e6)), EARTH_J2000);
    let (r, v) = (v3("gs.r", 7e3), v3("gs.v", 1.0));
    let ts: IndexSet<_> = if flag("swap") { [Doppler, Range].into_iter().collect() } else { [Range, Doppler].into_iter().collect() };
    let (_, rhod) = delta(&s, r, v);
    let mut m = Measurement::new("GS".into(), s.orbit.epoch);
    let which = choose("available", 3);
    if which != 1 {
        // any measured value: it may be ambiguous
        m.push(Range, real("measured", -1e5, 1e5));
    }
    if which != 0 {
        m.push(Doppler, rhod);
    }
    (s, r, v, ts, m)
}
fn gs_sensitivity() {
    let (s, r, v, ts, m) = sens_inputs();
    let g = station(&[Range, Doppler]);
    let t = secs(s.orbit.epoch);
    anise::nvhook::install(move |k| {
        k.frame_info = Some(Rc::new(|u| {
            let f: Frame = u.into();
            Some(f.with_mu_km3_s2(398600.0).with_ellipsoid(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_sphere(6378.0)))
        }));
        k.transform_to = Some(Rc::new(move |o, f| {
            ensures("location expressed in the frame of the receiver", f == EARTH_J2000);
            ensures_eq("location at the epoch of the receiver", secs(o.epoch), t);
            Some(Orbit { radius_km: r, velocity_km_s: v, epoch: o.epoch, frame: f })
        }));
        k.aer = Some(Rc::new(move |rx, _, _, _| {
            let mut a = aer(&rx, false, false, false);
            a.range_km = (rx.radius_km - r).norm();
            Some(a)
        }));
    });
    let h = g.h_tilde::<Const<2>>(&m, &ts, &s, &Almanac::default()).unwrap();
    cover("sensitivity");
    rows("ground", h, &ts, &m, delta(&s, r, v));
    ensures("frequencies are refused", {
        let fs: IndexSet<_> = [ReceiveFrequency].into_iter().collect();
        let m = Measurement::new("GS".into(), s.orbit.epoch).with(ReceiveFrequency, 1.0);
        g.h_tilde::<Const<1>>(&m, &fs, &s, &Almanac::default()).is_err()
    });
}
/// station at zero latitude and longitude of a body aligned with the inertial axes: zenith x, east y, north z
fn gs_angle_sensitivity() {
    let s = sym_sc("sc", ep(real("t", -1e6, 1e6)), EARTH_J2000);
    let mut g = station(&[Azimuth, Elevation]);
    (g.location.latitude_deg, g.location.longitude_deg, g.location.height_km) = (0.0, 0.0, 0.0);
    let r0 = 6378.0;
    // body fixed axes to the axes of the receiver: permutations with signs
    let rot = match choose("axes", 3) {
        0 => nalgebra::Matrix3::identity(),
        1 => nalgebra::Matrix3::new(0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0),
        _ => nalgebra::Matrix3::new(0.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0),
    };
    let gs = rot * Vector3::new(r0, 0.0, 0.0);
    let d = rot.transpose() * (s.orbit.radius_km - gs);
    assume_lt(1.0, d.x);
    assume_lt(1.0, d.y);
    assume_lt(1.0, d.z);
    let deg = 180.0 / std::f64::consts::PI;
    let (az, el) = (d.y.atan2(d.z) * deg, d.x.atan2((d.y * d.y + d.z * d.z).sqrt()) * deg);
    anise::nvhook::install(move |k| {
        k.frame_info = Some(Rc::new(move |u| {
            let f: Frame = u.into();
            Some(f.with_mu_km3_s2(398600.0).with_ellipsoid(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_sphere(r0)))
        }));
        k.transform_to = Some(Rc::new(move |o, f| Some(Orbit { radius_km: gs, velocity_km_s: Vector3::zeros(), epoch: o.epoch, frame: f })));
        k.rotate = Some(Rc::new(move |a, b, _| Some(anise::math::rotation::DCM { rot_mat: if b.orientation_id == EARTH_J2000.orientation_id { rot } else { rot.transpose() }, rot_mat_dt: None, from: a.orientation_id, to: b.orientation_id })));
        k.aer = Some(Rc::new(move |rx, _, _, _| {
            let mut a = aer(&rx, false, false, false);
            (a.azimuth_deg, a.elevation_deg, a.range_km) = (az, el, d.norm());
            Some(a)
        }));
    });
    let ts: IndexSet<_> = [Azimuth, Elevation].into_iter().collect();
    let m = Measurement::new("GS".into(), s.orbit.epoch).with(Azimuth, az).with(Elevation, el);
    let h = g.h_tilde::<Const<2>>(&m, &ts, &s, &Almanac::default()).unwrap();
    cover("angles");
    for (i, (n, v)) in [("azimuth", az), ("elevation", el)].into_iter().enumerate() {
        for j in 0..9 {
            if j < 3 {
                ensures_eq(&format!("{n} sensitivity to the position"), h[(i, j)], deriv(v, &format!("sc.r{j}")));
            } else {
                ensures_eq(&format!("{n} sensitivity to the velocity and parameters"), h[(i, j)], 0.0);
            }
        }
    }
}
pub fn tx(types: &[MeasurementType], states: Vec<Spacecraft>) -> InterlinkTxSpacecraft {
    let traj: Trajectory = Traj { name: Some("TX".into()), states };
    InterlinkTxSpacecraft {
        traj,
        measurement_types: types.iter().copied().collect(),
        integration_time: None,
        timestamp_noise_s: None,
        stochastic_noises: None,
        ab_corr: None,
    }
}
fn link_sensitivity() {
    let (s, r, v, ts, m) = sens_inputs();
    let mut o = sym_sc("tx", s.orbit.epoch, MOON_J2000);
    o.orbit.frame = MOON_J2000;
    let g = tx(&[Range, Doppler], vec![o]);
    anise::nvhook::install(move |k| {
        k.transform_to = Some(Rc::new(move |q, f| {
            ensures("location expressed in the frame of the receiver", f == EARTH_J2000);
            ensures_eq("the transmitter is at its trajectory", q.radius_km.x, o.orbit.radius_km.x);
            Some(Orbit { radius_km: r, velocity_km_s: v, epoch: q.epoch, frame: f })
        }));
    });
    let h = <InterlinkTxSpacecraft as TrackerSensitivity<Spacecraft, Spacecraft>>::h_tilde::<Const<2>>(&g, &m, &ts, &s, &Almanac::default()).unwrap();
    cover("sensitivity");
    rows("link", h, &ts, &m, delta(&s, r, v));
}
/// range and range rate between two spacecraft, one-way and averaged
fn link_case(two_way: bool, noisy: bool) {
    let t = real("t", -1e6, 1e6);
    let tau = real("tau", 0.1, 100.0);
    let (o0, o1) = (sym_sc("txa", ep(t - tau), EARTH_J2000), sym_sc("txb", ep(t), EARTH_J2000));
    let (s0, s1) = (sym_sc("a", ep(t - tau), MOON_J2000), sym_sc("b", ep(t), MOON_J2000));
    let types = if flag("swap") { vec![Doppler, Range] } else { vec![Range] };
    let mut g = tx(&types, vec![o0, o1]);
    // receiver in the frame of the transmitter: translated by an arbitrary offset
    let off = v3("off", 1e5);
    let voff = v3("voff", 2.0);
    let (b0, b1) = (flag("blocked0"), flag("blocked1"));
    anise::nvhook::install(move |k| {
        k.los = Some(Rc::new(move |a, b, body| {
            ensures("line of sight past the body of the transmitter", body == EARTH_J2000 && a.frame == EARTH_J2000 && b.frame == MOON_J2000);
            ensures_eq("line of sight at one epoch", secs(a.epoch), secs(b.epoch));
            Some(if secs(a.epoch) == t { b1 } else { b0 })
        }));
        k.transform_to = Some(Rc::new(move |q, f| {
            ensures("compared in the frame of the transmitter", f == EARTH_J2000 && q.frame == MOON_J2000);
            Some(Orbit { radius_km: q.radius_km + off, velocity_km_s: q.velocity_km_s + voff, epoch: q.epoch, frame: f })
        }));
    });
    let mut noises: IndexMap<MeasurementType, StochasticNoise> = IndexMap::new();
    let mut stamp = None;
    if noisy {
        for ty in &types {
            noises.insert(*ty, any_noise(&format!("{ty:?}")));
        }
        g.stochastic_noises = Some(noises.clone());
        if flag("stamp") {
            stamp = Some(StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: real("stamp", 0.0, 1.0) }), bias: Some(GaussMarkov::new(hifitime::Unit::Hour * 1, 0.5).unwrap()) });
            g.timestamp_noise_s = stamp;
        }
    }
    if two_way {
        g.integration_time = Some(dur(tau));
    }
    let traj: Traj<Spacecraft> = Traj { name: None, states: vec![s0, s1] };
    let f = |o: &Spacecraft, s: &Spacecraft| {
        let (dr, dv) = (s.orbit.radius_km + off - o.orbit.radius_km, s.orbit.velocity_km_s + voff - o.orbit.velocity_km_s);
        (dr.norm(), dr.dot(&dv) / dr.norm())
    };
    let (f0, f1) = (f(&o0, &s0), f(&o1, &s1));
    let mut rng = Pcg64Mcg::new(7);
    let mut rng2 = rng.clone();
    for _ in 0..if noisy { 2 } else { 1 } {
        let m = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut g, ep(t), &traj, if noisy { Some(&mut rng) } else { None }, &Almanac::default()).unwrap();
        let vis = if two_way { !b0 && !b1 } else { !b1 };
        ensures("measured exactly with line of sight over the whole integration", m.is_some() == vis);
        let Some(m) = m else {
            cover("hidden");
            return;
        };
        cover("seen");
        ensures("tracker", m.tracker == "TX");
        let at = if two_way { ep(t - tau * 0.5) } else { ep(t) };
        let dt = stamp.as_mut().map(|s| s.sample(at, &mut rng2)).unwrap_or(0.0);
        ensures_eq("time stamp", secs(m.epoch), t + dt);
        ensures("one value per type", m.data.len() == types.len());
        for ty in &types {
            let n = noises.get_mut(ty).map(|n| n.sample(at, &mut rng2)).unwrap_or(0.0);
            let (v0, v1) = if *ty == Range { (f0.0, f1.0) } else { (f0.1, f1.1) };
            let want = if two_way { (v0 + v1) * 0.5 + n / S2 } else { v1 + n };
            ensures_eq(&format!("link {ty:?}"), m.data[ty], want);
        }
    }
}
fn link_one_way() {
    link_case(false, false);
}
fn link_two_way() {
    link_case(true, false);
}
fn link_noise() {
    link_case(flag("two_way"), true);
}
/// measurement containers
fn msr_container() {
    let (a, b, c) = (real("a", -1e5, 1e5), real("b", -1e5, 1e5), real("c", -1e5, 1e5));
    let e = ep(real("t", -1e6, 1e6));
    let mut m = Measurement::new("X".into(), e).with(Range, a);
    m.push(Doppler, b);
    ensures("fresh", !m.rejected && m.tracker == "X");
    ensures_eq("epoch", secs(m.epoch), secs(e));
    let ts: IndexSet<_> = [Doppler, Azimuth, Range].into_iter().collect();
    let o: SVector<f64, 3> = m.observation::<Const<3>>(&ts);
    cover("container");
    eq_mat("observation in the order of the types, zero when missing", &o, &SVector::<f64, 3>::new(b, 0.0, a));
    ensures("availability", m.availability(&ts) == vec![true, false, true]);
    let n = m.clone();
    ensures("equal to itself", m == n);
    m.correct(Doppler, c);
    m.correct(Elevation, c);
    ensures_eq("correction is added", m.data[&Doppler], b + c);
    ensures_eq("others unchanged", m.data[&Range], a);
    ensures("no type appears", m.data.len() == 2);
    m.push(Range, c);
    ensures_eq("pushed again", m.data[&Range], c);
    ensures("replaced", m.data.len() == 2);
    // equality
    let d = real("d", -1.0, 1.0);
    let p = Measurement::new("X".into(), e).with(Doppler, b).with(Range, a + d);
    let q = Measurement::new("X".into(), e).with(Range, a).with(Doppler, b);
    let same = p == q;
    if d.abs() < 1e-11 {
        cover("same");
        ensures("equal within the tolerance whatever the order", same);
    } else if d.abs() > 1e-9 {
        ensures("different values differ", !same);
    }
    ensures("other tracker", Measurement::new("Y".into(), e).with(Range, a).with(Doppler, b) != q);
    ensures("fewer types", Measurement::new("X".into(), e).with(Range, a) != q);
    ensures("other types", Measurement::new("X".into(), e).with(Range, a).with(Azimuth, b) != q);
    ensures("other epoch", Measurement::new("X".into(), e + dur(1.0)).with(Range, a).with(Doppler, b) != q);
}
/// noise models
fn noise_models() {
    let (mean, sigma) = (real("mean", -1.0, 1.0), real("sigma", 0.0, 10.0));
    let e = ep(real("t", -1e6, 1e6));
    let mut w = WhiteNoise { mean, sigma };
    let mut r = Pcg64Mcg::new(3);
    let mut r2 = r.clone();
    let z: f64 = r2.sample(rand_distr::StandardNormal);
    cover("noise");
    ensures_eq("white noise sample", w.sample(e, &mut r), mean + sigma * z);
    ensures_eq("white noise variance", w.covariance(e), sigma * sigma);
    let k = real("k", 0.0, 10.0);
    ensures_eq("scaled sigma", (w * k).sigma, sigma * k);
    ensures_eq("scaled mean", (w * k).mean, mean);
    let dt = real("dt", 0.1, 100.0);
    let n = WhiteNoise::new(sigma, dur(dt)).unwrap();
    ensures_eq("white noise density", n.sigma * dt, sigma);
    ensures_eq("zero mean", n.mean, 0.0);
    ensures("negative integration time refused", WhiteNoise::new(sigma, dur(-dt)).is_err());
    ensures("negative noise refused", WhiteNoise::new(-1.0, dur(dt)).is_err());
    ensures_eq("constant white noise", WhiteNoise::constant_white_noise(sigma).sigma, sigma);
    let (pr, bw) = (real("pr", 1.0, 1e3), real("bw", 1.0, 1e3));
    ensures_eq("thermal noise", WhiteNoise::from_pr_n0(pr, bw).sigma * 2.0 * bw * pr.sqrt(), 299792.458);
    // sums
    let c = real("c", -5.0, 5.0);
    let gm0 = GaussMarkov::new(hifitime::Unit::Hour * 1, real("q", 0.0, 1.0)).unwrap();
    let mut gm1 = gm0;
    gm1.constant = Some(c);
    let (mut ra, mut rb, mut rc) = (Pcg64Mcg::new(5), Pcg64Mcg::new(5), Pcg64Mcg::new(5));
    let (mut g0, mut g1) = (gm0, gm1);
    let x0 = g0.sample(e, &mut ra);
    ensures_eq("constant bias added", g1.sample(e, &mut rb), x0 + c);
    let mut gz = GaussMarkov::ZERO;
    gz.constant = Some(c);
    ensures_eq("noiseless bias", gz.sample(e, &mut rc), c);
    ensures("tau must be positive", GaussMarkov::new(Duration::ZERO, 1.0).is_err());
    let mut s = StochasticNoise { white_noise: Some(w), bias: Some(gm1) };
    let (mut rd, mut re) = (Pcg64Mcg::new(6), Pcg64Mcg::new(6));
    let (mut wc, mut gc) = (w, gm1);
    let want = wc.sample(e, &mut re) + gc.sample(e, &mut re);
    ensures_eq("noise is white plus bias", s.sample(e, &mut rd), want);
    ensures_eq("variances add", s.covariance(e), sigma * sigma + gm1.process_noise * gm1.process_noise);
    let sk = s * k;
    ensures_eq("scaled noise", sk.white_noise.unwrap().sigma, sigma * k);
    ensures_eq("scaled bias", sk.bias.unwrap().process_noise, gm1.process_noise * k);
    ensures_eq("no noise", StochasticNoise::ZERO.sample(e, &mut rd), 0.0);
    ensures_eq("no variance", StochasticNoise::ZERO.covariance(e), 0.0);
    // presets are what they say
    let rg = |s: SN0, c: ChipRate| StochasticNoise::from_hardware_range_km(1e-12, dur(60.0), c, s).white_noise.unwrap().sigma;
    for (a, b) in [(SN0::Strong(), 65.0), (SN0::Average(), 50.0), (SN0::Poor(), 40.0)] {
        ensures_eq_tol("S/N0 preset", rg(a, ChipRate::default()), rg(SN0::ManualDbHz(b), ChipRate::ManualHz(1e6)), 1e-9, 0.0);
    }
    for (a, b) in [(ChipRate::Lowest(), 1e3), (ChipRate::Low(), 1e5), (ChipRate::High(), 1e7), (ChipRate::VeryHigh(), 2.5e7)] {
        ensures_eq_tol("chip rate preset", rg(SN0::default(), a), rg(SN0::ManualDbHz(50.0), ChipRate::ManualHz(b)), 1e-9, 0.0);
    }
    let dp = |s: CN0, c: CarrierFreq| StochasticNoise::from_hardware_doppler_km_s(1e-13, dur(60.0), c, s).white_noise.unwrap().sigma;
    for (a, b) in [(CN0::Strong(), 70.0), (CN0::Average(), 55.0), (CN0::Poor(), 45.0)] {
        for (c, d) in [(CarrierFreq::SBand(), 2.2e9), (CarrierFreq::XBand(), 8.4e9), (CarrierFreq::KaBand(), 32e9)] {
            ensures_eq_tol("C/N0 and carrier preset", dp(a, c), dp(CN0::ManualDbHz(b), CarrierFreq::ManualHz(d)), 1e-9, 0.0);
        }
    }
}

pub fn list() -> Vec<Harness> {
    let gs: &[&str] = &["od::ground_station::GroundStation::measure", "od::ground_station::GroundStation::measure_instantaneous", "od::ground_station::GroundStation::noises", "od::msr::types::compute_one_way", "od::msr::types::compute_two_way"];
    let gc: &[&str] = &["od::ground_station::GroundStation", "od::simulator::trackdata::TrackingDevice::measurement_covar_matrix", "od::simulator::trackdata::TrackingDevice::measurement_bias_vector"];
    let se: &[&str] = &["od::msr::sensitivity::h_tilde", "od::msr::sensitivity::ScalarSensitivity::new", "od::ground_station::GroundStation::location"];
    let li: &[&str] = &["od::interlink::trk_device::measure", "od::interlink::trk_device::measure_instantaneous", "od::interlink::trk_device::noises"];
    let ls: &[&str] = &["od::interlink::sensitivity::h_tilde", "od::interlink::sensitivity::ScalarSensitivity::new"];
    let h = |name, functions, f| Harness { name, property: "P18", functions, f, may_panic: false };
    let h34 = |name, functions, f| Harness { name, property: "P34", functions, f, may_panic: false };
    vec![
        h("gs_one_way", gs, gs_one_way as fn()),
        h("gs_two_way", gs, gs_two_way),
        h("gs_one_way_noise", gs, gs_one_way_noise),
        h("gs_two_way_noise", gs, gs_two_way_noise),
        h("gs_outside", gs, gs_outside),
        h("gs_config", gc, gs_config),
        h("gs_sensitivity", se, gs_sensitivity),
        h("gs_angle_sensitivity", se, gs_angle_sensitivity),
        h("link_one_way", li, link_one_way),
        h("link_two_way", li, link_two_way),
        h("link_noise", li, link_noise),
        h("link_sensitivity", ls, link_sensitivity),
        h("msr_container", &["od::msr::measurement::Measurement"], msr_container),
        h34("noise_models", &["od::noise::white", "od::noise::gauss_markov", "od::noise::StochasticNoise", "od::noise::link_specific"], noise_models),
    ]
}
