//! Position devices (P30), thrust replay (P13), trajectory conversions (P31), vector and angle helpers (P32).
use crate::common::*;
use crate::h_msr::any_noise;
use anise::almanac::Almanac;
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, MOON_J2000};
use anise::prelude::{Frame, Orbit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, Matrix3, SMatrix, Vector3, Vector6};
use nvrt::*;
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::GuidanceLaw;
use nyx_space::io::ExportCfg;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::msr::MeasurementType::*;
use nyx_space::od::noise::{StochasticNoise, Stochastics};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::TrackingDevice;
use nyx_space::utils::*;
use nyx_space::Spacecraft;
use rand_pcg::Pcg64Mcg;
use std::rc::Rc;

// ---------------------------------------------------------------- P30
fn pos_types() -> Vec<MeasurementType> {
    match choose("types", 7) {
        0 => vec![X, Y, Z],
        1 => vec![Z, X],
        2 => vec![Y],
        3 => vec![Z, Y, X],
        4 => vec![Y, Z],
        5 => vec![X],
        _ => vec![],
    }
}
fn comp(t: MeasurementType, s: &Spacecraft) -> f64 {
    match t {
        X => s.orbit.radius_km.x,
        Y => s.orbit.radius_km.y,
        _ => s.orbit.radius_km.z,
    }
}
fn pos_measure() {
    let types = pos_types();
    let t = real("t", -1e6, 1e6);
    let s = sym_sc("sc", ep(t), EARTH_J2000);
    let s2 = sym_sc("s2", ep(t + real("dt", 1.0, 100.0)), EARTH_J2000);
    let al = Almanac::default();
    let mut d = PositionDevice::new("gps".into());
    let mut noises: IndexMap<MeasurementType, StochasticNoise> = IndexMap::new();
    for ty in &types {
        let n = any_noise(&format!("{ty:?}"));
        noises.insert(*ty, n);
        d = d.with_noise(*ty, n);
    }
    ensures("the configured types are measured", d.measurement_types().iter().copied().collect::<Vec<_>>() == types && d.name() == "gps");
    let traj: Traj<Spacecraft> = Traj { name: None, states: vec![s, s2] };
    let noisy = flag("noisy") && !types.is_empty();
    let instant = flag("instantaneous");
    let mut rng = Pcg64Mcg::new(3);
    let mut rng2 = rng.clone();
    for k in 0..2 {
        let r = if noisy { Some(&mut rng) } else { None };
        let m = if instant { d.measure_instantaneous(s, r, &al) } else { d.measure(ep(t), &traj, r, &al) }.unwrap().unwrap();
        ensures("tagged with the device and exactly its types", m.tracker == "gps" && m.data.len() == types.len());
        ensures_eq("timed at the state", secs(m.epoch), t);
        for ty in &types {
            let w = if noisy { noises.get_mut(ty).unwrap().sample(ep(t), &mut rng2) } else { 0.0 };
            ensures_eq(&format!("{ty:?} of measurement {k}"), m.data[ty], comp(*ty, &s) + w);
        }
    }
    cover("measured");
    let early = d.measure(ep(t - real("before", 0.1, 10.0)), &traj, None, &al);
    ensures("outside of the trajectory is an error", early.is_err());
}
fn pos_config() {
    let t = real("t", -1e6, 1e6);
    let s = sym_sc("sc", ep(t), EARTH_J2000);
    let al = Almanac::default();
    let (nx, nz) = (any_noise("x"), any_noise("z"));
    let d = PositionDevice::new("gps".into()).with_noise(X, nx).with_noise(Z, nz);
    for (ty, n) in [(X, nx), (Z, nz)] {
        ensures_eq("covariance of the type", d.measurement_covar(ty, ep(t)).unwrap(), n.covariance(ep(t)));
        let b = n.bias.and_then(|g| g.constant).unwrap_or(0.0);
        ensures_eq("bias of the type", d.measurement_bias(ty, ep(t)).unwrap(), b);
    }
    ensures("type without noise is an error", d.measurement_covar(Y, ep(t)).is_err() && d.measurement_bias(Y, ep(t)).is_err());
    let mut rng = Pcg64Mcg::new(3);
    let mut e = d.clone();
    e.measurement_types.insert(Y);
    ensures("sampling a type without noise is an error", e.measure_instantaneous(s, Some(&mut rng), &al).is_err());
    let mut bare = PositionDevice::new("p".into());
    bare.measurement_types.insert(X);
    ensures("sampling without any noise is an error", bare.measure_instantaneous(s, Some(&mut rng), &al).is_err());
    ensures_eq("noiseless device has no covariance", bare.measurement_covar(X, ep(t)).unwrap(), 0.0);
    ensures_eq("noiseless device has no bias", bare.measurement_bias(X, ep(t)).unwrap(), 0.0);
    for bad in [Range, Doppler, Azimuth, Elevation] {
        let mut f = PositionDevice::new("p".into());
        f.measurement_types.insert(X);
        f.measurement_types.insert(bad);
        ensures("unsupported type is an error", f.measure_instantaneous(s, None, &al).is_err());
        let ts: IndexSet<_> = [bad].into_iter().collect();
        let m = Measurement::new("p".into(), ep(t)).with(bad, real("v", -1.0, 1.0));
        ensures("no sensitivity of an unsupported type", f.h_tilde::<Const<1>>(&m, &ts, &s, &al).is_err());
    }
    cover("config");
}
fn pos_sensitivity() {
    let t = real("t", -1e6, 1e6);
    let s = sym_sc("sc", ep(t), EARTH_J2000);
    let order = [[X, Y, Z], [Z, Y, X], [Y, Z, X]][choose("order", 3)];
    let ts: IndexSet<_> = order.into_iter().collect();
    let d = PositionDevice::new("gps".into());
    let mut m = Measurement::new("gps".into(), ep(t));
    for ty in [Z, X, Y] {
        if flag("available") {
            m.push(ty, real(&format!("{ty:?}"), -1e5, 1e5));
        }
    }
    let h: SMatrix<f64, 3, 9> = d.h_tilde::<Const<3>>(&m, &ts, &s, &Almanac::default()).unwrap();
    for (i, ty) in order.iter().enumerate() {
        for j in 0..9 {
            let want = if j < 3 && m.data.contains_key(ty) { deriv(comp(*ty, &s), &format!("sc.r{j}")) } else { 0.0 };
            ensures_eq(&format!("d{ty:?}/dx{j}"), h[(i, j)], want);
        }
    }
    cover("sensitivity");
}

// ---------------------------------------------------------------- P13
fn replay_traj() -> ([f64; 3], Vec<Spacecraft>) {
    let ts = reals::<3>("t", -100.0, 100.0);
    assume_lt(ts[0], ts[1]);
    assume_lt(ts[1], ts[2]);
    let mut ss = vec![];
    for i in 0..3 {
        let mut s = sym_sc(&format!("p{i}"), ep(ts[i]), EARTH_J2000);
        // the first sample of a recorded thrust arc may not have a direction yet
        match choose(&format!("sample{i}"), if i == 0 { 4 } else { 3 }) {
            0 => {
                s.mut_mode(GuidanceMode::Thrust);
                s.mut_thrust_direction(Some(v3(&format!("u{i}"), 1.0)));
            }
            1 => s.mut_mode(GuidanceMode::Coast),
            2 => s.mut_mode(GuidanceMode::Inhibit),
            _ => s.mut_mode(GuidanceMode::Thrust),
        }
        ss.push(s);
    }
    (ts, ss)
}
fn replay() {
    bounded("profiles of 3 samples");
    let (ts, ss) = replay_traj();
    let law = Traj { name: None, states: ss.clone() }.to_thrust_direction_replay();
    let e = real("e", -200.0, 200.0);
    let mut s = sym_sc("sc", ep(e), EARTH_J2000);
    if flag("had_direction") {
        s.mut_mode(GuidanceMode::Thrust);
        s.mut_thrust_direction(Some(v3("old", 1.0)));
    }
    let cmd = if e < ts[0] || e > ts[2] {
        None
    } else {
        let k = if e >= ts[2] { 2 } else if e >= ts[1] { 1 } else { 0 };
        if ss[k].thrust_direction().is_none() && ss[k].mode() == GuidanceMode::Thrust {
            ss[k..].iter().find_map(|x| x.thrust_direction())
        } else {
            ss[k].thrust_direction()
        }
    };
    ensures("achieved after the last sample only", law.achieved(&s).unwrap() == (e > ts[2]));
    let (d, th) = (law.direction(&s).unwrap(), law.throttle(&s).unwrap());
    let before = s;
    law.next(&mut s, &Almanac::default());
    match cmd {
        Some(u) => {
            cover("thrust");
            eq_v3("recorded direction", &d, &u);
            ensures_eq("full throttle", th, 1.0);
            ensures("thrusting", s.mode() == GuidanceMode::Thrust && s.thrust_direction().is_some());
            eq_v3("direction of the state", &s.thrust_direction().unwrap(), &u);
        }
        None => {
            cover("coast");
            eq_v3("no direction", &d, &Vector3::zeros());
            ensures_eq("no throttle", th, 0.0);
            ensures("coasting", s.mode() == GuidanceMode::Coast && s.thrust_direction().is_none());
        }
    }
    same_but("otherwise unchanged", &s, &before);
}
/// everything but the guidance
fn same_but(l: &str, a: &Spacecraft, b: &Spacecraft) {
    eq_v3(&format!("{l} position"), &a.orbit.radius_km, &b.orbit.radius_km);
    eq_v3(&format!("{l} velocity"), &a.orbit.velocity_km_s, &b.orbit.velocity_km_s);
    rest(l, a, b);
    ensures(&format!("{l} frame"), a.orbit.frame == b.orbit.frame);
}
fn rest(l: &str, a: &Spacecraft, b: &Spacecraft) {
    ensures_eq(&format!("{l} epoch"), secs(a.orbit.epoch), secs(b.orbit.epoch));
    for (n, x, y) in [
        ("dry", a.mass.dry_mass_kg, b.mass.dry_mass_kg),
        ("prop", a.mass.prop_mass_kg, b.mass.prop_mass_kg),
        ("extra", a.mass.extra_mass_kg, b.mass.extra_mass_kg),
        ("srp area", a.srp.area_m2, b.srp.area_m2),
        ("Cr", a.srp.coeff_reflectivity, b.srp.coeff_reflectivity),
        ("drag area", a.drag.area_m2, b.drag.area_m2),
        ("Cd", a.drag.coeff_drag, b.drag.coeff_drag),
    ] {
        ensures_eq(&format!("{l} {n}"), x, y);
    }
}
fn replay_empty() {
    let law = Traj::<Spacecraft> { name: None, states: vec![] }.to_thrust_direction_replay();
    let s = sym_sc("sc", ep(real("e", -200.0, 200.0)), EARTH_J2000);
    eq_v3("no direction", &law.direction(&s).unwrap(), &Vector3::zeros());
    ensures_eq("no throttle", law.throttle(&s).unwrap(), 0.0);
    cover("empty");
}

// ---------------------------------------------------------------- P31
fn tf(o: &Orbit, f: Frame) -> Orbit {
    let mut a: Vec<f64> = o.radius_km.iter().chain(o.velocity_km_s.iter()).copied().collect();
    a.push(secs(o.epoch));
    let g = |i: usize| uf(&format!("tf{i}"), &a, -1e6, 1e6);
    Orbit { radius_km: Vector3::new(g(0), g(1), g(2)), velocity_km_s: Vector3::new(g(3), g(4), g(5)), epoch: o.epoch, frame: f }
}
fn conv_frame() {
    bounded("trajectories of 3 states");
    let ts = reals::<3>("t", -100.0, 100.0);
    assume_lt(ts[0], ts[1]);
    assume_lt(ts[1], ts[2]);
    let ss: Vec<Spacecraft> = (0..3)
        .map(|i| {
            let mut s = sym_sc(&format!("s{i}"), ep(ts[i]), EARTH_J2000);
            s.mut_mode(MODES[i]);
            if i == 1 {
                s.thruster = Some(sym_thruster("thr"));
            }
            s
        })
        .collect();
    let to = if flag("moon") { MOON_J2000 } else { IAU_EARTH_FRAME };
    anise::nvhook::install(move |k| {
        k.transform_to = Some(Rc::new(move |o, f| {
            ensures("into the requested frame", f == to && o.frame == EARTH_J2000);
            Some(tf(&o, f))
        }));
    });
    let tr = Traj { name: Some("n".into()), states: ss.clone() };
    let r = tr.to_frame(to, &Almanac::default()).unwrap();
    ensures("one state per state", r.states.len() == 3);
    for (a, b) in r.states.iter().zip(&ss) {
        let w = tf(&b.orbit, to);
        eq_v3("transformed position", &a.orbit.radius_km, &w.radius_km);
        eq_v3("transformed velocity", &a.orbit.velocity_km_s, &w.velocity_km_s);
        ensures("frame", a.orbit.frame == to);
        ensures("guidance kept", a.mode == b.mode && a.thruster.is_some() == b.thruster.is_some());
        rest("kept", a, b);
    }
    cover("converted");
    let none: Traj<Spacecraft> = Traj { name: None, states: vec![] };
    ensures("an empty trajectory is an error", none.to_frame(to, &Almanac::default()).is_err());
}
fn conv_ephem() {
    bounded("trajectories of 3 states, steps that divide it in at most 4");
    let t0 = 1000.0;
    let ts = [t0, t0 + 60.0, t0 + 150.0];
    let ss: Vec<Spacecraft> = (0..3).map(|i| sym_sc(&format!("s{i}"), hifitime::Epoch::from_tai_seconds(ts[i]), EARTH_J2000)).collect();
    let tr = Traj { name: None, states: ss.clone() };
    let e = tr.to_ephemeris("obj".into(), ExportCfg::default());
    let got: Vec<Orbit> = (&e).into_iter().map(|r| r.orbit).collect();
    ensures("every state is exported", got.len() == 3);
    for (g, s) in got.iter().zip(&ss) {
        eq_v3("exported position", &g.radius_km, &s.orbit.radius_km);
        eq_v3("exported velocity", &g.velocity_km_s, &s.orbit.velocity_km_s);
        ensures("exported epoch", g.epoch == s.orbit.epoch && g.frame == s.orbit.frame);
    }
    // every option sampled: start, end, step
    let (a, b, st) = (flag("start"), flag("end"), flag("step"));
    if !a && !b && !st {
        return;
    }
    let sec = |x: f64| hifitime::Epoch::from_tai_seconds(x);
    let cfg = ExportCfg {
        start_epoch: a.then(|| sec(t0 + 30.0)),
        end_epoch: b.then(|| sec(t0 + 130.0)),
        step: st.then(|| hifitime::Unit::Second * 50),
        ..Default::default()
    };
    let (x, y, h) = (if a { 30.0 } else { 0.0 }, if b { 130.0 } else { 150.0 }, if st { 50.0 } else { 60.0 });
    let e = tr.to_ephemeris("obj".into(), cfg);
    let got: Vec<Orbit> = (&e).into_iter().map(|r| r.orbit).collect();
    let mut want = vec![];
    let mut q: f64 = x;
    while q <= y {
        want.push(q);
        q += h;
    }
    ensures("sampled at the requested step over the requested span", got.len() == want.len());
    for (g, q) in got.iter().zip(&want) {
        let i = tr.at(sec(t0 + q)).unwrap();
        ensures("sample epoch", g.epoch == sec(t0 + q));
        eq_v3("interpolated position", &g.radius_km, &i.orbit.radius_km);
        eq_v3("interpolated velocity", &g.velocity_km_s, &i.orbit.velocity_km_s);
    }
    cover("exported");
}
fn conv_bsp() {
    bounded("spans of 4 steps");
    let tpl = sym_sc("tpl", hifitime::Epoch::from_tai_seconds(0.0), EARTH_J2000);
    let sec = |x: f64| hifitime::Epoch::from_tai_seconds(x);
    let target = Frame::from_ephem_j2000(-42);
    let of = |e: hifitime::Epoch| tf(&Orbit { radius_km: Vector3::zeros(), velocity_km_s: Vector3::zeros(), epoch: e, frame: MOON_J2000 }, MOON_J2000);
    anise::nvhook::install(move |k| {
        k.spk_domain = Some(Rc::new(move |id| {
            ensures("domain of the target", id == -42);
            Some((sec(100.0), sec(340.0)))
        }));
        k.transform = Some(Rc::new(move |f, o, e| {
            ensures("target seen from the observer", f == target && o == MOON_J2000);
            Some(of(e))
        }));
    });
    let (a, b) = (flag("start"), flag("end"));
    let r = Traj::<Spacecraft>::from_bsp(target, MOON_J2000, &Almanac::default(), tpl, hifitime::Unit::Second * 60, a.then(|| sec(160.0)), b.then(|| sec(300.0)), None, Some("x".into())).unwrap();
    let (lo, hi) = (if a { 160.0 } else { 100.0 }, if b { 300.0 } else { 340.0 });
    let n = ((hi - lo) / 60.0) as usize + 1;
    ensures("sampled over the requested span", r.states.len() == n && r.name.as_deref() == Some("x"));
    for (i, s) in r.states.iter().enumerate() {
        let e = sec(lo + 60.0 * i as f64);
        let w = of(e);
        ensures("sample epoch", s.orbit.epoch == e && s.orbit.frame == MOON_J2000);
        eq_v3("position from the kernel", &s.orbit.radius_km, &w.radius_km);
        eq_v3("velocity from the kernel", &s.orbit.velocity_km_s, &w.velocity_km_s);
        let mut t2 = tpl;
        t2.orbit.epoch = e;
        rest("template", s, &t2);
    }
    cover("loaded");
}

// ---------------------------------------------------------------- P32
fn ut_cross() {
    let (a, b) = (v3("a", 1e3), v3("b", 1e3));
    eq_v3("tilde matrix is the cross product", &(tilde_matrix(&a) * b), &a.cross(&b));
    let t = tilde_matrix(&a);
    eq_mat("skew symmetric", &t.transpose(), &(-t));
    cover("cross");
}
fn ut_rot() {
    let th = real("th", -10.0, 10.0);
    let (s, c) = (th.sin(), th.cos());
    // coordinates in the axes rotated by th about x, y, z
    let want = [
        Matrix3::new(1.0, 0.0, 0.0, 0.0, c, s, 0.0, -s, c),
        Matrix3::new(c, 0.0, -s, 0.0, 1.0, 0.0, s, 0.0, c),
        Matrix3::new(c, s, 0.0, -s, c, 0.0, 0.0, 0.0, 1.0),
    ];
    for (i, (m, w)) in [r1(th), r2(th), r3(th)].iter().zip(&want).enumerate() {
        eq_mat(&format!("r{}", i + 1), m, w);
        eq_mat("orthogonal", &(m * m.transpose()), &Matrix3::identity());
        ensures_eq("proper", m.determinant(), 1.0);
        let mut axis = Vector3::zeros();
        axis[i] = real("len", 0.1, 10.0);
        let v = v3("v", 1e3);
        // rotating the vector by th is the transpose of rotating the axes
        eq_v3("rotation about an axis of any length", &rotv(&v, &axis, th), &(m.transpose() * v));
    }
    cover("rotations");
}
fn ut_rotv() {
    let (v, k, th) = (v3("v", 1e3), v3("k", 10.0), real("th", -10.0, 10.0));
    assume_lt(0.01, k.norm_squared());
    let w = rotv(&v, &k, th);
    ensures_eq("length kept", w.norm_squared(), v.norm_squared());
    ensures_eq("component along the axis kept", w.dot(&k), v.dot(&k));
    let u = k / k.norm();
    eq_v3("Rodrigues", &w, &(v * th.cos() + u.cross(&v) * th.sin() + u * (u.dot(&v) * (1.0 - th.cos()))));
    cover("rotv");
}
fn ut_proj() {
    let (a, b) = (v3("a", 1e3), v3("b", 1e3));
    let small = choose("small", 3);
    if small == 1 {
        assume_lt(0.1, a.amax());
        let z = Vector3::zeros();
        eq_v3("nothing along a null vector", &projv(&a, &z), &z);
        eq_v3("everything orthogonal to a null vector", &perpv(&a, &z), &a);
        eq_v3("null vector", &perpv(&z, &b), &z);
        eq_v3("unit of a null vector", &unitize(z), &z);
        return;
    }
    let least = if small == 2 { 1e-6 } else { 0.1 };
    assume_lt(least, b.amax());
    assume_lt(least, a.amax());
    let (p, q) = (projv(&a, &b), perpv(&a, &b));
    eq_v3("parallel", &p.cross(&b), &Vector3::zeros());
    ensures_eq("orthogonal", q.dot(&b), 0.0);
    eq_v3("decomposition", &(p + q), &a);
    let u = unitize(a);
    ensures_eq("unit", u.norm_squared(), 1.0);
    eq_v3("same direction", &(u * a.norm()), &a);
    cover("projections");
}
fn whole(x: f64) -> bool {
    (x - x.round()) == 0.0
}
fn ut_angles() {
    let a = real("a", -3000.0, 3000.0);
    let b = between_0_360(a);
    ensures_le("not negative", 0.0, b);
    ensures_lt("below a turn", b, 360.0);
    ensures("same angle", whole((a - b) / 360.0));
    let x = [180.0, 90.0, 360.0, 12.5][choose("x", 4)];
    let c = if x == 180.0 { between_pm_180(a) } else { between_pm_x(a, x) };
    ensures_le("lower bound", -x, c);
    ensures_le("upper bound", c, x);
    ensures("same angle modulo 2x", whole((a - c) / (2.0 * x)));
    cover("angles");
}
fn ut_scalars() {
    let (x, lo, w) = (real("x", -1e3, 1e3), real("lo", -1e3, 1e3), real("w", 0.1, 1e3));
    let n = normalize(x, lo, lo + w);
    ensures_eq("denormalize inverts normalize", denormalize(n, lo, lo + w), x);
    ensures_eq("lower end", normalize(lo, lo, lo + w), -1.0);
    ensures_eq("upper end", normalize(lo + w, lo, lo + w), 1.0);
    ensures_eq("delta of equal numbers", kronecker(x, x), 1.0);
    ensures_eq("delta of different numbers", kronecker(x, x + w), 0.0);
    let m: SMatrix<f64, 3, 3> = SMatrix::from_diagonal(&v3("d", 10.0));
    ensures("diagonal", is_diagonal(&m));
    let (i, j) = (choose("i", 3), choose("j", 3));
    if i != j {
        let mut m2 = m;
        m2[(i, j)] = if flag("neg") { -w } else { w };
        ensures("not diagonal", !is_diagonal(&m2));
    }
    cover("scalars");
}
fn ut_eig() {
    use nalgebra::{Complex, Vector3};
    let re = reals::<3>("re", -5.0, 5.0);
    let im = reals::<3>("im", -5.0, 5.0);
    let v = Vector3::new(Complex::new(re[0], im[0]), Complex::new(re[1], im[1]), Complex::new(re[2], im[2]));
    let stable = are_eigenvalues_stable(&v);
    ensures("stable exactly if no real part is positive", stable == (re[0] <= 0.0 && re[1] <= 0.0 && re[2] <= 0.0));
    cover(if stable { "stable" } else { "unstable" });
}
fn ut_rss() {
    let (a, b) = (sym_vec::<6>("a", 1e3), sym_vec::<6>("b", 1e3));
    let sq = |i: usize, n: usize| (i..i + n).map(|k| (a[k] - b[k]) * (a[k] - b[k])).sum::<f64>();
    let e = rss_errors(&a, &b);
    ensures_eq("rss squared", e * e, sq(0, 6));
    ensures_le("not negative", 0.0, e);
    let (p, v) = rss_orbit_vec_errors(&Vector6::from(a), &Vector6::from(b));
    let mk = |x: &nalgebra::SVector<f64, 6>| Orbit { radius_km: Vector3::new(x[0], x[1], x[2]), velocity_km_s: Vector3::new(x[3], x[4], x[5]), epoch: ep(0.0), frame: EARTH_J2000 };
    let (p2, v2) = rss_orbit_errors(&mk(&a), &mk(&b));
    for (l, p, v) in [("vectors", p, v), ("orbits", p2, v2)] {
        ensures_eq(&format!("position error of {l}"), p * p, sq(0, 3));
        ensures_eq(&format!("velocity error of {l}"), v * v, sq(3, 3));
        ensures_le("not negative", 0.0, p);
        ensures_le("not negative", 0.0, v);
    }
    cover("rss");
}
fn ut_sph() {
    let v = v3("v", 1e3);
    assume_lt(0.01, v.norm_squared());
    let (r, th, ph) = cartesian_to_spherical(&v);
    ensures_eq("range", r * r, v.norm_squared());
    ensures_le("not negative", 0.0, r);
    ensures_eq("azimuth in the xy plane", th.tan() * v.x, v.y);
    ensures_eq("polar angle", r * ph.cos(), v.z);
    let (rr, t2, p2) = (real("rho", 0.1, 1e3), real("th", -3.0, 3.0), real("ph", 0.0, 3.1));
    let c = spherical_to_cartesian(rr, t2, p2);
    ensures_eq("norm is the range", c.norm_squared(), rr * rr);
    ensures_eq("z", c.z, rr * p2.cos());
    ensures_eq("x", c.x, rr * p2.sin() * t2.cos());
    ensures_eq("y", c.y, rr * p2.sin() * t2.sin());
    cover("spherical");
}
fn ut_pinv() {
    use nyx_space::pseudo_inverse;
    let m = sym_mat::<2, 3>("m", 10.0);
    let g = m * m.transpose();
    assume_lt(0.01, g.determinant());
    let r: Result<SMatrix<f64, 3, 2>, nyx_space::md::TargetingError> = pseudo_inverse!(&m);
    eq_mat("right inverse of a wide matrix", &(m * r.unwrap()), &SMatrix::<f64, 2, 2>::identity());
    let n = m.transpose();
    let r: Result<SMatrix<f64, 2, 3>, nyx_space::md::TargetingError> = pseudo_inverse!(&n);
    eq_mat("left inverse of a tall matrix", &(r.unwrap() * n), &SMatrix::<f64, 2, 2>::identity());
    let mut z = m;
    z.set_row(1, &(m.row(0) * real("k", -3.0, 3.0)).clone_owned());
    let r: Result<SMatrix<f64, 3, 2>, nyx_space::md::TargetingError> = pseudo_inverse!(&z);
    ensures("singular is an error", r.is_err());
    cover("pinv");
}

pub fn list() -> Vec<Harness> {
    let h = |name, property, functions, f| Harness { name, property, functions, f, may_panic: false };
    let po: &[&str] = &["od::position::PositionDevice", "od::position::trk_device", "od::position::sensitivity"];
    let rp: &[&str] = &["dynamics::guidance::replay::ThrustDirectionReplay", "md::trajectory::sc_traj::to_thrust_direction_replay"];
    vec![
        h("pos_measure", "P30", po, pos_measure as fn()),
        h("pos_config", "P30", po, pos_config),
        h("pos_sensitivity", "P30", po, pos_sensitivity),
        h("replay", "P13", rp, replay),
        h("replay_empty", "P13", rp, replay_empty),
        h("conv_frame", "P31", &["md::trajectory::sc_traj::Traj::to_frame"], conv_frame),
        h("conv_ephem", "P31", &["md::trajectory::sc_traj::Traj::to_ephemeris"], conv_ephem),
        h("conv_bsp", "P31", &["md::trajectory::sc_traj::Traj::from_bsp"], conv_bsp),
        h("ut_cross", "P32", &["utils::tilde_matrix"], ut_cross),
        h("ut_rot", "P32", &["utils::r1", "utils::r2", "utils::r3", "utils::rotv"], ut_rot),
        h("ut_rotv", "P32", &["utils::rotv"], ut_rotv),
        h("ut_proj", "P32", &["utils::projv", "utils::perpv", "utils::unitize"], ut_proj),
        h("ut_angles", "P32", &["utils::between_0_360", "utils::between_pm_180", "utils::between_pm_x"], ut_angles),
        h("ut_scalars", "P32", &["utils::normalize", "utils::denormalize", "utils::kronecker", "utils::is_diagonal"], ut_scalars),
        h("ut_rss", "P32", &["utils::rss_errors", "utils::rss_orbit_errors", "utils::rss_orbit_vec_errors"], ut_rss),
        h("ut_sph", "P32", &["utils::cartesian_to_spherical", "utils::spherical_to_cartesian"], ut_sph),
        h("ut_eig", "P32", &["utils::are_eigenvalues_stable"], ut_eig),
        h("ut_pinv", "P32", &["utils::pseudo_inverse"], ut_pinv),
    ]
}
