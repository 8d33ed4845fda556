//! Files written by nyx reload to the same data (P33).
use crate::common::*;
use anise::almanac::Almanac;
use anise::constants::frames::{EARTH_J2000, MOON_J2000};
use anise::prelude::Orbit;
use hifitime::{Epoch, TimeScale, Unit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, Matrix3, SMatrix, Vector3};
use nvrt::*;
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::io::ExportCfg;
use nyx_space::md::prelude::OrbitalElement as El;
use nyx_space::md::trajectory::Traj;
use nyx_space::md::StateParameter as P;
use nyx_space::od::estimate::KfEstimate;
use nyx_space::od::estimate::Residual;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::msr::MeasurementType::*;
use nyx_space::od::msr::TrackingDataArc;
use nyx_space::od::prelude::ODSolution;
use nyx_space::od::GroundStation;
use nyx_space::Spacecraft;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use std::rc::Rc;

/// A file of its own in the temporary directory, removed at the end of the path.
pub struct Tmp(pub PathBuf);
impl Tmp {
    pub fn new(ext: &str) -> Self {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        Tmp(std::env::temp_dir().join(format!("nv_io_{}_{}.{ext}", std::process::id(), N.fetch_add(1, Ordering::SeqCst))))
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
/// concrete epochs of several time scales, some with nanoseconds
fn epoch(k: usize) -> Epoch {
    let base = Epoch::from_gregorian_utc_hms(2024, 2, 29, 23, 58, 0);
    let scale = [TimeScale::UTC, TimeScale::TAI, TimeScale::TDB, TimeScale::GPST][choose("time scale", 4)];
    (base + Unit::Second * (97 * k as i64) + Unit::Nanosecond * (123_456_789 * k as i64)).to_time_scale(scale)
}
// (files store microseconds)
fn same_epoch(l: &str, a: Epoch, b: Epoch) {
    ensures(&format!("{l} epoch"), (a - b).abs() <= Unit::Microsecond * 1);
}
fn cart() -> Vec<P> {
    vec![P::Element(El::X), P::Element(El::Y), P::Element(El::Z), P::Element(El::VX), P::Element(El::VY), P::Element(El::VZ), P::DryMass(), P::PropMass()]
}
fn guid() -> Vec<P> {
    vec![P::Isp(), P::GuidanceMode(), P::Thrust(), P::ThrustX(), P::ThrustY(), P::ThrustZ()]
}
fn eq_sc(l: &str, a: &Spacecraft, b: &Spacecraft) {
    same_epoch(l, a.orbit.epoch, b.orbit.epoch);
    eq_v3(&format!("{l} position"), &a.orbit.radius_km, &b.orbit.radius_km);
    eq_v3(&format!("{l} velocity"), &a.orbit.velocity_km_s, &b.orbit.velocity_km_s);
    ensures_eq(&format!("{l} dry mass"), a.mass.dry_mass_kg, b.mass.dry_mass_kg);
    ensures_eq(&format!("{l} prop mass"), a.mass.prop_mass_kg, b.mass.prop_mass_kg);
    ensures(&format!("{l} frame"), a.orbit.frame == b.orbit.frame);
}
/// trajectory to parquet and back
fn io_traj() {
    bounded("trajectories of 3 states at given epochs");
    let fr = if flag("moon") { MOON_J2000.with_mu_km3_s2(4902.8) } else { EARTH_J2000.with_mu_km3_s2(398600.4415) };
    let guided = flag("thruster");
    let es: Vec<Epoch> = { let e0 = epoch(1); (0..3).map(|k| e0 + Unit::Second * (60 * k as i64) + Unit::Nanosecond * (1_000_007 * k as i64)).collect() };
    let ss: Vec<Spacecraft> = (0..3)
        .map(|k| {
            let mut s = sym_sc(&format!("s{k}"), es[k], fr);
            if guided {
                s.thruster = Some(sym_thruster(&format!("s{k}")));
                if k != 1 {
                    s.mut_mode(GuidanceMode::Thrust);
                    s.mut_thrust_direction(Some(v3(&format!("u{k}"), 1.0)));
                } else {
                    s.mut_mode(GuidanceMode::Inhibit);
                }
            }
            s
        })
        .collect();
    let tr = Traj { name: Some("t".into()), states: ss.clone() };
    let t = Tmp::new("parquet");
    let span = choose("span", 3);
    let mut fields = cart();
    fields.extend(guid());
    let cfg = ExportCfg {
        fields: Some(fields),
        start_epoch: (span == 1).then(|| es[0] + Unit::Second * 30),
        end_epoch: (span == 1).then(|| es[2] - Unit::Second * 10),
        step: (span != 0).then(|| Unit::Second * 40),
        ..Default::default()
    };
    tr.to_parquet(&t.0, cfg).unwrap();
    let back = Traj::<Spacecraft>::from_parquet(&t.0).unwrap();
    if span == 0 {
        ensures("every state is reloaded", back.states.len() == 3);
        for (a, b) in back.states.iter().zip(&ss) {
            eq_sc("reloaded", a, b);
            ensures("guidance mode", a.mode() == b.mode());
            ensures("thrust direction present", a.thrust_direction().is_some() == b.thrust_direction().is_some());
            if let (Some(x), Some(y)) = (a.thrust_direction(), b.thrust_direction()) {
                eq_v3("thrust direction", &x, &y);
            }
            ensures("thruster present", a.thruster.is_some() == b.thruster.is_some());
            if let (Some(x), Some(y)) = (a.thruster, b.thruster) {
                ensures_eq("thrust", x.thrust_N, y.thrust_N);
                ensures_eq("isp", x.isp_s, y.isp_s);
            }
        }
        cover("reloaded");
    } else {
        let (t0, t1) = if span == 1 { (es[0] + Unit::Second * 30, es[2] - Unit::Second * 10) } else { (es[0], es[2]) };
        let mut want = vec![];
        let mut q = t0;
        while q <= t1 {
            want.push(q);
            q = q + Unit::Second * 40;
        }
        ensures("sampled over the span", back.states.len() == want.len());
        for (a, q) in back.states.iter().zip(want) {
            eq_sc("sampled", a, &tr.at(q).unwrap());
        }
        cover("sampled");
    }
}
const TY: [MeasurementType; 4] = [Range, Doppler, Azimuth, Elevation];
fn arc_of(sym: bool) -> TrackingDataArc {
    let e0 = epoch(1);
    let mut a = TrackingDataArc::default();
    // which of the types each measurement has (never none)
    let sets: [[usize; 3]; 4] = [[15, 15, 15], [1, 2, 3], [3, 4, 8], [12, 1, 6]];
    let s = sets[choose("available", 4)];
    // two trackers may measure at once
    let at = [[0, 1, 2], [0, 0, 2], [0, 2, 2]][if sym { 0 } else { choose("together", 3) }];
    for k in 0..3 {
        let mut m = Measurement::new(["DSS", "GS 2", "DSS"][k].into(), e0 + Unit::Second * (97 * at[k] as i64) + Unit::Nanosecond * (123_456_789 * at[k] as i64));
        for (j, ty) in TY.iter().enumerate() {
            if s[k] >> j & 1 == 1 {
                let v = if sym { real(&format!("m{k}{ty:?}"), -1e5, 1e5) } else { [7654.321098765, -3.0123456789, 123.25, 41.0625][j] * (1.0 + k as f64 * 0.37) };
                m.push(*ty, v);
            }
        }
        a.measurements.push(m);
    }
    a
}
/// tracking arcs to parquet and back
fn io_arc() {
    bounded("arcs of 3 measurements at given epochs");
    let a = arc_of(true);
    let t = Tmp::new("parquet");
    let span = choose("span", 5);
    let e = |k: usize| a.measurements[k].epoch;
    let s = Unit::Second * 1;
    let cfg = ExportCfg {
        start_epoch: match span { 1 => Some(e(1)), 2 => Some(e(0) + s), _ => None },
        end_epoch: match span { 2 => Some(e(2) - s), 3 => Some(e(1) + s), _ => None },
        step: (span == 4).then(|| Unit::Second * 10),
        ..Default::default()
    };
    let want: Vec<&Measurement> = match span {
        1 => vec![&a.measurements[1], &a.measurements[2]],
        2 => vec![&a.measurements[1]],
        3 => vec![&a.measurements[0], &a.measurements[1]],
        _ => a.measurements.iter().collect(),
    };
    a.to_parquet(&t.0, cfg).unwrap();
    let b = TrackingDataArc::from_parquet(&t.0).unwrap();
    ensures("every measurement of the span is reloaded", b.measurements.len() == want.len());
    for (x, y) in b.measurements.iter().zip(want) {
        same_epoch("reloaded", x.epoch, y.epoch);
        ensures("tracker", x.tracker == y.tracker && !x.rejected);
        ensures("exactly the measured types", x.data.len() == y.data.len());
        for (ty, v) in &y.data {
            ensures_eq(&format!("{ty:?}"), *x.data.get(ty).unwrap(), *v);
        }
    }
    cover("reloaded");
    let none = TrackingDataArc::default();
    ensures("an empty arc is an error", none.to_parquet(&t.0, ExportCfg::default()).is_err());
}
/// tracking arcs to CCSDS TDM and back
fn io_tdm() {
    bounded("arcs of 3 measurements with given values (text format)");
    let mut a = arc_of(false);
    let modulus = flag("modulus");
    if modulus {
        a.set_moduli(Range, 1234.5);
    }
    let t = Tmp::new("tdm");
    let alias = flag("alias");
    let al: HashMap<String, String> = [("DSS".to_string(), "DSS-65 Madrid".to_string())].into();
    let inv: HashMap<String, String> = [("DSS-65 Madrid".to_string(), "DSS".to_string())].into();
    let span = choose("span", 3);
    let (e1, e2) = (a.measurements[1].epoch, a.measurements[2].epoch);
    let s = Unit::Second * 1;
    let cfg = ExportCfg { start_epoch: (span == 1).then_some(e1), end_epoch: (span == 2 && a.measurements[0].epoch < e2).then(|| e2 - s), ..Default::default() };
    let p = a.clone().to_tdm_file("SC".into(), alias.then(|| al.clone()), &t.0, cfg).unwrap();
    ensures("written where asked", p == t.0);
    let b = TrackingDataArc::from_tdm(&t.0, alias.then_some(inv)).unwrap();
    let flat = |x: &[Measurement]| -> Vec<(Epoch, String, MeasurementType, f64)> { x.iter().flat_map(|m| m.data.iter().map(|(t, v)| (m.epoch, m.tracker.clone(), *t, *v)).collect::<Vec<_>>()).collect() };
    let want = flat(&a.measurements.iter().filter(|m| (span != 1 || m.epoch >= e1) && (span != 2 || m.epoch < e2)).cloned().collect::<Vec<_>>());
    let got = flat(&b.measurements);
    ensures("every measured value is reloaded, once", got.len() == want.len());
    for w in &want {
        let n = got.iter().filter(|g| (g.0 - w.0).abs() <= Unit::Nanosecond * 2 && g.1 == w.1 && g.2 == w.2 && (g.3 - w.3).abs() < 1e-11).count();
        ensures(&format!("{:?} reloaded", w.2), n == 1);
    }
    for x in b.measurements.windows(2) {
        ensures("chronological", x[0].epoch <= x[1].epoch);
    }
    let has_range = want.iter().any(|w| w.2 == Range);
    ensures("range modulus", b.moduli.as_ref().and_then(|m| m.get(&Range)).copied() == (modulus && has_range).then_some(1234.5));
    cover("reloaded");
}
/// text TDM: one and two way paths, time systems, corrections, frequencies to Doppler
fn io_tdm_text() {
    bounded("given files (text format)");
    let ts = ["UTC", "TAI", "TDB", "GPS"][choose("time system", 4)];
    let two = flag("two_way");
    let corr = choose("corrections", 3);
    let t = Tmp::new("tdm");
    let div = if two { 2.0 } else { 1.0 };
    let freq = choose("freq", 5);
    let (f0, rate, ratio) = (7.15e9, 3.0, 880.0 / 749.0);
    let fr = |dt: f64, shift: f64| (f0 + rate * dt) * ratio - shift;
    let mut txt = String::from("CCSDS_TDM_VERS = 2.0\nMETA_START\n");
    txt += &format!("TIME_SYSTEM = {ts}\nPARTICIPANT_1 = DSS-14\nPARTICIPANT_2 = SC\nMODE = SEQUENTIAL\nPATH = {}\n", if two { "1,2,1" } else { "1,2" });
    if freq != 1 {
        txt += "TURNAROUND_NUMERATOR = 880\nTURNAROUND_DENOMINATOR = 749\n";
    }
    txt += "CORRECTION_RANGE = 0.5\nCORRECTION_ANGLE_1 = -1.25\n";
    txt += ["", "CORRECTIONS_APPLIED = YES\n", "CORRECTIONS_APPLIED = NO\n"][corr];
    txt += "RANGE_MODULUS = 0.0\nMETA_STOP\nDATA_START\n";
    let l = |k: &str, s: &str, v: f64| format!("{k} = 2024-03-01T00:00:{s} {v:.9}\n");
    txt += &l("RANGE", "00.25", 1500.5);
    txt += &l("ANGLE_1", "00.25", 200.125);
    txt += &l("ANGLE_2", "00.25", 33.5);
    txt += &l("DOPPLER_INSTANTANEOUS", "10", -2.5);
    if freq != 0 {
        if freq != 2 {
            txt += &l("TRANSMIT_FREQ_1", "20", f0);
        }
        txt += &l("TRANSMIT_FREQ_RATE_1", "20", rate);
        txt += &l("RECEIVE_FREQ_2", "20", fr(0.0, 5e4));
        if freq == 4 {
            // the ramp changes
            txt += &l("TRANSMIT_FREQ_RATE_1", "24", -200.0);
            txt += &l("RECEIVE_FREQ_2", "30", (f0 + rate * 4.0 - 200.0 * 6.0) * ratio + 7e4);
            txt += &l("TRANSMIT_FREQ_1", "36", f0 * 1.01);
            txt += &l("RECEIVE_FREQ_2", "40", (f0 * 1.01 - 200.0 * 4.0) * ratio - 3e4);
        } else {
            txt += &l("RECEIVE_FREQ_2", "30", fr(10.0, -7e4));
        }
    }
    txt += "DATA_STOP\n";
    std::fs::write(&t.0, &txt).unwrap();
    let b = TrackingDataArc::from_tdm(&t.0, None).unwrap();
    let at = |s: &str| Epoch::from_gregorian_str(&format!("2024-03-01T00:00:{s} {ts}")).unwrap();
    let get = |e: Epoch, ty: MeasurementType| -> Vec<f64> { b.measurements.iter().filter(|m| m.epoch == e && m.tracker == "DSS-14").filter_map(|m| m.data.get(&ty).copied()).collect() };
    let one = |l: &str, e: &str, ty: MeasurementType, v: f64, tol: f64| {
        let g = get(at(e), ty);
        ensures(l, g.len() == 1 && (g[0] - v).abs() <= tol);
    };
    one("round trip range is halved, corrected unless it was", "00.25", Range, 1500.5 / div + if corr == 2 { 0.5 } else { 0.0 }, 1e-9);
    one("azimuth is that of the file", "00.25", Azimuth, 200.125 - if corr == 2 { 1.25 } else { 0.0 }, 1e-9);
    one("elevation is that of the file", "00.25", Elevation, 33.5, 1e-9);
    one("Doppler of the path", "10", Doppler, -2.5 / div, 1e-9);
    let n = b.measurements.iter().map(|m| m.data.len()).sum::<usize>();
    let doppler = |dt: f64, shift: f64| shift * 299_792.458 / (2.0 * (f0 + rate * dt) * ratio);
    if freq == 3 {
        one("range rate of the received frequency", "20", Doppler, doppler(0.0, 5e4), 1e-7);
        one("range rate with the ramped frequency", "30", Doppler, doppler(10.0, -7e4), 1e-7);
        ensures("nothing else", n == 6);
        cover("frequencies");
    } else if freq == 4 {
        let shift = |f: f64, s: f64| s * 299_792.458 / (2.0 * f * ratio);
        one("range rate of the received frequency", "20", Doppler, doppler(0.0, 5e4), 1e-7);
        one("range rate after a change of the ramp", "30", Doppler, shift(f0 + rate * 4.0 - 1200.0, -7e4), 1e-7);
        one("range rate after a change of the frequency", "40", Doppler, shift(f0 * 1.01 - 800.0, 3e4), 1e-7);
        ensures("nothing else", n == 7);
    } else {
        ensures("frequencies that cannot be converted are dropped", n == 4);
    }
    ensures("no modulus of zero", b.moduli.is_none());
    cover("parsed");
}
/// CCSDS OEM and back
fn io_oem() {
    bounded("trajectories of 4 states with given values (text format)");
    let fr = EARTH_J2000;
    let e0 = epoch(2);
    let ss: Vec<Spacecraft> = (0..4)
        .map(|k| {
            let f = k as f64;
            let e = e0 + Unit::Second * (60 * k as i64);
            Spacecraft::from(Orbit { radius_km: Vector3::new(7000.5 - f, 12.25 + 400.0 * f, -3.125 * f), velocity_km_s: Vector3::new(-0.5 * f, 7.5, 0.0625 + f), epoch: e, frame: fr })
        })
        .collect();
    let tr = Traj { name: None, states: ss.clone() };
    let t = Tmp::new("oem");
    tr.to_oem_file(&t.0, "2024-001A".into(), Some("nv".into()), None, ExportCfg::default()).unwrap();
    let mut tpl = Spacecraft::default();
    tpl.mass.dry_mass_kg = 321.5;
    let tplo = flag("template");
    let b = Traj::<Spacecraft>::from_oem_file(&t.0, tplo.then_some(tpl)).unwrap();
    ensures("every state is reloaded, with the object as name", b.states.len() == 4 && b.name.as_deref() == Some("2024-001A"));
    for (x, y) in b.states.iter().zip(&ss) {
        ensures("epoch", (x.orbit.epoch - y.orbit.epoch).abs() <= Unit::Microsecond * 1);
        ensures("position", (x.orbit.radius_km - y.orbit.radius_km).norm() < 1e-5);
        ensures("velocity", (x.orbit.velocity_km_s - y.orbit.velocity_km_s).norm() < 1e-8);
        ensures("template", x.mass.dry_mass_kg == if tplo { 321.5 } else { 0.0 });
    }
    cover("reloaded");
}
type Sol = ODSolution<Spacecraft, KfEstimate<Spacecraft>, Const<2>, GroundStation>;
/// OD solution to parquet and back
fn io_od() {
    bounded("solutions of 3 estimates at given epochs");
    let fr = EARTH_J2000.with_mu_km3_s2(398600.4415);
    let e0 = epoch(1);
    let order: IndexSet<MeasurementType> = if flag("swap") { [Doppler, Range].into_iter().collect() } else { [Range, Doppler].into_iter().collect() };
    let mut sol: Sol = ODSolution::new(BTreeMap::new(), order.clone());
    let smoothed = flag("smoothed");
    let missing = flag("missing");
    anise::nvhook::install(move |k| {
        k.at_epoch = Some(Rc::new(move |mut o, e| {
            // the orbital plane is that of y and z: it turns about x
            let s = if e > o.epoch { 0.6 } else { -0.6 };
            let rot = Matrix3::new(1.0, 0.0, 0.0, 0.0, 0.8, -s, 0.0, s, 0.8);
            o.epoch = e;
            o.radius_km = rot * o.radius_km;
            o.velocity_km_s = rot * o.velocity_km_s;
            Some(o)
        }));
    });
    for k in 0..3 {
        let mut s = sym_sc(&format!("s{k}"), e0 + Unit::Second * (60 * k as i64), fr);
        s.mass.extra_mass_kg = 0.0;
        (s.srp.area_m2, s.drag.area_m2) = (4.25, 2.125);
        // keeps the frame of the orbit well defined
        s.orbit.radius_km = Vector3::new(0.0, real(&format!("x{k}"), 6.5e3, 1e5), 0.0);
        s.orbit.velocity_km_s = Vector3::new(0.0, 0.0, real(&format!("vz{k}"), 0.1, 10.0));
        let c = sym_mat::<9, 9>(&format!("P{k}"), 1.0);
        let mut c = c + c.transpose();
        for i in 0..9 {
            c[(i, i)] = real(&format!("var{k}{i}"), 0.01, 2.0);
        }
        let est = KfEstimate { nominal_state: s, state_deviation: nalgebra::SVector::zeros(), covar: c, covar_bar: c, predicted: k == 1, stm: SMatrix::identity() };
        if k == 1 {
            sol.estimates.push(est);
            sol.residuals.push(None);
            sol.gains.push(None);
            sol.filter_smoother_ratios.push(smoothed.then(|| sym_vec::<9>("fsr", 3.0)));
        } else {
            let v = |n: &str| sym_vec::<2>(&format!("{n}{k}"), 10.0);
            let mut r = Residual::<Const<2>> {
                epoch: s.orbit.epoch,
                prefit: v("pre"),
                postfit: v("post"),
                whitened_resid: v("white"),
                ratio: real(&format!("ratio{k}"), 0.0, 3.0),
                tracker_msr_noise: v("noise"),
                rejected: k == 2,
                tracker: Some(["DSS", "GS"][k / 2].into()),
                msr_types: order.clone(),
                real_obs: v("real"),
                computed_obs: v("comp"),
            };
            if missing && k == 2 {
                // only the second type was measured
                r.msr_types = [order[1]].into_iter().collect();
            }
            let g = if k == 2 { None } else { Some(sym_mat::<9, 2>("K", 1.0)) };
            sol.estimates.push(est);
            sol.residuals.push(Some(r));
            sol.gains.push(g);
            sol.filter_smoother_ratios.push(None);
        }
    }
    let part = choose("span", 3);
    let e = |k: usize| sol.estimates[k].nominal_state.orbit.epoch;
    let mut fields = cart();
    fields.extend([P::Cr(), P::Cd()]);
    let cfg = ExportCfg { fields: Some(fields), start_epoch: (part == 1).then(|| e(1)), end_epoch: (part == 2).then(|| e(1)), ..Default::default() };
    let t = Tmp::new("parquet");
    sol.to_parquet(&t.0, cfg).unwrap();
    let back = Sol::from_parquet(&t.0, BTreeMap::new()).unwrap();
    let ks = match part { 1 => 1..3, 2 => 0..2, _ => 0..3 };
    ensures("every estimate of the span", back.estimates.len() == ks.len() && back.residuals.len() == ks.len() && back.gains.len() == ks.len() && back.filter_smoother_ratios.len() == ks.len());
    ensures("measurement types", back.measurement_types == order);
    for (i, k) in ks.enumerate() {
        let (a, b) = (&back.estimates[i], &sol.estimates[k]);
        eq_sc("estimate", &a.nominal_state, &b.nominal_state);
        ensures_eq("Cr", a.nominal_state.srp.coeff_reflectivity, b.nominal_state.srp.coeff_reflectivity);
        ensures_eq("Cd", a.nominal_state.drag.coeff_drag, b.nominal_state.drag.coeff_drag);
        ensures("areas", a.nominal_state.srp.area_m2 == 4.25 && a.nominal_state.drag.area_m2 == 2.125);
        eq_mat("covariance", &a.covar, &b.covar);
        ensures("gain presence", back.gains[i].is_some() == sol.gains[k].is_some());
        if let (Some(x), Some(y)) = (&back.gains[i], &sol.gains[k]) {
            eq_mat("gain", x, y);
        }
        ensures("smoother ratio presence", back.filter_smoother_ratios[i].is_some() == sol.filter_smoother_ratios[k].is_some());
        if let (Some(x), Some(y)) = (&back.filter_smoother_ratios[i], &sol.filter_smoother_ratios[k]) {
            eq_mat("smoother ratio", x, y);
        }
        ensures("measurement update", back.residuals[i].is_some() == sol.residuals[k].is_some());
        if let (Some(x), Some(y)) = (&back.residuals[i], &sol.residuals[k]) {
            ensures("rejection, tracker, types", x.rejected == y.rejected && x.tracker == y.tracker && x.msr_types == y.msr_types);
            same_epoch("residual", x.epoch, y.epoch);
            ensures_eq("ratio", x.ratio, y.ratio);
            for ty in &y.msr_types {
                for (l, p, q) in [("prefit", x.prefit(*ty), y.prefit(*ty)), ("postfit", x.postfit(*ty), y.postfit(*ty)), ("noise", x.trk_noise(*ty), y.trk_noise(*ty)), ("real", x.real_obs(*ty), y.real_obs(*ty)), ("computed", x.computed_obs(*ty), y.computed_obs(*ty))] {
                    ensures_eq(l, p.unwrap(), q.unwrap());
                }
            }
            eq_mat("whitened", &x.whitened_resid, &y.whitened_resid);
        }
    }
    cover("reloaded");
    // uncertainties in the file: inertial, and in the RIC frame of the estimate (r = y, c = r x v = x, i = c x r = z)
    let rows = read_cols(&t.0, &["Sigma X (RIC) (km)", "Sigma Y (RIC) (km)", "Sigma Z (RIC) (km)", "Sigma Vx (RIC) (km/s)", "Sigma Vy (RIC) (km/s)", "Sigma Vz (RIC) (km/s)"]);
    // inertial to RIC: rows y, z, x; and its time derivative (centred difference of the turn above)
    let m = Matrix3::new(0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.0, 0.0);
    let dm = Matrix3::new(0.0, 0.0, 1.2, 0.0, -1.2, 0.0, 0.0, 0.0, 0.0) * 500.0;
    let mut d = SMatrix::<f64, 6, 6>::zeros();
    d.fixed_view_mut::<3, 3>(0, 0).copy_from(&m);
    d.fixed_view_mut::<3, 3>(3, 0).copy_from(&dm);
    d.fixed_view_mut::<3, 3>(3, 3).copy_from(&m);
    let ks = match part { 1 => 1..3, 2 => 0..2, _ => 0..3 };
    for (i, k) in ks.enumerate() {
        let c = d * sol.estimates[k].covar.fixed_view::<6, 6>(0, 0) * d.transpose();
        for j in 0..6 {
            // velocities: the covariance is arbitrary, its quadratic forms may be negative
            if j < 3 || c[(j, j)] >= 0.0 {
                ensures_eq(&format!("RIC sigma {j}"), rows[j][i] * rows[j][i], c[(j, j)]);
            }
        }
    }
}
fn read_cols(p: &PathBuf, names: &[&str]) -> Vec<Vec<f64>> {
    use arrow::array::{Array, Float64Array};
    let r = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(p).unwrap()).unwrap().build().unwrap();
    let mut out = vec![vec![]; names.len()];
    for b in r {
        let b = b.unwrap();
        for (i, n) in names.iter().enumerate() {
            let c = b.column_by_name(n).unwrap_or_else(|| panic!("no column {n}")).as_any().downcast_ref::<Float64Array>().unwrap().clone();
            out[i].extend((0..c.len()).map(|k| c.value(k)));
        }
    }
    out
}

/// more records than a reader returns at once
fn io_big() {
    bounded("2500 measurements, states and estimates (given values)");
    let e0 = Epoch::from_gregorian_utc_hms(2024, 2, 29, 20, 0, 0);
    let at = |k: usize| e0 + Unit::Second * (7 * k as i64);
    let t = Tmp::new("parquet");
    let n = 2500;
    let f = |k: usize, j: usize| ((k * 37 + j * 11) % 1013) as f64 * 0.5 + k as f64;
    match choose("file", 3) {
        0 => {
            let mut a = TrackingDataArc::default();
            for k in 0..n {
                let mut m = Measurement::new(["A", "B"][k % 2].into(), at(k));
                m.push(Range, f(k, 0));
                if k % 3 != 0 {
                    m.push(Doppler, f(k, 1));
                }
                a.measurements.push(m);
            }
            a.to_parquet(&t.0, ExportCfg::default()).unwrap();
            let b = TrackingDataArc::from_parquet(&t.0).unwrap();
            ensures("every measurement of a long arc", b.measurements.len() == n);
            ensures("reloaded in order", b.measurements.iter().zip(&a.measurements).all(|(x, y)| x.tracker == y.tracker && x.epoch == y.epoch && x.data == y.data));
            let p = a.clone().to_tdm_file("SC".into(), None, &t.0, ExportCfg::default()).unwrap();
            let c = TrackingDataArc::from_tdm(p, None).unwrap();
            let flat = |a: &TrackingDataArc| -> Vec<(Epoch, String, MeasurementType, f64)> {
                let mut v: Vec<_> = a.measurements.iter().flat_map(|m| m.data.iter().map(|(t, v)| (m.epoch, m.tracker.clone(), *t, *v)).collect::<Vec<_>>()).collect();
                v.sort_by(|a, b| (a.0, &a.1, format!("{:?}", a.2)).cmp(&(b.0, &b.1, format!("{:?}", b.2))));
                v
            };
            let (x, y) = (flat(&a), flat(&c));
            ensures("every value of a long TDM", x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.0 == q.0 && p.1 == q.1 && p.2 == q.2 && (p.3 - q.3).abs() < 1e-9));
            cover("arc");
        }
        1 => {
            let fr = EARTH_J2000.with_mu_km3_s2(398600.4415);
            let states: Vec<Spacecraft> = (0..n)
                .map(|k| {
                    let mut s = Spacecraft::from(Orbit { radius_km: Vector3::new(7000.0 + f(k, 0), f(k, 1), f(k, 2)), velocity_km_s: Vector3::new(f(k, 3) * 1e-3, 7.5, f(k, 4) * 1e-3), epoch: at(k), frame: fr });
                    s.mass.dry_mass_kg = 100.0;
                    s.mass.prop_mass_kg = 5000.0 - k as f64;
                    s
                })
                .collect();
            let tr = Traj { name: None, states };
            let mut fields = cart();
            fields.extend(guid());
            tr.to_parquet(&t.0, ExportCfg { fields: Some(fields), ..Default::default() }).unwrap();
            let b = Traj::<Spacecraft>::from_parquet(&t.0).unwrap();
            ensures("every state of a long trajectory", b.states.len() == n);
            ensures(
                "reloaded in order",
                b.states.iter().zip(&tr.states).all(|(x, y)| x.orbit.radius_km == y.orbit.radius_km && x.orbit.velocity_km_s == y.orbit.velocity_km_s && x.orbit.epoch == y.orbit.epoch && x.mass.prop_mass_kg == y.mass.prop_mass_kg),
            );
            cover("trajectory");
        }
        _ => {
            let fr = EARTH_J2000.with_mu_km3_s2(398600.4415);
            anise::nvhook::install(move |k| {
                k.at_epoch = Some(Rc::new(move |mut o, e| {
                    o.epoch = e;
                    Some(o)
                }));
            });
            let order: IndexSet<MeasurementType> = [Range, Doppler].into_iter().collect();
            let mut sol: Sol = ODSolution::new(BTreeMap::new(), order.clone());
            for k in 0..n {
                let mut s = Spacecraft::from(Orbit { radius_km: Vector3::new(7000.0 + f(k, 0), f(k, 1), f(k, 2)), velocity_km_s: Vector3::new(f(k, 3) * 1e-3, 7.5, f(k, 4) * 1e-3), epoch: at(k), frame: fr });
                s.mass.dry_mass_kg = 100.0;
                let mut c = SMatrix::<f64, 9, 9>::identity();
                c[(0, 0)] = 1.0 + f(k, 5);
                sol.estimates.push(KfEstimate { nominal_state: s, state_deviation: nalgebra::SVector::zeros(), covar: c, covar_bar: c, predicted: false, stm: SMatrix::identity() });
                let v = |j: usize| nalgebra::Vector2::new(f(k, j), -f(k, j + 1));
                sol.residuals.push((k % 5 != 0).then(|| Residual::<Const<2>> {
                    epoch: at(k),
                    prefit: v(6),
                    postfit: v(7),
                    whitened_resid: v(8),
                    ratio: f(k, 9),
                    tracker_msr_noise: v(10),
                    rejected: k % 7 == 0,
                    tracker: Some(["DSS", "GS"][k % 2].into()),
                    msr_types: order.clone(),
                    real_obs: v(11),
                    computed_obs: v(12),
                }));
                sol.gains.push(None);
                sol.filter_smoother_ratios.push(None);
            }
            let mut fields = cart();
            fields.extend([P::Cr(), P::Cd()]);
            sol.to_parquet(&t.0, ExportCfg { fields: Some(fields), ..Default::default() }).unwrap();
            let b = Sol::from_parquet(&t.0, BTreeMap::new()).unwrap();
            ensures("every estimate of a long solution", b.estimates.len() == n && b.residuals.len() == n && b.gains.len() == n && b.filter_smoother_ratios.len() == n);
            ensures("reloaded in order", b.estimates.iter().zip(&sol.estimates).all(|(x, y)| x.nominal_state.orbit.radius_km == y.nominal_state.orbit.radius_km && x.nominal_state.orbit.epoch == y.nominal_state.orbit.epoch && x.covar == y.covar));
            ensures(
                "residuals reloaded in order",
                b.residuals.iter().zip(&sol.residuals).all(|(x, y)| match (x, y) {
                    (None, None) => true,
                    (Some(x), Some(y)) => x.prefit == y.prefit && x.postfit == y.postfit && x.rejected == y.rejected && x.tracker == y.tracker && x.ratio == y.ratio,
                    _ => false,
                }),
            );
            cover("solution");
        }
    }
}
pub fn list() -> Vec<Harness> {
    let h = |name, functions, f| Harness { name, property: "P33", functions, f, may_panic: false };
    vec![
        h("io_traj", &["md::trajectory::Traj::to_parquet", "md::trajectory::sc_traj::Traj::from_parquet"], io_traj as fn()),
        h("io_arc", &["od::msr::trackingdata::io_parquet::to_parquet", "od::msr::trackingdata::io_parquet::from_parquet"], io_arc),
        h("io_tdm", &["od::msr::trackingdata::io_ccsds_tdm::to_tdm_file", "od::msr::trackingdata::io_ccsds_tdm::from_tdm"], io_tdm),
        h("io_tdm_text", &["od::msr::trackingdata::io_ccsds_tdm::from_tdm"], io_tdm_text),
        h("io_oem", &["md::trajectory::sc_traj::Traj::to_oem_file", "md::trajectory::sc_traj::Traj::from_oem_file"], io_oem),
        h("io_od", &["od::process::solution::export::to_parquet", "od::process::solution::import::from_parquet"], io_od),
        h("io_big", &["od::msr::trackingdata::io_parquet::from_parquet", "md::trajectory::sc_traj::Traj::from_parquet", "od::process::solution::import::from_parquet"], io_big),
    ]
}
