//! Noise models (P34) and configurations (P35).
use crate::common::*;
use anise::astro::{Location, TerrainMask};
use anise::constants::frames::{EARTH_ITRF93, EARTH_J2000, IAU_MOON_FRAME, MOON_J2000};
use anise::ephemerides::ephemeris::LocalFrame;
use anise::prelude::Orbit;
use der::{Decode, Encode};
use hifitime::{Duration, Epoch, TimeScale, Unit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::Vector3;
use nvrt::*;
use nyx_space::cosmic::{DragData, GuidanceMode, Mass, SRPData, Spacecraft};
use nyx_space::dynamics::guidance::mnvr::ImpulsiveManeuver;
use nyx_space::dynamics::guidance::{Maneuver, ObjectiveEfficiency, ObjectiveWeight, Thruster};
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{AtmDensity, Drag, PointMasses};
use nyx_space::io::{ConfigRepr, ExportCfg};
use nyx_space::md::prelude::{Objective, OrbitalElement};
use nyx_space::md::StateParameter;
use nyx_space::od::msr::MeasurementType::{self, *};
use nyx_space::od::noise::link_specific::{CarrierFreq, ChipRate, CN0, SN0};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, Stochastics, WhiteNoise};
use nyx_space::od::prelude::SigmaRejection;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrkConfig};
use nyx_space::od::GroundStation;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions};
use nyx_space::mc::RngExt;
use rand_distr::StandardNormal;
use rand_pcg::Pcg64Mcg;

const C: f64 = 299792.458;
const TAU: f64 = std::f64::consts::TAU;

// ---------------------------------------------------------------- P34
/// three realizations of a Gauss-Markov bias
fn ns_gm() {
    let q = real("q", 0.0, 10.0);
    let tau = real("tau", 1.0, 1e5);
    let t0 = real("t0", -1e6, 1e6);
    let (d1, d2) = (real("d1", 0.0, 1e4), real("d2", 0.0, 1e4));
    let c = if flag("constant") { Some(real("c", -5.0, 5.0)) } else { None };
    let mut g = GaussMarkov::new(dur(tau), q).unwrap();
    ensures_eq("time constant", g.tau.to_seconds(), tau);
    ensures_eq("process noise", g.process_noise, q);
    ensures("no constant, no previous sample", g.constant.is_none() && g.prev_epoch.is_none() && g.init_sample.is_none());
    g.constant = c;
    let (mut r, mut z) = (Pcg64Mcg::new(3), Pcg64Mcg::new(3));
    let mut draw = || -> f64 { z.sample(StandardNormal) };
    let e = ep(t0);
    let off = c.unwrap_or(0.0);
    let z0 = draw();
    let _ = draw();
    cover("gm");
    ensures_eq("variance", g.covariance(e), q * q);
    ensures_eq("the first realization is a draw of the noise", g.sample(e, &mut r), q * z0 + off);
    let z1 = draw();
    let k1 = (-d1 / tau).exp();
    ensures_eq("then it decays toward the steady state", g.sample(e + dur(d1), &mut r), q * z0 * k1 + 0.5 * q * tau * (1.0 - k1) * z1 + off);
    let z2 = draw();
    let k2 = (-d2 / tau).exp();
    ensures_eq("decay since the previous sample", g.sample(e + dur(d1) + dur(d2), &mut r), q * z0 * k2 + 0.5 * q * tau * (1.0 - k2) * z2 + off);
    ensures_eq("variance after samples", g.covariance(e), q * q);
    let k = real("k", 0.0, 10.0);
    let mut h = g * k;
    ensures_eq("scaled noise", h.process_noise, q * k);
    ensures_eq("same time constant", h.tau.to_seconds(), tau);
    let mut r2 = Pcg64Mcg::new(9);
    let mut z3 = Pcg64Mcg::new(9);
    let w: f64 = z3.sample(StandardNormal);
    ensures_eq("a scaled process starts anew", h.sample(e, &mut r2), q * k * w);
    let mut m = g;
    m *= k;
    ensures_eq("scaled in place", m.process_noise, q * k);
    ensures("a time constant must be positive", GaussMarkov::new(dur(-tau), q).is_err());
}
/// noise from hardware characteristics
fn ns_hardware() {
    let (ad, ti) = (real("ad", 1e-15, 1e-9), real("ti", 0.1, 1e4));
    let (f, db) = (real("f", 1e3, 4e10), real("db", 10.0, 90.0));
    let hz = 10.0_f64.powf(db / 10.0);
    cover("hardware");
    let r = StochasticNoise::from_hardware_range_km(ad, dur(ti), ChipRate::ManualHz(f), SN0::ManualDbHz(db));
    ensures("white noise only", r.bias.is_none());
    let w = r.white_noise.unwrap();
    ensures_eq("zero mean", w.mean, 0.0);
    ensures_le("positive", 0.0, w.sigma);
    let clock = C * ad * ti;
    let th = C / (TAU * f);
    ensures_eq("range variance: clock and thermal", w.sigma * w.sigma, clock * clock / 3.0 + th * th / (2.0 * hz));
    let d = StochasticNoise::from_hardware_doppler_km_s(ad, dur(ti), CarrierFreq::ManualHz(f), CN0::ManualDbHz(db));
    ensures("white noise only", d.bias.is_none());
    let w = d.white_noise.unwrap();
    ensures_eq("zero mean", w.mean, 0.0);
    ensures_eq("Doppler variance: clock and thermal", w.sigma * w.sigma, C * ad * C * ad + th * th / (2.0 * hz * ti));
}
/// defaults
fn ns_defaults() {
    bounded("the presets");
    let k = choose("kind", 3);
    let (n, s) = [
        (StochasticNoise::default_range_km(), 2e-3),
        (StochasticNoise::default_doppler_km_s(), 3e-6),
        (StochasticNoise::default_angle_deg(), 1e-2),
    ][k];
    let w = n.white_noise.unwrap();
    ensures("default noise", w.sigma == s && w.mean == 0.0 && n.bias.is_none());
    ensures("minimum noise", StochasticNoise::MIN == StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma: 1e-6 }), bias: None });
    ensures("no noise", StochasticNoise::ZERO == StochasticNoise::default());
    let g = GaussMarkov::default_range_km();
    ensures("DSN range bias: 60 cm over a minute", g.tau == Unit::Minute * 1 && (g.process_noise - 6e-4).abs() < 1e-12);
    let g = GaussMarkov::default_doppler_km_s();
    ensures("DSN Doppler bias: 0.03 mm/s over a minute", g.tau == Unit::Minute * 1 && (g.process_noise - 3e-8).abs() < 1e-15);
    cover("defaults");
}
/// the simulation of a noise: 24 h by minute without the second quarter of the day
fn ns_simulate() {
    bounded("2 runs, a mean and a constant bias");
    let t = Tmp::new("parquet");
    let (mean, c) = (1.25, -0.5);
    let wn = flag("white noise");
    let bias = flag("bias");
    let mut g = GaussMarkov::ZERO;
    g.constant = Some(c);
    let n = StochasticNoise {
        white_noise: if wn { Some(WhiteNoise { mean, sigma: 0.0 }) } else { None },
        bias: if bias { Some(g) } else { None },
    };
    let s = n.simulate(&t.0, Some(2), None).unwrap();
    cover("simulated");
    let mut want = vec![];
    for run in 0..2u32 {
        for m in 0..=1440 {
            if m <= 360 || m >= 720 {
                want.push((run, 60.0 * m as f64));
            }
        }
    }
    ensures("one sample per minute and run outside of the gap", s.len() == want.len());
    let v = (if wn { mean } else { 0.0 }) + if bias { c } else { 0.0 };
    for (x, (run, dt)) in s.iter().zip(&want) {
        ensures("run and time of the sample", x.run == *run && (x.dt_s - dt).abs() < 1e-6);
        ensures("value of the sample", (x.sample - v).abs() < 1e-12 && x.variance == 0.0);
    }
    ensures("written", t.0.exists());
}

// ---------------------------------------------------------------- P35
use crate::h_io::Tmp;
fn epoch(k: i64) -> Epoch {
    let scale = [TimeScale::UTC, TimeScale::TAI, TimeScale::TDB, TimeScale::GPST, TimeScale::ET][(k / 7 % 5) as usize];
    (Epoch::from_gregorian_utc_hms(2023, 11, 5, 3, 1, 0) + Unit::Second * (131 * k) + Unit::Nanosecond * (100_000_007 * k)).to_time_scale(scale)
}
fn noise(k: usize) -> StochasticNoise {
    let mut g = GaussMarkov::new(Unit::Hour * 12 + Unit::Nanosecond * (159 + k as i64), 5.0e-3 + k as f64).unwrap();
    if k % 2 == 1 {
        g.constant = Some(-0.125 * k as f64);
    }
    let w = WhiteNoise { mean: 0.1 * k as f64 - 0.3, sigma: 1.7e-5 * (k + 1) as f64 };
    match k % 4 {
        0 => StochasticNoise { white_noise: Some(w), bias: Some(g) },
        1 => StochasticNoise { white_noise: None, bias: Some(g) },
        2 => StochasticNoise { white_noise: Some(w), bias: None },
        _ => StochasticNoise { white_noise: None, bias: None },
    }
}
/// exactly the announced number of bytes, which decode to an equal value
fn der_eq<T: Encode + for<'a> Decode<'a>>(l: &str, x: &T, same: impl Fn(&T, &T) -> bool) {
    let mut b = vec![];
    let r = x.encode_to_vec(&mut b);
    ensures(&format!("{l} encoded"), r.is_ok());
    ensures(&format!("{l} encoded length"), usize::try_from(x.encoded_len().unwrap()).unwrap() == b.len());
    match T::from_der(&b) {
        Ok(y) => ensures(&format!("{l} decoded as it was"), same(x, &y)),
        Err(_) => ensures(&format!("{l} decoded"), false),
    }
}
/// through every reader of YAML
fn yaml_eq<T: ConfigRepr>(l: &str, xs: &[T], same: impl Fn(&T, &T) -> bool) {
    let t = Tmp::new("yaml");
    let one = serde_yml::to_string(&xs[0]).unwrap();
    std::fs::write(&t.0, &one).unwrap();
    match T::load(&t.0) {
        Ok(y) => ensures(&format!("{l} loaded as it was"), same(&xs[0], &y)),
        Err(_) => ensures(&format!("{l} loaded"), false),
    }
    let many = serde_yml::to_string(&xs).unwrap();
    std::fs::write(&t.0, &many).unwrap();
    for v in [T::load_many(&t.0), T::loads_many(&many)] {
        match v {
            Ok(ys) => ensures(&format!("{l} list loaded as it was"), ys.len() == xs.len() && ys.iter().zip(xs).all(|(a, b)| same(b, a))),
            Err(_) => ensures(&format!("{l} list loaded"), false),
        }
    }
    let mut named = std::collections::BTreeMap::new();
    for (k, x) in xs.iter().enumerate() {
        named.insert(format!("item {k}"), x);
    }
    let named = serde_yml::to_string(&named).unwrap();
    std::fs::write(&t.0, &named).unwrap();
    for v in [T::load_named(&t.0), T::loads_named(&named)] {
        match v {
            Ok(m) => ensures(&format!("{l} map loaded as it was"), m.len() == xs.len() && xs.iter().enumerate().all(|(k, x)| m.get(&format!("item {k}")).is_some_and(|y| same(x, y)))),
            Err(_) => ensures(&format!("{l} map loaded"), false),
        }
    }
    ensures("a missing file is an error", T::load("/nonexistent/cfg.yaml").is_err() && T::load_many("/nonexistent/cfg.yaml").is_err() && T::load_named("/nonexistent/cfg.yaml").is_err());
}
fn sc(k: usize) -> Spacecraft {
    let fr = if k % 2 == 0 { EARTH_J2000.with_mu_km3_s2(398600.4415) } else { MOON_J2000.with_mu_km3_s2(4902.8) };
    let kf = k as f64;
    let mut s = Spacecraft::builder()
        .orbit(Orbit::new(-7000.25 + kf, 123.5, -45.75 * kf, 1.0625, 7.5, -0.3 - kf, epoch(7 * k as i64), fr))
        .mass(Mass { dry_mass_kg: 300.5 + kf, prop_mass_kg: 50.1, extra_mass_kg: 3.25 * kf })
        .srp(SRPData { area_m2: 3.5 + kf, coeff_reflectivity: 1.3 })
        .drag(DragData { area_m2: 2.75 - kf, coeff_drag: 2.2 })
        .build();
    if k % 3 != 1 {
        s.thruster = Some(Thruster { thrust_N: 22.5 + kf, isp_s: 310.7 });
    }
    s.mode = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][k % 3];
    s
}
/// everything but what is not serialized
fn same_sc(a: &Spacecraft, b: &Spacecraft) -> bool {
    a.orbit.radius_km == b.orbit.radius_km
        && a.orbit.velocity_km_s == b.orbit.velocity_km_s
        && a.orbit.epoch == b.orbit.epoch
        && a.orbit.frame.ephemeris_id == b.orbit.frame.ephemeris_id
        && a.orbit.frame.orientation_id == b.orbit.frame.orientation_id
        && a.orbit.frame.mu_km3_s2 == b.orbit.frame.mu_km3_s2
        && a.mass == b.mass
        && a.srp == b.srp
        && a.drag == b.drag
        && a.thruster == b.thruster
        && a.mode == b.mode
}
fn station(k: usize) -> GroundStation {
    let types: &[&[MeasurementType]] = &[&[Range, Doppler], &[Elevation, Azimuth, Range], &[Doppler], &[]];
    let ts: IndexSet<MeasurementType> = types[k % 4].iter().copied().collect();
    let mut st = IndexMap::new();
    for (j, t) in types[k % 4].iter().enumerate() {
        st.insert(*t, noise(j + k));
    }
    GroundStation {
        name: format!("station {k} \u{e9}"),
        location: Location {
            latitude_deg: -35.398_333 + k as f64,
            longitude_deg: 148.981_944,
            height_km: 0.691_75 * k as f64,
            frame: if k % 2 == 0 { EARTH_ITRF93.into() } else { IAU_MOON_FRAME.into() },
            terrain_mask: vec![TerrainMask { azimuth_deg: 0.0, elevation_mask_deg: 5.0 }, TerrainMask { azimuth_deg: 130.5, elevation_mask_deg: 7.25 }],
            terrain_mask_ignored: k % 2 == 1,
        },
        measurement_types: ts,
        integration_time: if k % 3 == 0 { None } else { Some(Unit::Minute * 1 + Unit::Nanosecond * k as i64) },
        light_time_correction: k % 2 == 0,
        timestamp_noise_s: if k % 3 == 1 { None } else { Some(noise(k)) },
        stochastic_noises: if k == 2 { None } else { Some(st) },
    }
}
fn trk(k: usize) -> TrkConfig {
    let sched = Scheduler {
        handoff: [Handoff::Eager, Handoff::Greedy, Handoff::Overlap][k % 3],
        cadence: if k % 2 == 0 { Cadence::Continuous } else { Cadence::Intermittent { on: Unit::Hour * 5 + Unit::Nanosecond * 3, off: Unit::Day * 1 } },
        min_samples: 10 * k as u32 + 1,
        sample_alignment: if k % 3 == 1 { None } else { Some(Unit::Second * 10 + Unit::Millisecond * k as i64) },
    };
    let st = (0..5).map(|j| Strand::new(epoch(7 * j), epoch(7 * j + 40))).collect();
    TrkConfig {
        scheduler: if k == 3 { None } else { Some(sched) },
        sampling: Unit::Second * (60 + k as i64) + Unit::Nanosecond * 7,
        strands: if k < 2 { None } else { Some(st) },
    }
}
fn cf_sc() {
    bounded("given spacecraft");
    let k = choose("spacecraft", 4);
    cover("spacecraft");
    der_eq("spacecraft", &sc(k), same_sc);
    if let Some(t) = sc(k).thruster {
        der_eq("thruster", &t, |a, b| a == b);
    }
    yaml_eq("spacecraft", &[sc(k), sc(k + 1), sc(k + 2)], same_sc);
}
fn cf_station() {
    bounded("given stations");
    let k = choose("station", 4);
    cover("station");
    der_eq("station", &station(k), |a, b| a == b);
    yaml_eq("station", &[station(k), station(k + 1)], |a, b| a == b);
    der_eq("noise", &noise(k), |a, b| a == b);
    yaml_eq("rejection", &[SigmaRejection { num_sigmas: 2.5 + k as f64 }, SigmaRejection::default()], |a, b| a == b);
    if let Some(b) = noise(k).bias {
        der_eq("bias", &b, |a, b| a == b);
        yaml_eq("bias", &[b, GaussMarkov::default_range_km()], |a, b| a == b);
    }
    if let Some(w) = noise(k).white_noise {
        der_eq("white noise", &w, |a, b| a == b);
    }
}
fn cf_trk() {
    bounded("given configurations");
    let k = choose("configuration", 4);
    cover("tracking configuration");
    let t = trk(k);
    der_eq("tracking configuration", &t, |a, b| a == b);
    yaml_eq("tracking configuration", &[trk(k), trk((k + 1) % 4)], |a, b| a == b);
    let p: Result<TrkConfig, _> = serde_yml::to_string(&t).unwrap().parse();
    ensures("parsed as it was", p.is_ok_and(|p| p == t));
    if let Some(s) = &t.scheduler {
        der_eq("scheduler", s, |a, b| a == b);
        der_eq("cadence", &s.cadence, |a, b| a == b);
        der_eq("handoff", &s.handoff, |a, b| a == b);
    }
    for s in t.strands.iter().flatten() {
        der_eq("strand", s, |a, b| a == b && a.start.time_scale == b.start.time_scale && a.end.time_scale == b.end.time_scale);
        ensures_eq("length of a strand", s.duration().to_seconds(), (s.end - s.start).to_seconds());
    }
}
fn plan(k: usize) -> SpacecraftSequence {
    let mut s = SpacecraftSequence::default();
    let mut acc = AccelModels::default();
    let mut frc = ForceModels::default();
    if k % 2 == 0 {
        acc.point_masses = Some(PointMasses::new(vec![10, 301]));
    } else {
        frc.drag = Some(Drag { density: [AtmDensity::StdAtm { max_alt_m: 9.5e5 }, AtmDensity::Exponential { rho0: 3.614e-13, r0: 700000.0, ref_alt_m: 88667.0 }][k / 2 % 2], frame: anise::constants::frames::IAU_EARTH_FRAME, estimate: k == 3 });
    }
    for (j, n) in ["near", "far"].iter().enumerate() {
        s.propagators.insert(
            n.to_string(),
            PropagatorConfig {
                dynamics: Dynamics { accel_models: if j == 0 { acc.clone() } else { AccelModels::default() }, force_models: if j == 1 { frc.clone() } else { ForceModels::default() } },
                method: [IntegratorMethod::RungeKutta89, IntegratorMethod::DormandPrince78][j],
                options: IntegratorOptions::with_adaptive_step(Unit::Second * 1, Unit::Hour * 2, 1e-10 * (j + 1) as f64, nyx_space::propagators::ErrorControl::RSSCartesianState),
            },
        );
        s.thruster_sets.insert(format!("set {j}"), Thruster { thrust_N: 12.5 + j as f64, isp_s: 300.25 });
    }
    let laws = [
        SteeringLaw::FiniteBurn(Maneuver::from_time_invariant(epoch(8), epoch(12), 0.75, Vector3::new(0.5, -0.25, 0.125), LocalFrame::RCN)),
        SteeringLaw::Kluever { objectives: vec![ObjectiveWeight { objective: Objective::within_tolerance(StateParameter::Element(OrbitalElement::Inclination), 35.5, 0.25), weight: 0.5 }], max_eclipse_prct: Some(0.25) },
        SteeringLaw::Ruggiero { objectives: vec![ObjectiveEfficiency { objective: Objective::within_tolerance(StateParameter::Element(OrbitalElement::SemiMajorAxis), 8000.5, 1.5), efficiency: 0.75 }], max_eclipse_prct: None },
    ];
    let m = ImpulsiveManeuver { dv_km_s: Vector3::new(0.25, -0.5, 1.75), local_frame: LocalFrame::VNC };
    let p = PhysicalProperties { mass: Some(Mass { dry_mass_kg: 10.5, prop_mass_kg: 2.25, extra_mass_kg: 0.5 }), srp: Some(SRPData { area_m2: 3.5, coeff_reflectivity: 1.25 }), drag: None };
    let evs = [
        None,
        Some(DiscreteEvent::Staging { impulsive_maneuver: Some(m), decrement_properties: Some(p.clone()) }),
        Some(DiscreteEvent::Docking { impulsive_maneuver: None, increment_properties: Some(p) }),
        Some(DiscreteEvent::FrameSwap { new_frame: MOON_J2000 }),
    ];
    for j in 0..3 {
        s.seq.insert(
            epoch(7 * j as i64),
            Phase::Activity {
                name: format!("phase {j}"),
                propagator: ["near", "far"][j % 2].to_string(),
                guidance: if j == 2 { None } else { Some(Box::new(GuidanceConfig { thruster_model: format!("set {j}"), disable_prop_mass: j == 1, law: laws[(j + k) % 3].clone() })) },
                on_entry: evs[(j + k) % 4].clone().map(Box::new),
                disabled: j == 1,
            },
        );
    }
    s.seq.insert(epoch(35), Phase::Terminate);
    s
}
fn same_plan(a: &SpacecraftSequence, b: &SpacecraftSequence) -> bool {
    format!("{:?}", a.seq) == format!("{:?}", b.seq)
        && a.propagators.len() == b.propagators.len()
        && a.propagators.iter().all(|(k, p)| b.propagators.get(k).is_some_and(|q| format!("{p:?}") == format!("{q:?}")))
        && a.thruster_sets == b.thruster_sets
}
/// mission sequences in YAML
fn cf_plan() {
    bounded("given sequences");
    let s = plan(choose("sequence", 4));
    cover("sequence");
    let y = serde_yml::to_string(&s).unwrap();
    match serde_yml::from_str::<SpacecraftSequence>(&y) {
        Ok(t) => ensures("sequence loaded from YAML as it was", same_plan(&s, &t)),
        Err(e) => ensures(&format!("sequence loaded from YAML {e}"), false),
    }
}
/// what exports include
fn cf_export() {
    bounded("given metadata and fields");
    let c = ExportCfg::from_metadata(vec![("a".into(), "1".into()), ("b".into(), "2".into()), ("a".into(), "3".into())]);
    let m = c.metadata.clone().unwrap();
    ensures("metadata", m.len() == 2 && m["a"] == "3" && m["b"] == "2");
    ensures("nothing else", c.fields.is_none() && c.start_epoch.is_none() && c.end_epoch.is_none() && c.step.is_none() && !c.timestamp);
    ensures("timestamped", ExportCfg::timestamped() == ExportCfg { timestamp: true, ..Default::default() });
    let mut c = ExportCfg::default();
    ensures("every field by default", c.fields.is_none());
    c.append_field(StateParameter::DryMass());
    c.append_field(StateParameter::Element(OrbitalElement::X));
    ensures("fields in order", c.fields == Some(vec![StateParameter::DryMass(), StateParameter::Element(OrbitalElement::X)]));
    cover("export");
}
pub fn list() -> Vec<Harness> {
    let h34 = |name, functions, f| Harness { name, property: "P34", functions, f, may_panic: false };
    let h35 = |name, functions, f| Harness { name, property: "P35", functions, f, may_panic: false };
    vec![
        h34("ns_gm", &["od::noise::gauss_markov::GaussMarkov"] as &[&str], ns_gm as fn()),
        h34("ns_hardware", &["od::noise::StochasticNoise::from_hardware_range_km", "od::noise::StochasticNoise::from_hardware_doppler_km_s"], ns_hardware),
        h34("ns_defaults", &["od::noise::StochasticNoise", "od::noise::gauss_markov::GaussMarkov"], ns_defaults),
        h34("ns_simulate", &["od::noise::StochasticNoise::simulate"], ns_simulate),
        h35("cf_sc", &["cosmic::spacecraft::Spacecraft::encode", "cosmic::spacecraft::Spacecraft::decode", "io::ConfigRepr"], cf_sc),
        h35("cf_station", &["od::ground_station::GroundStation::encode", "od::ground_station::GroundStation::decode", "od::noise::StochasticNoise::encode", "od::noise::StochasticNoise::decode"], cf_station),
        h35("cf_plan", &["dynamics::sequence"], cf_plan),
        h35("cf_export", &["io::ExportCfg"], cf_export),
        h35("cf_trk", &["od::simulator::trkconfig::TrkConfig::encode", "od::simulator::trkconfig::TrkConfig::decode", "od::simulator::scheduler::Scheduler::encode"], cf_trk),
    ]
}
