//! Mission sequences (P29).
use crate::common::*;
use crate::h_tgt::sequential;
use anise::constants::frames::{EARTH_J2000, MOON_J2000, SUN_J2000};
use anise::ephemerides::ephemeris::LocalFrame;
use anise::prelude::{Almanac, Frame, Orbit};
use hifitime::Epoch;
use nalgebra::Vector3;
use nvrt::*;
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::cosmic::{DragData, GuidanceMode, Mass, SRPData, Spacecraft};
use nyx_space::dynamics::guidance::mnvr::ImpulsiveManeuver;
use nyx_space::dynamics::guidance::{Kluever, Maneuver, MnvrRepr, ObjectiveEfficiency, ObjectiveWeight, Ruggiero, Thruster};
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{AccelModel, AtmDensity, Drag, ForceModel, OrbitalDynamics, PointMasses, SolarPressure, SolidTides, SpacecraftDynamics, TidalPerturber};
use nyx_space::md::prelude::{Objective, OrbitalElement};
use nyx_space::md::StateParameter;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::State;
use std::rc::Rc;
use std::sync::Arc;

fn unit(v: Vector3<f64>) -> Vector3<f64> {
    v / (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
fn cross(a: &Vector3<f64>, b: &Vector3<f64>) -> Vector3<f64> {
    Vector3::new(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
}
/// columns of the local frame, from its definition
fn axes(f: LocalFrame, o: &Orbit) -> [Vector3<f64>; 3] {
    let (r, v) = (unit(o.radius_km), unit(o.velocity_km_s));
    let h = unit(cross(&o.radius_km, &o.velocity_km_s));
    match f {
        LocalFrame::Inertial => [Vector3::x(), Vector3::y(), Vector3::z()],
        LocalFrame::VNC => [v, h, cross(&v, &h)],
        _ => [r, cross(&h, &r), h],
    }
}
const FRAMES: [LocalFrame; 4] = [LocalFrame::VNC, LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::RCN];
const NAMES: [&str; 3] = ["park", "transfer", "station"];
/// two propagators which do not give the same result
fn setup_of(k: usize) -> (IntegratorMethod, IntegratorOptions) {
    (
        if k == 0 { IntegratorMethod::RungeKutta4 } else { IntegratorMethod::DormandPrince45 },
        IntegratorOptions::with_fixed_step(dur(1000.0)),
    )
}
const PROPS: [&str; 2] = ["near", "far"];
const THR: [&str; 2] = ["chem", "het"];
fn plan() -> SpacecraftSequence {
    let mut s = SpacecraftSequence::default();
    for k in 0..2 {
        let (method, options) = setup_of(k);
        s.propagators.insert(
            PROPS[k].to_string(),
            PropagatorConfig { dynamics: Dynamics { accel_models: AccelModels::default(), force_models: ForceModels::default() }, method, options },
        );
    }
    s
}
#[derive(Clone)]
struct Ph {
    at: f64,
    prop: usize,
    ev: Option<DiscreteEvent>,
    guid: Option<GuidanceConfig>,
    off: bool,
}
fn mnvr(n: &str, f: LocalFrame) -> ImpulsiveManeuver {
    ImpulsiveManeuver { local_frame: f, dv_km_s: v3(n, 1.0) }
}
fn props(n: &str, mask: usize) -> PhysicalProperties {
    let r = |s: &str| real(&format!("{n}.{s}"), 0.0, 0.05);
    PhysicalProperties {
        mass: (mask & 1 != 0).then(|| Mass { dry_mass_kg: r("dry"), prop_mass_kg: r("prop"), extra_mass_kg: r("extra") }),
        srp: (mask & 2 != 0).then(|| SRPData { area_m2: r("srpA"), coeff_reflectivity: r("Cr") }),
        drag: (mask & 4 != 0).then(|| DragData { area_m2: r("dragA"), coeff_drag: r("Cd") }),
    }
}
fn event(n: &str, kind: usize) -> Option<DiscreteEvent> {
    let m = || Some(mnvr(n, FRAMES[choose("local frame", 4)]));
    let p = || Some(props(n, [7, 1, 2, 4][choose("properties", 4)]));
    Some(match kind {
        0 => return None,
        1 => DiscreteEvent::Staging { impulsive_maneuver: m(), decrement_properties: None },
        2 => DiscreteEvent::Staging { impulsive_maneuver: None, decrement_properties: p() },
        3 => DiscreteEvent::Staging { impulsive_maneuver: Some(mnvr(n, LocalFrame::VNC)), decrement_properties: Some(props(n, 7)) },
        4 => DiscreteEvent::Docking { impulsive_maneuver: m(), increment_properties: None },
        5 => DiscreteEvent::Docking { impulsive_maneuver: None, increment_properties: p() },
        6 => DiscreteEvent::Docking { impulsive_maneuver: Some(mnvr(n, LocalFrame::VNC)), increment_properties: Some(props(n, 7)) },
        7 => DiscreteEvent::FrameSwap { new_frame: earth() },
        _ => DiscreteEvent::FrameSwap { new_frame: moon() },
    })
}
fn earth() -> Frame {
    frame_mu(real("mu", 1.0, 1e6))
}
fn moon() -> Frame {
    MOON_J2000.with_mu_km3_s2(real("muMoon", 1.0, 1e6))
}
/// where the Earth is, seen from the Moon
fn offset(t: f64) -> (Vector3<f64>, Vector3<f64>) {
    (Vector3::from_fn(|i, _| uf(&format!("eph{i}"), &[t], -4e5, 4e5)), Vector3::from_fn(|i, _| uf(&format!("dph{i}"), &[t], -2.0, 2.0)))
}
fn hooks() {
    trust("the Earth is at an arbitrary position and velocity as seen from the Moon; the time derivative of local-frame rotations is not used");
    anise::nvhook::install(|k| {
        k.at_epoch = Some(Rc::new(|_, _| None));
        k.translate = Some(Rc::new(|from, to, e| {
            let (mut r, mut v) = offset(secs(e));
            if from.ephem_origin_match(to) {
                (r, v) = (Vector3::zeros(), Vector3::zeros());
            } else if to.ephem_origin_match(EARTH_J2000) {
                (r, v) = (-r, -v);
            }
            Some(Orbit { radius_km: r, velocity_km_s: v, epoch: e, frame: to })
        }));
        k.transform_to = None;
    });
}
fn enter(s: &mut Spacecraft, ev: &DiscreteEvent) {
    let burn = |s: &mut Spacecraft, m: &Option<ImpulsiveManeuver>| {
        if let Some(m) = m {
            let a = axes(m.local_frame, &s.orbit);
            let dv = a[0] * m.dv_km_s[0] + a[1] * m.dv_km_s[1] + a[2] * m.dv_km_s[2];
            s.orbit.velocity_km_s = s.orbit.velocity_km_s + dv;
        }
    };
    let add = |s: &mut Spacecraft, p: &Option<PhysicalProperties>, k: f64| {
        if let Some(p) = p {
            if let Some(m) = p.mass {
                s.mass.dry_mass_kg += k * m.dry_mass_kg;
                s.mass.prop_mass_kg += k * m.prop_mass_kg;
                s.mass.extra_mass_kg += k * m.extra_mass_kg;
            }
            if let Some(m) = p.srp {
                s.srp.area_m2 += k * m.area_m2;
                s.srp.coeff_reflectivity += k * m.coeff_reflectivity;
            }
            if let Some(m) = p.drag {
                s.drag.area_m2 += k * m.area_m2;
                s.drag.coeff_drag += k * m.coeff_drag;
            }
        }
    };
    match ev {
        DiscreteEvent::Staging { impulsive_maneuver, decrement_properties } => {
            burn(s, impulsive_maneuver);
            add(s, decrement_properties, -1.0);
        }
        DiscreteEvent::Docking { impulsive_maneuver, increment_properties } => {
            burn(s, impulsive_maneuver);
            add(s, increment_properties, 1.0);
        }
        DiscreteEvent::FrameSwap { new_frame } => {
            if !new_frame.ephem_origin_match(s.orbit.frame) {
                let (r, v) = offset(secs(s.orbit.epoch));
                let k = if new_frame.ephem_origin_match(EARTH_J2000) { -1.0 } else { 1.0 };
                s.orbit.radius_km = s.orbit.radius_km + r * k;
                s.orbit.velocity_km_s = s.orbit.velocity_km_s + v * k;
                s.orbit.frame = *new_frame;
            }
        }
    }
}
fn same(a: &Spacecraft, b: &Spacecraft) {
    eq_v3("position of a phase", &a.orbit.radius_km, &b.orbit.radius_km);
    eq_v3("velocity of a phase", &a.orbit.velocity_km_s, &b.orbit.velocity_km_s);
    ensures_eq("epoch of a phase", secs(a.orbit.epoch), secs(b.orbit.epoch));
    ensures("central body of a phase", a.orbit.frame.ephem_origin_match(b.orbit.frame) && a.orbit.frame.orient_origin_match(b.orbit.frame));
    for (l, x, y) in [
        ("dry mass", a.mass.dry_mass_kg, b.mass.dry_mass_kg),
        ("propellant", a.mass.prop_mass_kg, b.mass.prop_mass_kg),
        ("extra mass", a.mass.extra_mass_kg, b.mass.extra_mass_kg),
        ("SRP area", a.srp.area_m2, b.srp.area_m2),
        ("Cr", a.srp.coeff_reflectivity, b.srp.coeff_reflectivity),
        ("drag area", a.drag.area_m2, b.drag.area_m2),
        ("Cd", a.drag.coeff_drag, b.drag.coeff_drag),
    ] {
        ensures_eq(&format!("{l} of a phase"), x, y);
    }
    ensures("thruster of a phase", a.thruster.is_some() == b.thruster.is_some());
    if let (Some(x), Some(y)) = (a.thruster, b.thruster) {
        ensures_eq("thrust of a phase", x.thrust_N, y.thrust_N);
        ensures_eq("Isp of a phase", x.isp_s, y.isp_s);
    }
    ensures("guidance mode of a phase", a.mode == b.mode);
}
/// runs the plan, and what it says phase by phase
fn run(mut plan: SpacecraftSequence, phases: &[Ph], end: f64, start: Spacecraft, until: Option<&str>) {
    sequential();
    for (i, p) in phases.iter().enumerate() {
        plan.seq.insert(
            ep(p.at),
            Phase::Activity { name: NAMES[i].to_string(), propagator: PROPS[p.prop].to_string(), guidance: p.guid.clone().map(Box::new), on_entry: p.ev.clone().map(Box::new), disabled: p.off },
        );
    }
    plan.seq.insert(ep(end), Phase::Terminate);
    let al = Arc::new(Almanac::default());
    ensures("a complete plan is valid", plan.validate().is_ok());
    ensures("a complete plan can be set up", plan.setup(al.clone()).is_ok());
    let got = plan.propagate(start, until.map(|s| s.to_string()), al.clone());
    ensures("the plan is propagated", got.is_ok());
    let got = got.unwrap();
    // the specification
    let first = phases.iter().position(|p| p.at >= secs(start.orbit.epoch)).unwrap_or(phases.len());
    let mut stops: Vec<(usize, f64)> = phases.iter().enumerate().skip(first).filter(|(i, p)| !p.off || until == Some(NAMES[*i])).map(|(i, p)| (i, p.at)).collect();
    stops.push((phases.len(), end));
    let mut s = start;
    let mut n = 0;
    for w in stops.windows(2) {
        let ((i, _), (_, to)) = (w[0], w[1]);
        if until == Some(NAMES[i]) {
            break;
        }
        let p = &phases[i];
        if let Some(ev) = &p.ev {
            enter(&mut s, ev);
        }
        let (method, opts) = setup_of(p.prop);
        let mut dynamics = SpacecraftDynamics::new(OrbitalDynamics::two_body());
        if let Some(g) = &p.guid {
            s.thruster = Some(plan.thruster_sets[&g.thruster_model]);
            dynamics.decrement_mass = !g.disable_prop_mass;
            dynamics.guid_law = Some(match &g.law {
                SteeringLaw::FiniteBurn(m) => Arc::new(*m),
                SteeringLaw::Ruggiero { objectives, max_eclipse_prct } => Arc::new(Ruggiero { objectives: objectives.clone(), max_eclipse_prct: *max_eclipse_prct, init_state: s }),
                SteeringLaw::Kluever { objectives, max_eclipse_prct } => Arc::new(Kluever { objectives: objectives.clone(), max_eclipse_prct: *max_eclipse_prct }),
            });
        }
        let prop = Propagator::new(dynamics, method, opts);
        let (fin, traj) = prop.with(s, al.clone()).until_epoch_with_traj(ep(to)).unwrap();
        ensures("one trajectory per phase executed", got.len() > n);
        let t = &got[n];
        ensures("a trajectory is named after its phase", t.name.as_deref() == Some(NAMES[i]));
        ensures_eq("a phase starts when the previous one ends", secs(t.states[0].orbit.epoch), secs(s.orbit.epoch));
        ensures_eq("a phase ends when the next one starts", secs(t.states[t.states.len() - 1].orbit.epoch), to);
        ensures("states of a phase", t.states.len() == traj.states.len());
        for (a, b) in t.states.iter().zip(&traj.states) {
            same(a, b);
        }
        s = fin;
        n += 1;
    }
    ensures("no other trajectory than those of the executed phases", got.len() == n);
    cover(&format!("{n} phases executed"));
}
fn times() -> [f64; 4] {
    let mut t = [real("t0", -1e3, 1e3), 0.0, 0.0, 0.0];
    for i in 1..4 {
        t[i] = t[i - 1] + real(&format!("d{i}"), 1.0, 300.0);
    }
    t
}
fn start(t: f64) -> Spacecraft {
    let s = sym_sc("s", ep(t), earth());
    assume_lt(0.1, s.mass.prop_mass_kg);
    assume_lt(0.1, s.mass.dry_mass_kg);
    assume_lt(0.1, s.mass.extra_mass_kg);
    assume_lt(0.1, s.srp.coeff_reflectivity);
    assume_lt(s.srp.coeff_reflectivity, 1.9);
    assume_lt(0.1, s.drag.coeff_drag);
    s
}
/// one event of every kind on the entry of any phase, two events in a row
fn seq_events() {
    bounded("three phases of one integration step each, one or two of them with an event");
    hooks();
    let k = choose("phase", 3);
    let kind = choose("kind", 9);
    let t = if k > 0 && [1, 3, 4, 6].contains(&kind) { [0.0, 100.0, 250.0, 400.0] } else { times() };
    let ph: Vec<Ph> = (0..3)
        .map(|i| Ph { at: t[i], prop: if i == 1 { 1 } else { 0 }, ev: if i == k { event("e", kind) } else if i == 2 && k == 1 && kind == 8 { event("f", 7) } else { None }, guid: None, off: false })
        .collect();
    let mut s = start(t[0]);
    if k == 0 {
        let h = cross(&s.orbit.radius_km, &s.orbit.velocity_km_s);
        assume_lt(1.0, s.orbit.radius_km[0]);
        assume_lt(0.1, s.orbit.velocity_km_s[1]);
        assume_lt(0.1, h[0] * h[0] + h[1] * h[1] + h[2] * h[2]);
    } else if [1, 3, 4, 6].contains(&kind) {
        // a maneuver after some propagation, from one orbit
        s.orbit = orbit0();
        s.orbit.epoch = ep(t[0]);
    }
    run(plan(), &ph, t[3], s, None);
}
fn orbit0() -> Orbit {
    let mut o = Orbit::zero(frame_mu(398600.4));
    o.radius_km = Vector3::new(6800.0, 500.0, -300.0);
    o.velocity_km_s = Vector3::new(-0.3, 5.6, 5.0);
    o.epoch = ep(0.0);
    o
}
/// disabled phases, propagation until a phase, start at a later phase
fn seq_select() {
    bounded("three phases of one integration step each");
    hooks();
    let t = times();
    let off = choose("disabled", 8);
    let first = choose("start", 3);
    let until = [None, Some(NAMES[0]), Some(NAMES[1]), Some(NAMES[2]), Some("unknown")][choose("until", 5)];
    let ph: Vec<Ph> = (0..3)
        .map(|i| Ph { at: t[i], prop: [0, 1, 0][i], ev: Some(DiscreteEvent::Docking { impulsive_maneuver: None, increment_properties: Some(props(NAMES[i], 7)) }), guid: None, off: off & (1 << i) != 0 })
        .collect();
    // starting at a phase which is disabled is not specified
    if off & (1 << first) != 0 && until != Some(NAMES[first]) {
        return;
    }
    run(plan(), &ph, t[3], start(t[first]), until);
}
/// guided phases: the thruster set, the mass flow, the law, and coasting again afterwards
fn seq_guided() {
    bounded("three phases of one integration step each, one of them guided; closed-loop laws for one spacecraft");
    hooks();
    let law = choose("law", 3);
    let (t, s) = if law == 0 {
        let t = times();
        let s = start(t[0]);
        assume_lt(20.0, s.mass.prop_mass_kg);
        (t, s)
    } else {
        let mut s = Spacecraft { orbit: orbit0(), ..Default::default() };
        s.mass = Mass { dry_mass_kg: 300.0, prop_mass_kg: 50.0, extra_mass_kg: 5.0 };
        ([0.0, 100.0, 250.0, 400.0], s)
    };
    let mut s = s;
    if flag("another thruster at the start") {
        s.thruster = Some(Thruster { thrust_N: 3.0, isp_s: 150.0 });
    }
    let k = choose("phase", 3);
    let obj = [Objective::new(StateParameter::Element(OrbitalElement::SemiMajorAxis), 7300.0), Objective::new(StateParameter::Element(OrbitalElement::Inclination), 45.0)];
    let law = match law {
        0 => SteeringLaw::FiniteBurn(Maneuver {
            start: ep(if flag("burns from the start") { t[k] } else { t[0] - 1.0 }),
            end: ep(t[3] + 1.0),
            thrust_prct: 0.75,
            representation: MnvrRepr::Vector(Vector3::new(0.6, 0.0, -0.8)),
            frame: LocalFrame::Inertial,
        }),
        1 => SteeringLaw::Ruggiero { objectives: obj.iter().map(|o| ObjectiveEfficiency { objective: *o, efficiency: 0.0 }).collect(), max_eclipse_prct: None },
        _ => SteeringLaw::Kluever { objectives: obj.iter().enumerate().map(|(i, o)| ObjectiveWeight { objective: *o, weight: 1.0 + i as f64 }).collect(), max_eclipse_prct: None },
    };
    let mut p = plan();
    for i in 0..2 {
        p.thruster_sets.insert(THR[i].to_string(), Thruster { thrust_N: [20.0, 0.25][i], isp_s: [300.0, 2000.0][i] });
    }
    let g = GuidanceConfig { thruster_model: THR[choose("thrusters", 2)].to_string(), disable_prop_mass: flag("no mass flow"), law };
    let ph: Vec<Ph> = (0..3).map(|i| Ph { at: t[i], prop: 0, ev: None, guid: (i == k).then(|| g.clone()), off: false }).collect();
    run(p, &ph, t[3], s, None);
}
/// a burn is flown on the steps which start within it, whatever the mode the spacecraft is handed over in
fn burn_window() {
    bounded("two integration steps");
    hooks();
    let mut s = start(0.0);
    assume_lt(20.0, s.mass.prop_mass_kg);
    s.thruster = Some(Thruster { thrust_N: 20.0, isp_s: 300.0 });
    s.mut_mode([GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][choose("mode", 3)]);
    let back = flag("backward");
    let sg = if back { -1.0 } else { 1.0 };
    let (bs, be) = (real("start", -150.0, 150.0), real("end", -150.0, 150.0));
    assume_lt(bs, be);
    let m = Maneuver { start: ep(bs), end: ep(be), thrust_prct: 0.75, representation: MnvrRepr::Vector(Vector3::new(0.6, 0.0, -0.8)), frame: LocalFrame::Inertial };
    let d = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), Arc::new(m));
    let prop = Propagator::new(d, IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(60.0)));
    let (fin, traj) = prop.with(s, Arc::new(Almanac::default())).for_duration_with_traj(dur(sg * 100.0)).unwrap();
    let on = |t: f64| bs <= t && t <= be;
    let rate = -(0.75 * 20.0) / (300.0 * 9.80665);
    let m1 = s.mass.prop_mass_kg + if on(0.0) { sg * 60.0 * rate } else { 0.0 };
    let m2 = m1 + if on(sg * 60.0) { sg * 40.0 * rate } else { 0.0 };
    ensures_eq_tol("propellant used during the burn", fin.mass.prop_mass_kg, m2, 1e-9, 0.0);
    ensures("thrusting iff within the burn", (fin.mode() == GuidanceMode::Thrust) == on(sg * 100.0));
    let mid = traj.states.iter().find(|x| secs(x.orbit.epoch) == sg * 60.0).unwrap();
    ensures_eq_tol("propellant used during the first step", mid.mass.prop_mass_kg, m1, 1e-9, 0.0);
    ensures("thrusting iff within the burn", (mid.mode() == GuidanceMode::Thrust) == on(sg * 60.0));
    cover("flown");
}
fn seq_validate() {
    let phase = |p: &str, g: Option<&str>| Phase::Activity {
        name: "a".to_string(),
        propagator: p.to_string(),
        guidance: g.map(|g| Box::new(GuidanceConfig { thruster_model: g.to_string(), disable_prop_mass: false, law: SteeringLaw::Kluever { objectives: vec![], max_eclipse_prct: None } })),
        on_entry: None,
        disabled: false,
    };
    let mut s = plan();
    s.thruster_sets.insert("chem".to_string(), Thruster { thrust_N: 1.0, isp_s: 1.0 });
    let at = |i: usize| Epoch::from_tai_seconds(60.0 * i as f64);
    let bad = choose("defect", 4);
    let k = choose("where", 3);
    for i in 0..3 {
        let p = if bad == 1 && i == k { "none" } else { PROPS[i % 2] };
        let g = if bad == 2 && i == k { Some("none") } else if i == 1 { Some("chem") } else { None };
        s.seq.insert(at(i), phase(p, g));
    }
    if bad != 3 {
        s.seq.insert(at(3), Phase::Terminate);
    } else {
        s.seq.insert(at(k), Phase::Terminate);
        if k == 2 {
            s.seq.insert(at(4), phase(PROPS[0], None));
        }
    }
    let ok = bad == 0;
    ensures("a plan is valid iff it terminates and its propagators and thrusters are defined", s.validate().is_ok() == ok);
    ensures("an invalid plan is not set up", s.setup(Arc::new(Almanac::default())).is_ok() == ok);
    cover(if ok { "valid" } else { "invalid" });
}
/// the propagator of a configuration: its integrator, its options and the sum of its models
fn seq_build() {
    bounded("one model of each kind, in any combination but gravity fields from files");
    trust("third bodies and the Sun are at fixed positions, eclipses are total or absent");
    anise::nvhook::install(|k| {
        let at = |f: &Frame| match f.ephemeris_id {
            301 => Vector3::new(3e5, 1e5, 2e4),
            10 => Vector3::new(1e8, -9e7, 1e6),
            _ => Vector3::zeros(),
        };
        k.frame_info = Some(Rc::new(|u| {
            let f: Frame = u.into();
            Some(f.with_mu_km3_s2(if f.ephemeris_id == 10 { 1.3e11 } else { 4900.0 }))
        }));
        k.transform = Some(Rc::new(move |t, o, e| Some(Orbit { radius_km: at(&t) - at(&o), velocity_km_s: Vector3::zeros(), epoch: e, frame: o })));
        k.transform_to = Some(Rc::new(move |mut o, f| {
            o.radius_km = o.radius_km + at(&o.frame) - at(&f);
            o.frame = f;
            Some(o)
        }));
    });
    let mut ef = EARTH_J2000.with_mu_km3_s2(398600.4);
    ef.shape = Some(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_sphere(6378.0));
    let pm = PointMasses::new(vec![301, 10]);
    let tides = SolidTides { frame: ef, k2: 0.3, k3: 0.09, perturbers: vec![TidalPerturber { frame: MOON_J2000.with_mu_km3_s2(4900.0), compute_degree_3: false }] };
    let srp = SolarPressure { phi: 1400.0, shadow_model: ShadowModel { light_source: SUN_J2000, shadow_bodies: vec![] }, estimate: flag("estimate Cr") };
    let drag = Drag { density: AtmDensity::Constant(1e-9), frame: ef, estimate: flag("estimate Cd") };
    let m = choose("models", 16);
    let cfg = PropagatorConfig {
        dynamics: Dynamics {
            accel_models: AccelModels { point_masses: (m & 1 != 0).then(|| pm.clone()), gravity_field: None, solid_tides: (m & 2 != 0).then(|| tides.clone()) },
            force_models: ForceModels { solar_pressure: (m & 4 != 0).then(|| srp.clone()), drag: (m & 8 != 0).then_some(drag) },
        },
        method: IntegratorMethod::DormandPrince78,
        options: IntegratorOptions::with_adaptive_step_s(0.25, 99.0, 1e-7, nyx_space::propagators::ErrorControl::RSSState),
    };
    let al = Arc::new(Almanac::default());
    let p = cfg.build(al.clone()).unwrap();
    ensures("the integrator is the configured one", p.method == IntegratorMethod::DormandPrince78);
    ensures("the options are the configured ones", p.opts.tolerance == 1e-7 && p.opts.min_step == cfg.options.min_step && p.opts.max_step == cfg.options.max_step && p.opts.error_ctrl == cfg.options.error_ctrl);
    let mut s = Spacecraft { orbit: Orbit::zero(ef), ..Default::default() };
    s.orbit.radius_km = Vector3::new(6800.0, 500.0, -300.0);
    s.orbit.velocity_km_s = Vector3::new(-0.3, 5.6, 5.0);
    s.orbit.epoch = ep(0.0);
    s.mass = Mass { dry_mass_kg: 300.0, prop_mass_kg: 50.0, extra_mass_kg: 5.0 };
    s.srp = SRPData { area_m2: 10.0, coeff_reflectivity: 1.5 };
    s.drag = DragData { area_m2: 8.0, coeff_drag: 2.2 };
    let d = nyx_space::dynamics::Dynamics::eom(&p.dynamics, 0.0, &s.to_vector(), &s, &al).unwrap();
    let r = s.orbit.radius_km;
    let mut a = r * (-398600.4 / r.norm().powi(3));
    if m & 1 != 0 {
        a += pm.eom(&s.orbit, &al).unwrap();
    }
    if m & 2 != 0 {
        a += tides.eom(&s.orbit, &al).unwrap();
    }
    if m & 4 != 0 {
        a += srp.eom(&s, &al).unwrap() / 355.0;
    }
    if m & 8 != 0 {
        a += drag.eom(&s, &al).unwrap() / 355.0;
    }
    for i in 0..3 {
        ensures_eq_tol("the dynamics are the sum of the configured models", d[3 + i], a[i], 1e-12, 0.0);
    }
    let want: Vec<_> = [(m & 4 != 0).then(|| srp.estimation_index()), (m & 8 != 0).then(|| drag.estimation_index())].into_iter().flatten().collect();
    let got: Vec<_> = p.dynamics.force_models.iter().map(|f| f.estimation_index()).collect();
    ensures("the configured parameters are estimated", got == want);
    ensures("no guidance, propellant flows", p.dynamics.guid_law.is_none() && p.dynamics.decrement_mass);
    cover("built");
}
pub fn list() -> Vec<Harness> {
    let h = |name, functions, f: fn()| Harness { name, property: "P29", functions, f, may_panic: false };
    vec![
        h("seq_events", &["SpacecraftSequence::propagate", "ImpulsiveManeuver::apply_to"], seq_events),
        h("seq_select", &["SpacecraftSequence::propagate"], seq_select),
        h("seq_guided", &["SpacecraftSequence::propagate"], seq_guided),
        Harness { name: "burn_window", property: "P13", functions: &["PropInstance::propagate", "SpacecraftDynamics::finally", "Maneuver::next"], f: burn_window, may_panic: false },
        h("seq_validate", &["SpacecraftSequence::validate", "SpacecraftSequence::setup"], seq_validate),
        h("seq_build", &["PropagatorConfig::build", "Dynamics::build"], seq_build),
    ]
}
