//! Equations of motion: composition, thrust, force models, gradients.
use crate::common::*;
use anise::astro::Occultation;
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, MOON_J2000, SUN_J2000};
use anise::math::rotation::DCM;
use anise::prelude::{Almanac, Frame, Orbit};
use nalgebra::{Matrix3, Matrix4x3, SMatrix, SVector, Vector3};
use nvrt::*;
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::cosmic::{GuidanceMode, Spacecraft};
use nyx_space::dynamics::guidance::{GuidanceError, GuidanceLaw};
use nyx_space::dynamics::*;
use nyx_space::io::gravity::GravityFieldData;
use nyx_space::State;
use std::rc::Rc;
use std::sync::Arc;

fn orbit_args(o: &Orbit) -> Vec<f64> {
    let mut a: Vec<f64> = o.radius_km.iter().copied().collect();
    a.extend(o.velocity_km_s.iter().copied());
    a.push(secs(o.epoch));
    a
}
fn sc_args(s: &Spacecraft) -> Vec<f64> {
    let mut a = orbit_args(&s.orbit);
    a.extend([s.srp.coeff_reflectivity, s.drag.coeff_drag, s.mass.prop_mass_kg]);
    a
}
fn arb(name: &str, a: &[f64]) -> Vector3<f64> {
    Vector3::from_fn(|i, _| uf(&format!("{name}{i}"), a, -1.0, 1.0))
}
/// an arbitrary user-defined acceleration
#[derive(Clone)]
pub struct ArbAccel(pub usize);
impl std::fmt::Display for ArbAccel {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "arb")
    }
}
impl AccelModel for ArbAccel {
    fn eom(&self, o: &Orbit, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
        Ok(arb(&format!("acc{}_", self.0), &orbit_args(o)))
    }
    fn gradient(&self, o: &Orbit, al: &Almanac) -> Result<(Vector3<f64>, Matrix3<f64>), DynamicsError> {
        let a = orbit_args(o);
        Ok((self.eom(o, al)?, Matrix3::from_fn(|i, j| uf(&format!("dacc{}_{i}{j}", self.0), &a, -1.0, 1.0))))
    }
}
/// an arbitrary user-defined force
#[derive(Clone)]
pub struct ArbForce(pub usize, pub Option<usize>);
impl std::fmt::Display for ArbForce {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "arb")
    }
}
impl ForceModel for ArbForce {
    fn estimation_index(&self) -> Option<usize> {
        self.1
    }
    fn eom(&self, s: &Spacecraft, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
        Ok(arb(&format!("frc{}_", self.0), &sc_args(s)))
    }
    fn gradient(&self, s: &Spacecraft, al: &Almanac) -> Result<(Vector3<f64>, Matrix4x3<f64>), DynamicsError> {
        let a = sc_args(s);
        Ok((self.eom(s, al)?, Matrix4x3::from_fn(|i, j| uf(&format!("dfrc{}_{i}{j}", self.0), &a, -1.0, 1.0))))
    }
}
/// an arbitrary guidance law
#[derive(Clone, Copy)]
pub struct ArbLaw {
    zero: bool,
    unit: bool,
}
impl std::fmt::Display for ArbLaw {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "arb")
    }
}
fn law_throttle(l: ArbLaw, s: &Spacecraft) -> f64 {
    if l.zero {
        return 0.0;
    }
    uf("throttle", &sc_args(s), -2.0, 2.0)
}
fn law_dir(l: ArbLaw, s: &Spacecraft) -> Vector3<f64> {
    if l.unit {
        let (a, d) = (uf("ra", &sc_args(s), -3.0, 3.0), uf("dec", &sc_args(s), -1.5, 1.5));
        return Vector3::new(d.cos() * a.cos(), d.cos() * a.sin(), d.sin());
    }
    Vector3::from_fn(|i, _| uf(&format!("dir{i}"), &sc_args(s), -2.0, 2.0))
}
impl GuidanceLaw for ArbLaw {
    fn direction(&self, s: &Spacecraft) -> Result<Vector3<f64>, GuidanceError> {
        if s.mode == GuidanceMode::Inhibit {
            return Err(GuidanceError::NoThrustersDefined);
        }
        Ok(law_dir(*self, s))
    }
    fn throttle(&self, s: &Spacecraft) -> Result<f64, GuidanceError> {
        Ok(law_throttle(*self, s))
    }
    fn next(&self, s: &mut Spacecraft, _: &Almanac) {
        s.mode = GuidanceMode::Thrust;
    }
}
struct In {
    mu: f64,
    dt: f64,
    ctx: Spacecraft,
    x: SVector<f64, 90>,
    osc: Spacecraft,
}
/// arbitrary context, stage offset and stage vector; `osc` is the spacecraft at that stage
fn stage(stm: bool) -> In {
    let mu = real("mu", 1.0, 1e6);
    let dt = real("dt", -1e3, 1e3);
    let mut ctx = sym_sc("sc", ep(real("t0", -1e6, 1e6)), frame_mu(mu));
    if stm {
        ctx.stm = Some(SMatrix::<f64, 9, 9>::from_fn(|i, j| real(&format!("ctxstm{i}{j}"), -2.0, 2.0)));
    }
    let mut x = SVector::<f64, 90>::zeros();
    for i in 0..3 {
        x[i] = real(&format!("x{i}"), -1e5, 1e5);
        x[i + 3] = real(&format!("x{}", i + 3), -20.0, 20.0);
    }
    x[6] = real("x6", 0.0, 2.0);
    x[7] = real("x7", 0.0, 10.0);
    x[8] = real("x8", -1e4, 1e4);
    if stm {
        for k in 9..90 {
            x[k] = real(&format!("x{k}"), -2.0, 2.0);
        }
    }
    let mut osc = ctx;
    osc.orbit.epoch = ep(secs(ctx.orbit.epoch) + dt);
    osc.orbit.radius_km = Vector3::new(x[0], x[1], x[2]);
    osc.orbit.velocity_km_s = Vector3::new(x[3], x[4], x[5]);
    osc.srp.coeff_reflectivity = x[6];
    osc.drag.coeff_drag = x[7];
    osc.mass.prop_mass_kg = x[8];
    In { mu, dt, ctx, x, osc }
}
fn total_mass(s: &Spacecraft) -> f64 {
    s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg
}
fn grav(mu: f64, r: &Vector3<f64>) -> Vector3<f64> {
    let n = (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt();
    Vector3::from_fn(|i, _| -mu * r[i] / (n * n * n))
}
fn models(na: usize, nf: usize) -> SpacecraftDynamics {
    let acc: Vec<Arc<dyn AccelModel + Sync>> = (0..na).map(|i| Arc::new(ArbAccel(i)) as Arc<dyn AccelModel + Sync>).collect();
    let frc: Vec<Arc<dyn ForceModel>> = (0..nf).map(|i| Arc::new(ArbForce(i, if i == 0 { Some(6) } else { None })) as Arc<dyn ForceModel>).collect();
    SpacecraftDynamics::from_models(OrbitalDynamics::new(acc), frc)
}
fn model_sum(na: usize, nf: usize, osc: &Spacecraft) -> Vector3<f64> {
    let al = Almanac::default();
    let mut s = Vector3::zeros();
    for i in 0..na {
        s += ArbAccel(i).eom(&osc.orbit, &al).unwrap();
    }
    let m = total_mass(osc);
    for i in 0..nf {
        let f = ArbForce(i, None).eom(osc, &al).unwrap();
        s += Vector3::from_fn(|k, _| f[k] / m);
    }
    s
}
fn dyn_compose() {
    bounded("at most two acceleration and two force models");
    let na = choose("accelerations", 3);
    let nf = choose("forces", 3);
    let d = models(na, nf);
    let i = stage(false);
    let m = total_mass(&i.osc);
    assume_ne(m, 0.0);
    let al = Almanac::default();
    let got = d.eom(i.dt, &i.x, &i.ctx, &al);
    if nf > 0 && m <= 0.0 {
        cover("massless");
        ensures("no force without mass", got == Err(DynamicsError::MasslessSpacecraft));
        return;
    }
    let got = got.unwrap();
    let want = grav(i.mu, &i.osc.orbit.radius_km) + model_sum(na, nf, &i.osc);
    for k in 0..3 {
        ensures_eq(&format!("position rate is the velocity [{k}]"), got[k], i.x[k + 3]);
        ensures_eq(&format!("acceleration [{k}]"), got[k + 3], want[k]);
    }
    for k in 6..90 {
        ensures_eq(&format!("parameters are constant without guidance [{k}]"), got[k], 0.0);
    }
    cover("composed");
}
/// no planetary data: the error is reported, not a made up acceleration
fn dyn_no_mu() {
    let d = models(0, 0);
    let mut i = stage(false);
    i.ctx.orbit.frame = EARTH_J2000;
    ensures("missing gravitational parameter is an error", d.eom(i.dt, &i.x, &i.ctx, &Almanac::default()).is_err());
    cover("no mu");
}
fn dyn_stm() {
    bounded("at most two acceleration and two force models");
    let na = choose("accelerations", 3);
    let nf = choose("forces", 3);
    let d = models(na, nf);
    let i = stage(true);
    let m = total_mass(&i.osc);
    assume_lt(0.0, m);
    let al = Almanac::default();
    let got = d.eom(i.dt, &i.x, &i.ctx, &al).unwrap();
    let want = grav(i.mu, &i.osc.orbit.radius_km) + model_sum(na, nf, &i.osc);
    for k in 0..3 {
        ensures_eq(&format!("position rate is the velocity [{k}]"), got[k], i.x[k + 3]);
        ensures_eq(&format!("acceleration [{k}]"), got[k + 3], want[k]);
        ensures_eq(&format!("parameters are constant [{}]", k + 6), got[k + 6], 0.0);
    }
    // A from its definition
    let g = grav(i.mu, &i.osc.orbit.radius_km);
    let mut a = SMatrix::<f64, 9, 9>::zeros();
    for r in 0..3 {
        a[(r, r + 3)] = 1.0;
        for c in 0..3 {
            let mut s = deriv(g[r], &format!("x{c}"));
            for k in 0..na {
                s = s + ArbAccel(k).gradient(&i.osc.orbit, &al).unwrap().1[(r, c)];
            }
            for k in 0..nf {
                s = s + ArbForce(k, None).gradient(&i.osc, &al).unwrap().1[(r, c)] / m;
            }
            a[(r + 3, c)] = s;
        }
        if nf > 0 {
            a[(r + 3, 6)] = ArbForce(0, None).gradient(&i.osc, &al).unwrap().1[(3, r)] / m;
        }
    }
    let (dx, da) = d.dual_eom(i.dt, &i.osc, &al).unwrap();
    for r in 0..9 {
        ensures_eq(&format!("dual state rate [{r}]"), dx[r], got[r]);
        for c in 0..9 {
            ensures_eq(&format!("Jacobian [{r},{c}]"), da[(r, c)], a[(r, c)]);
        }
    }
    // column-major STM in the vector
    let phi = |r: usize, c: usize| i.x[9 + r + 9 * c];
    for r in 0..9 {
        for c in 0..9 {
            let mut s = 0.0;
            for k in 0..9 {
                s = s + da[(r, k)] * phi(k, c);
            }
            ensures_eq(&format!("STM rate is A times the STM [{r},{c}]"), got[9 + r + 9 * c], s);
        }
    }
    cover("stm");
}
fn dyn_thrust() {
    let nf = choose("forces", 2);
    let decr = flag("decrement");
    let law = ArbLaw { zero: flag("coast"), unit: flag("unit direction") };
    let base = models(0, nf);
    let mut d = if decr {
        SpacecraftDynamics::from_guidance_law(base.orbital_dyn.clone(), Arc::new(law))
    } else {
        SpacecraftDynamics::from_guidance_law_no_decr(base.orbital_dyn.clone(), Arc::new(law))
    };
    d.force_models = base.force_models.clone();
    let mut i = stage(false);
    let m = total_mass(&i.osc);
    assume_lt(0.0, m);
    let has = flag("thruster");
    let th = sym_thruster("th");
    if has {
        i.ctx.thruster = Some(th);
        i.osc.thruster = Some(th);
    }
    let got = d.eom(i.dt, &i.x, &i.ctx, &Almanac::default());
    if !has {
        cover("no thruster");
        ensures("no thruster", got == Err(DynamicsError::DynamicsGuidance { source: GuidanceError::NoThrustersDefined }));
        return;
    }
    let tl = law_throttle(law, &i.osc);
    let dir = law_dir(law, &i.osc);
    if tl < 0.0 || tl > 1.0 {
        cover("bad throttle");
        ensures("throttle outside [0, 1]", matches!(got, Err(DynamicsError::DynamicsGuidance { source: GuidanceError::ThrottleRatio { .. } })));
        return;
    }
    let n = (dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]).sqrt();
    if tl > 0.0 && (n - 1.0).abs() > 1e-4 {
        cover("bad direction");
        ensures("direction is not a unit vector", matches!(got, Err(DynamicsError::DynamicsGuidance { source: GuidanceError::InvalidDirection { .. } })));
        return;
    }
    let got = got.unwrap();
    let want = grav(i.mu, &i.osc.orbit.radius_km) + model_sum(0, nf, &i.osc);
    let on = tl > 0.0;
    for k in 0..3 {
        let t = if on { tl * th.thrust_N * 1e-3 * dir[k] / m } else { 0.0 };
        ensures_eq(&format!("position rate [{k}]"), got[k], i.x[k + 3]);
        ensures_eq(&format!("acceleration includes the thrust over the total mass [{k}]"), got[k + 3], want[k] + t);
    }
    ensures_eq("Cr constant", got[6], 0.0);
    ensures_eq("Cd constant", got[7], 0.0);
    let rate = if on && decr { -(tl * th.thrust_N) / (th.isp_s * 9.80665) } else { 0.0 };
    ensures_eq("propellant rate is throttle T / (Isp g0)", got[8], rate);
    ensures_le("propellant never increases", got[8], 0.0);
    ensures_eq("exhaust velocity", th.exhaust_velocity_m_s(), th.isp_s * 9.80665);
    if on {
        cover("thrusting");
    } else {
        cover("coasting");
    }
}
fn dyn_thrust_stm() {
    let d = SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), Arc::new(ArbLaw { zero: false, unit: true }));
    let mut i = stage(true);
    i.ctx.thruster = Some(sym_thruster("th"));
    ensures("no partials with guidance: an error, not a wrong STM", d.eom(i.dt, &i.x, &i.ctx, &Almanac::default()).is_err());
    cover("guidance and stm");
}
fn dyn_finally() {
    let mut s = sym_sc("sc", ep(real("t0", -1e6, 1e6)), frame_mu(real("mu", 1.0, 1e6)));
    s.mass.prop_mass_kg = real("prop", -1e3, 1e3);
    let m0 = choose("mode", 3);
    s.mode = MODES[m0];
    s.thrust_direction = if flag("stale direction") { Some(Vector3::new(1.0, 0.0, 0.0).into()) } else { None };
    let law = flag("guided");
    let gl = ArbLaw { zero: flag("coast"), unit: true };
    let d = if law { SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), Arc::new(gl)) } else { SpacecraftDynamics::new(OrbitalDynamics::two_body()) };
    let r = d.finally(s, &Almanac::default());
    if s.mass.prop_mass_kg < 0.0 {
        cover("exhausted");
        ensures("running out of propellant is an error", matches!(r, Err(DynamicsError::FuelExhausted { .. })));
        return;
    }
    let r = r.unwrap();
    eq_v3("position kept", &r.orbit.radius_km, &s.orbit.radius_km);
    eq_v3("velocity kept", &r.orbit.velocity_km_s, &s.orbit.velocity_km_s);
    ensures_eq("propellant kept", r.mass.prop_mass_kg, s.mass.prop_mass_kg);
    ensures_eq("epoch kept", secs(r.orbit.epoch), secs(s.orbit.epoch));
    if !law {
        cover("unguided");
        ensures("no thrust direction without guidance", r.thrust_direction.is_none());
        ensures("mode kept without guidance", r.mode == s.mode);
    } else {
        ensures("the guidance law chooses the next mode", r.mode == GuidanceMode::Thrust);
        let on = law_throttle(gl, &s) > 0.0 && s.mode != GuidanceMode::Inhibit;
        ensures("a thrust direction is recorded iff the law commands thrust", r.thrust_direction.is_some() == on);
        if on {
            cover("direction");
            eq_v3("recorded direction", &r.thrust_direction().unwrap(), &law_dir(gl, &s));
        } else {
            cover("no direction");
        }
    }
}
// ---- force models --------------------------------------------------------------------------
fn sun() -> Vector3<f64> {
    Vector3::new(real("sun0", 1e6, 1e9), real("sun1", -1e9, 1e9), real("sun2", -1e9, 1e9))
}
fn srp_hooks(s: Vector3<f64>, occ: f64, occ2: f64) {
    trust("the Sun is at an arbitrary position in the integration axes; the eclipse percentage is an arbitrary value in [0, 100], constant in the partials");
    anise::nvhook::install(move |k| {
        k.transform_to = Some(Rc::new(move |mut o, f| {
            if f.ephem_origin_match(SUN_J2000) {
                o.radius_km = o.radius_km - s;
                o.frame = f;
            }
            Some(o)
        }));
        k.eclipse = Some(Rc::new(move |f, o| Some(Occultation { epoch: o.epoch, percentage: if f.ephem_origin_match(EARTH_J2000) { occ } else { occ2 }, back_frame: SUN_J2000, front_frame: f })));
        k.frame_info = Some(Rc::new(|u| Some(u.into())));
    });
}
fn srp() {
    let s = sun();
    let (o1, o2) = (real("occ", 0.0, 100.0), real("occ2", 0.0, 100.0));
    srp_hooks(s, o1, o2);
    // the darkest of the shadows counts
    let nb = choose("shadow bodies", 3);
    let bodies = [vec![], vec![EARTH_J2000], vec![EARTH_J2000, MOON_J2000]][nb].clone();
    let occ = match nb {
        0 => 0.0,
        1 => o1,
        _ => if o1 > o2 { o1 } else { o2 },
    };
    let i = stage(false);
    let sc = i.osc;
    let phi = real("phi", 1.0, 2e3);
    let est = flag("estimate");
    let al = Almanac::default();
    let (m, phi, est) = match choose("constructor", 4) {
        0 => (SolarPressure { phi, shadow_model: ShadowModel { light_source: SUN_J2000, shadow_bodies: bodies }, estimate: est }, phi, est),
        1 => (SolarPressure::with_flux(phi, bodies, &al).unwrap().as_ref().clone(), phi, true),
        2 => (SolarPressure::default_no_estimation(bodies, &al).unwrap().as_ref().clone(), 1367.0, false),
        _ => (SolarPressure::new(bodies, &al).unwrap().as_ref().clone(), 1367.0, true),
    };
    let f = m.eom(&sc, &al).unwrap();
    let rs = sc.orbit.radius_km - s;
    let n = (rs[0] * rs[0] + rs[1] * rs[1] + rs[2] * rs[2]).sqrt();
    let au = 149_597_870.700;
    let c = 299_792_458.0;
    let want = Vector3::from_fn(|k, _| 1e-3 * (1.0 - occ / 100.0) * phi / c * sc.srp.coeff_reflectivity * sc.srp.area_m2 * (au * au) / (n * n * n) * rs[k]);
    eq_v3("SRP pushes away from the Sun with flux/c (AU/d)^2 Cr A, scaled by the lit fraction", &f, &want);
    let (fx, g) = m.gradient(&sc, &al).unwrap();
    eq_v3("the gradient's force is the force", &fx, &f);
    for r in 0..3 {
        for c in 0..3 {
            ensures_eq(&format!("SRP partial wrt position [{r},{c}]"), g[(r, c)], deriv(want[r], &format!("x{c}")));
        }
        ensures_eq(&format!("SRP partial wrt Cr [{r}]"), g[(3, r)], deriv(want[r], "x6"));
    }
    ensures("estimated parameter is Cr iff asked", m.estimation_index() == if est { Some(6) } else { None });
    cover("srp");
}
fn point_masses() {
    bounded("at most two perturbing bodies (any number is the same loop body)");
    trust("third bodies are at arbitrary positions with arbitrary gravitational parameters, seen in the integration axes");
    const IDS: [i32; 2] = [301, 10];
    let mus = [real("mu1", 1.0, 1e12), real("mu2", 1.0, 1e12)];
    let ps: [Vector3<f64>; 2] = [v3("p", 1e6), v3("q", 1e9)];
    anise::nvhook::install(move |k| {
        k.frame_info = Some(Rc::new(move |u| {
            let f: Frame = u.into();
            let b = IDS.iter().position(|id| f.ephemeris_id == *id)?;
            Some(f.with_mu_km3_s2(mus[b]))
        }));
        k.transform = Some(Rc::new(move |t, o, e| {
            let b = IDS.iter().position(|id| t.ephemeris_id == *id)?;
            Some(Orbit { radius_km: ps[b], velocity_km_s: Vector3::zeros(), epoch: e, frame: o })
        }));
    });
    let i = stage(false);
    let al = Almanac::default();
    let o = i.osc.orbit;
    let one = |id: i32| {
        let m = PointMasses::new(vec![id]);
        (m.eom(&o, &al).unwrap(), m.gradient(&o, &al).unwrap())
    };
    match choose("bodies", 5) {
        k @ (0 | 1) => {
            let (got, (fx, g)) = one(IDS[k]);
            let want = grav(mus[k], &(o.radius_km - ps[k])) + grav(mus[k], &ps[k]);
            eq_v3("direct plus indirect third-body acceleration", &got, &want);
            eq_v3("the gradient's acceleration is the acceleration", &fx, &got);
            for r in 0..3 {
                for c in 0..3 {
                    ensures_eq(&format!("third-body partial wrt position [{r},{c}]"), g[(r, c)], deriv(want[r], &format!("x{c}")));
                }
            }
        }
        k => {
            let list: &[i32] = [&[301, 10][..], &[399, 301], &[399]][k - 2];
            let m = PointMasses::new(list.to_vec());
            let (mut a, mut f, mut g) = (Vector3::zeros(), Vector3::zeros(), Matrix3::zeros());
            for id in list.iter().filter(|x| **x != 399) {
                let (x, (y, z)) = one(*id);
                a += x;
                f += y;
                g += z;
            }
            eq_v3("the bodies add up and the central body is not counted twice", &m.eom(&o, &al).unwrap(), &a);
            let (mf, mg) = m.gradient(&o, &al).unwrap();
            eq_v3("same in the gradient", &mf, &f);
            eq_mat("gradients add up", &mg, &g);
        }
    }
    cover("point masses");
}
fn drag() {
    trust("the drag frame is an arbitrary rotation of the integration frame with an arbitrary transport velocity");
    let q = sym_mat::<3, 3>("q", 1.0);
    let w = v3("w", 1.0);
    let req = real("Req", 1.0, 1e5);
    anise::nvhook::install(move |k| {
        // drag frame: v_drag = q^T (v - w)
        k.transform_to = Some(Rc::new(move |mut o, f| {
            if f.orientation_id == IAU_EARTH_FRAME.orientation_id && o.frame.orientation_id != f.orientation_id {
                o.radius_km = q.transpose() * o.radius_km;
                o.velocity_km_s = q.transpose() * (o.velocity_km_s - w);
                o.frame = f;
            }
            Some(o)
        }));
        k.rotate = Some(Rc::new(move |from, to, _| {
            Some(DCM { rot_mat: if from.orientation_id == to.orientation_id { Matrix3::identity() } else { q }, from: from.orientation_id, to: to.orientation_id, rot_mat_dt: None })
        }));
    });
    let i = stage(false);
    let sc = i.osc;
    let same = flag("same axes");
    let mut fr = if same { EARTH_J2000 } else { IAU_EARTH_FRAME };
    fr.shape = Some(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_sphere(req));
    let al = Almanac::default();
    let (r, v) = if same { (sc.orbit.radius_km, sc.orbit.velocity_km_s) } else { (q.transpose() * sc.orbit.radius_km, q * (q.transpose() * (sc.orbit.velocity_km_s - w))) };
    let rn = (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt();
    let vn = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    let est = flag("estimate");
    let model = choose("model", 4);
    if model == 3 {
        let rho = real("rho", 0.0, 1.0);
        let d = ConstantDrag { rho, frame: fr, estimate: est };
        let got = d.eom(&sc, &al).unwrap();
        for k in 0..3 {
            ensures_eq(&format!("constant drag opposes the velocity relative to the drag frame [{k}]"), got[k], -0.5 * 1e3 * rho * sc.drag.coeff_drag * sc.drag.area_m2 * vn * v[k]);
        }
        ensures("constant drag partials are refused", d.gradient(&sc, &al).is_err());
        ensures("estimated parameter is Cd iff asked", d.estimation_index() == if est { Some(7) } else { None });
        cover("constant drag");
        return;
    }
    let (density, rho) = match model {
        0 => {
            let rho = real("rho", 0.0, 1.0);
            (AtmDensity::Constant(rho), rho)
        }
        1 => {
            let (rho0, r0, h) = (real("rho0", 0.0, 1.0), real("r0", 1.0, 1e6), real("H", 1.0, 1e6));
            (AtmDensity::Exponential { rho0, r0, ref_alt_m: h }, rho0 * (-((rn - req) * 1e3 - r0) / h).exp())
        }
        _ => {
            let max = real("max", 0.0, 1e7);
            let alt = rn - req;
            let p = if alt > max / 1_000.0 {
                (-7e-5) * alt - 14.464
            } else {
                let s = (alt - 526.8000) / 292.8563;
                0.34047 * s.powi(6) - 0.5889 * s.powi(5) - 0.5269 * s.powi(4) + 1.0036 * s.powi(3) + 0.60713 * s.powi(2) - 2.3024 * s - 12.575
            };
            (AtmDensity::StdAtm { max_alt_m: max }, 10.0f64.powf(p))
        }
    };
    let d = Drag { density, frame: fr, estimate: est };
    let got = d.eom(&sc, &al).unwrap();
    for k in 0..3 {
        ensures_eq(&format!("drag opposes the velocity relative to the drag frame [{k}]"), got[k], -0.5 * 1e3 * rho * sc.drag.coeff_drag * sc.drag.area_m2 * vn * v[k]);
    }
    ensures("drag partials are refused", d.gradient(&sc, &al).is_err());
    ensures("estimated parameter is Cd iff asked", d.estimation_index() == if est { Some(7) } else { None });
    cover("drag");
}
// ---- gravity field and solid tides -----------------------------------------------------------
fn fact(n: usize) -> f64 {
    (1..=n).map(|k| k as f64).product()
}
/// m-th derivative of the Legendre polynomial P_n at u
fn legendre(n: usize, m: usize, u: f64) -> f64 {
    let mut a = 0.0;
    for k in 0..=n / 2 {
        let e = n - 2 * k;
        if e >= m {
            let c = (if k % 2 == 0 { 1.0 } else { -1.0 }) * fact(2 * n - 2 * k) / (2f64.powi(n as i32) * fact(k) * fact(n - k) * fact(e)) * fact(e) / fact(e - m);
            let mut t = c;
            for _ in 0..e - m {
                t = t * u;
            }
            a = a + t;
        }
    }
    a
}
/// normalised solid harmonics: value of the (cos, sin) terms of degree n, order m at the unit vector
fn harmonic(n: usize, m: usize, s: f64, t: f64, u: f64) -> (f64, f64) {
    let nn = ((if m == 0 { 1.0 } else { 2.0 }) * (2 * n + 1) as f64 * fact(n - m) / fact(n + m)).sqrt();
    let (mut re, mut im) = (1.0, 0.0);
    for _ in 0..m {
        (re, im) = (s * re - t * im, s * im + t * re);
    }
    let a = nn * legendre(n, m, u);
    (a * re, a * im)
}
/// potential of one normalised coefficient pair, at a position in the body frame
fn potential(mu: f64, req: f64, n: usize, m: usize, c: f64, s: f64, r: &Vector3<f64>) -> f64 {
    let rn = (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt();
    let (hc, hs) = harmonic(n, m, r[0] / rn, r[1] / rn, r[2] / rn);
    let mut q = mu / rn;
    for _ in 0..n {
        q = q * req / rn;
    }
    q * (c * hc + s * hs)
}
fn body_frame(mu: f64, req: f64, local: Vector3<f64>, q: Matrix3<f64>) -> Frame {
    trust("the body-fixed frame is an arbitrary linear map of the integration axes");
    anise::nvhook::install(move |k| {
        k.transform_to = Some(Rc::new(move |mut o, f| {
            o.radius_km = local;
            o.frame = f;
            Some(o)
        }));
        k.rotate = Some(Rc::new(move |from, to, _| {
            Some(DCM { rot_mat: if from.orientation_id == IAU_EARTH_FRAME.orientation_id { q } else { q.transpose() }, from: from.orientation_id, to: to.orientation_id, rot_mat_dt: None })
        }));
    });
    let mut fr = IAU_EARTH_FRAME.with_mu_km3_s2(mu);
    fr.shape = Some(anise::structure::planetocentric::ellipsoid::Ellipsoid::from_sphere(req));
    fr
}
fn one_coeff(deg: usize, ord: usize, n: usize, m: usize, c: f64, s: f64, fr: Frame) -> Arc<GravityField> {
    let mut cm = nalgebra::DMatrix::from_element(deg + 1, deg + 1, 0.0);
    let mut sm = cm.clone();
    cm[(n, m)] = c;
    sm[(n, m)] = s;
    GravityField::new(GravityFieldData::nv_from_coeffs(ord, cm, sm, fr))
}
const NDEG: usize = 8;
fn nth_nm(mut k: usize) -> (usize, usize) {
    let mut n = 1;
    while k > n {
        k -= n + 1;
        n += 1;
    }
    (n, k)
}
fn gravity_term() {
    bounded("each coefficient up to degree and order 8 in fields up to degree 8 (the recursion is the same for every degree)");
    let (mu, req) = (real("mu", 1.0, 1e6), real("Req", 1.0, 1e5));
    let l = v3("l", 1e5);
    assume_lt(0.0, l[0]);
    let fr = body_frame(mu, req, l, Matrix3::identity());
    let (n, m) = nth_nm(choose("nm", (NDEG + 1) * (NDEG + 2) / 2 - 1));
    let big = flag("larger field");
    let (deg, ord) = if big { (NDEG, NDEG.min(m + 1)) } else { (n, m) };
    let (c, s) = (real("C", -1.0, 1.0), if m == 0 { 0.0 } else { real("S", -1.0, 1.0) });
    let g = one_coeff(deg, ord, n, m, c, s, fr);
    let o = sym_orbit("o", ep(0.0), EARTH_J2000);
    let al = Almanac::default();
    let got = g.eom(&o, &al).unwrap();
    let u = potential(mu, req, n, m, c, s, &l);
    let want = Vector3::from_fn(|k, _| deriv(u, &format!("l{k}")));
    eq_v3("acceleration is the gradient of the potential", &got, &want);
    {
        let (fx, gr) = g.gradient(&o, &al).unwrap();
        eq_v3("the gradient's acceleration is the acceleration", &fx, &got);
        for r in 0..3 {
            for k in 0..3 {
                ensures_eq(&format!("partial wrt position [{r},{k}]"), gr[(r, k)], deriv(got[r], &format!("l{k}")));
            }
        }
    }
    cover("gravity term");
}
fn gravity_field() {
    bounded("fields up to degree 3");
    let (mu, req) = (real("mu", 1.0, 1e6), real("Req", 1.0, 1e5));
    let l = v3("l", 1e5);
    assume_lt(0.0, l[0]);
    let q = sym_mat::<3, 3>("q", 1.0);
    let fr = body_frame(mu, req, l, q);
    let o = sym_orbit("o", ep(0.0), EARTH_J2000);
    let al = Almanac::default();
    let (deg, ord) = [(2, 0), (2, 2), (3, 1), (3, 3)][choose("size", 4)];
    let (mut cm, mut sm) = (nalgebra::DMatrix::from_element(deg + 1, deg + 1, 0.0), nalgebra::DMatrix::from_element(deg + 1, deg + 1, 0.0));
    let (mut want, mut wantg) = (Vector3::zeros(), Matrix3::zeros());
    let i3 = Matrix3::identity();
    let mut lin = vec![];
    for n in 1..=deg {
        for m in 0..=n {
            cm[(n, m)] = real(&format!("C{n}{m}"), -1.0, 1.0);
            sm[(n, m)] = real(&format!("S{n}{m}"), -1.0, 1.0);
            if m <= ord {
                lin.push((n, m));
            }
        }
    }
    body_frame(mu, req, l, i3);
    for (n, m) in lin {
        let g = one_coeff(deg, ord, n, m, cm[(n, m)], sm[(n, m)], fr);
        let (f, gr) = g.gradient(&o, &al).unwrap();
        want += f;
        wantg += gr;
    }
    body_frame(mu, req, l, q);
    let g = GravityField::new(GravityFieldData::nv_from_coeffs(ord, cm, sm, fr));
    let got = g.eom(&o, &al).unwrap();
    let (fx, gr) = g.gradient(&o, &al).unwrap();
    eq_v3("coefficients up to the order add up, rotated to the integration frame", &got, &(q * want));
    eq_v3("same in the gradient", &fx, &got);
    eq_mat("partials add up and are rotated on both sides", &gr, &(q * wantg * q.transpose()));
    ensures("degree and order are reported", g.to_string().contains(&format!("{ord}x{deg}")));
    cover("gravity field");
}
/// coefficients of a file are those of the field, up to the requested degree and order (concrete files)
fn gravity_load() {
    bounded("files of degree 4 with one coefficient value per sign combination");
    anise::nvhook::install(|k| k.frame_info = Some(Rc::new(|u| Some(u.into()))));
    let cof = flag("cof");
    let cfg = flag("from configuration");
    let (deg, ord) = [(2, 0), (2, 2), (3, 1), (4, 4), (4, 2)][choose("size", 5)];
    let val = |n: usize, m: usize| {
        let c = (1.0 + n as f64 + 0.125 * m as f64) * 1e-6 * if (n + m) % 2 == 0 { 1.0 } else { -1.0 };
        let s = if m == 0 { 0.0 } else { (2.0 + n as f64 * 0.25 + m as f64) * 1e-7 * if (n + m) % 3 == 0 { 1.0 } else { -1.0 } };
        (c, s)
    };
    let num = |x: f64| {
        let s = format!("{x:.12e}");
        let (m, e) = s.split_once('e').unwrap();
        format!("{m}e-0{}", &e[1..])
    };
    let mut txt = String::new();
    txt += if cof { "COMMENT 1\n  header\n" } else { "6378.0, 398600.0, 0.0, 4, 4, 1\n" };
    for n in 2..=4 {
        for m in 0..=n {
            let (c, s) = val(n, m);
            if cof {
                let sp = if m == 0 { String::new() } else { format!("{}{}", if s < 0.0 { "" } else { " " }, num(s)) };
                txt += &format!("RECOEF {n:4} {m:2}   {}{}{sp}\n", if c < 0.0 { "" } else { " " }, num(c));
            } else {
                txt += &format!("{n}, {m}, {}, {}, 0.0, 0.0\n", num(c).replace('e', "D"), if s == 0.0 { "0.0D0".to_string() } else { num(s).replace('e', "D") });
            }
        }
    }
    if cof {
        txt += "END\n";
    }
    let path = std::env::temp_dir().join(format!("nv_grav_{}_{}.{}", std::process::id(), deg * 100 + ord * 10 + cfg as usize, if cof { "cof" } else { "tab" }));
    std::fs::write(&path, txt).unwrap();
    let al = Almanac::default();
    let got = if cfg {
        GravityFieldData::from_config(nyx_space::io::gravity::GravityFieldConfig { degree: deg, order: ord, filepath: path.clone(), gunzipped: false, frame: IAU_EARTH_FRAME.into() }, &al)
    } else if cof {
        GravityFieldData::from_cof(&path, deg, ord, false, IAU_EARTH_FRAME)
    } else {
        GravityFieldData::from_shadr(&path, deg, ord, false, IAU_EARTH_FRAME)
    };
    let missing = GravityFieldData::from_shadr(path.with_extension("missing"), deg, ord, false, IAU_EARTH_FRAME);
    std::fs::remove_file(&path).unwrap();
    ensures("a missing file is an error", missing.is_err());
    let g = got.unwrap();
    ensures("degree as requested", g.max_degree_n() == deg);
    ensures("order at least as requested", g.max_order_m() >= ord && g.max_order_m() <= deg);
    ensures("frame as requested", g.frame == IAU_EARTH_FRAME);
    for n in 2..=deg {
        for m in 0..=n {
            let (c, s) = if m <= ord { val(n, m) } else { (0.0, 0.0) };
            let (gc, gs) = g.cs_nm(n, m);
            ensures(&format!("coefficient [{n},{m}] is that of the file"), (gc - c).abs() < 1e-17 && (gs - s).abs() < 1e-17);
        }
    }
    cover("loaded");
}
fn j2_field() {
    let (mu, req, j2) = (real("mu", 1.0, 1e6), real("Req", 1.0, 1e5), real("j2", -1.0, 1.0));
    let l = v3("l", 1e5);
    assume_lt(0.0, l[0]);
    let fr = body_frame(mu, req, l, Matrix3::identity());
    let o = sym_orbit("o", ep(0.0), EARTH_J2000);
    let al = Almanac::default();
    let g = GravityField::new(GravityFieldData::from_j2(j2, fr));
    let w = one_coeff(2, 0, 2, 0, j2, 0.0, fr);
    eq_v3("a J2 field is the field of that single coefficient", &g.eom(&o, &al).unwrap(), &w.eom(&o, &al).unwrap());
    cover("j2");
}
fn solid_tides() {
    trust("tidal bodies are at arbitrary positions off the pole");
    let (mu, req) = (real("mu", 1.0, 1e6), real("Req", 1.0, 1e5));
    let l = v3("l", 1e5);
    assume_lt(0.0, l[0]);
    let q = sym_mat::<3, 3>("q", 1.0);
    let fr = body_frame(mu, req, l, q);
    let (k2, k3) = (real("k2", 0.0, 1.0), real("k3", 0.0, 1.0));
    let mus = [real("mu1", 1.0, 1e6), real("mu2", 1.0, 1e12)];
    // distance, latitude and longitude of the tidal bodies
    let sph = [("p", 1e6), ("w", 1e9)].map(|(n, d)| {
        let (r, phi, lam) = (real(&format!("{n}.r"), 1e3, d), real(&format!("{n}.phi"), -1.5, 1.5), real(&format!("{n}.lam"), -3.1, 3.1));
        assume_lt(0.01, phi.cos());
        (r, phi, lam)
    });
    let ps: [Vector3<f64>; 2] = sph.map(|(r, phi, lam)| Vector3::new(r * phi.cos() * lam.cos(), r * phi.cos() * lam.sin(), r * phi.sin()));
    const IDS: [i32; 2] = [301, 10];
    anise::nvhook::install(move |k| {
        k.transform = Some(Rc::new(move |t, o, e| {
            let b = IDS.iter().position(|id| t.ephemeris_id == *id)?;
            Some(Orbit { radius_km: ps[b], velocity_km_s: Vector3::zeros(), epoch: e, frame: o })
        }));
    });
    let frames = [MOON_J2000.with_mu_km3_s2(mus[0]), SUN_J2000.with_mu_km3_s2(mus[1])];
    let pert = |b: usize, d3: bool| TidalPerturber { frame: frames[b], compute_degree_3: d3 };
    let tides = |ps: Vec<TidalPerturber>| SolidTides { frame: fr, k2, k3, perturbers: ps };
    let o = sym_orbit("o", ep(0.0), EARTH_J2000);
    let al = Almanac::default();
    let d3 = flag("degree 3");
    match choose("case", 2) {
        0 => {
            // reference: the gravity field of the tidal coefficients of IERS 2010, eq. 6.6
            let (pn, phi, lam) = sph[0];
            let deg = if d3 { 3 } else { 2 };
            let (mut cm, mut sm) = (nalgebra::DMatrix::from_element(deg + 1, deg + 1, 0.0), nalgebra::DMatrix::from_element(deg + 1, deg + 1, 0.0));
            for n in 2..=deg {
                let k = [k2, k3][n - 2] / (2 * n + 1) as f64 * mus[0] / mu;
                let mut x = k * req / pn;
                for _ in 0..n {
                    x = x * req / pn;
                }
                for m in 0..=n {
                    let (hc, hs) = harmonic(n, m, phi.cos() * lam.cos(), phi.cos() * lam.sin(), phi.sin());
                    cm[(n, m)] = x * hc;
                    sm[(n, m)] = x * hs;
                }
            }
            let t = tides(vec![pert(0, d3)]);
            let g = GravityField::new(GravityFieldData::nv_from_coeffs(deg, cm, sm, fr));
            let got = t.eom(&o, &al).unwrap();
            let want = g.eom(&o, &al).unwrap();
            eq_v3("tidal acceleration is that of the IERS tidal coefficients", &got, &want);
            let ((fx, gr), (_, wr)) = (t.gradient(&o, &al).unwrap(), g.gradient(&o, &al).unwrap());
            eq_v3("the gradient's acceleration is the acceleration", &fx, &got);
            eq_mat("tidal partials are those of the IERS tidal coefficients", &gr, &wr);
        }
        _ => {
            let one = |b: usize, d: bool| {
                let t = tides(vec![pert(b, d)]);
                (t.eom(&o, &al).unwrap(), t.gradient(&o, &al).unwrap())
            };
            let t = tides(vec![pert(0, d3), pert(1, false)]);
            let (a, b) = (one(0, d3), one(1, false));
            eq_v3("tidal bodies add up", &t.eom(&o, &al).unwrap(), &(a.0 + b.0));
            let (f, g) = t.gradient(&o, &al).unwrap();
            eq_v3("tidal bodies add up in the gradient", &f, &(a.1 .0 + b.1 .0));
            eq_mat("tidal partials add up", &g, &(a.1 .1 + b.1 .1));
        }
    }
    cover("tides");
}
pub fn list() -> Vec<Harness> {
    let h = |name: &'static str, property: &'static str, functions: &'static [&'static str], f: fn()| Harness { name, property, functions, f, may_panic: false };
    vec![
        h("dyn_compose", "P09", &["<SpacecraftDynamics as Dynamics>::eom", "OrbitalDynamics::eom"], dyn_compose),
        h("dyn_no_mu", "P09", &["OrbitalDynamics::eom"], dyn_no_mu),
        h("dyn_thrust", "P10", &["<SpacecraftDynamics as Dynamics>::eom"], dyn_thrust),
        h("dyn_thrust_stm", "P10", &["<SpacecraftDynamics as Dynamics>::eom"], dyn_thrust_stm),
        h("dyn_finally", "P10", &["<SpacecraftDynamics as Dynamics>::finally"], dyn_finally),
        h("srp", "P11", &["SolarPressure::eom", "SolarPressure::gradient"], srp),
        h("point_masses", "P11", &["PointMasses::eom", "PointMasses::gradient"], point_masses),
        h("drag", "P11", &["Drag::eom"], drag),
        h("gravity_term", "P14", &["GravityField::new", "GravityField::eom", "GravityField::gradient"], gravity_term),
        h("gravity_field", "P14", &["GravityField::eom", "GravityField::gradient"], gravity_field),
        h("gravity_load", "P14", &["GravityFieldData::from_cof", "GravityFieldData::from_shadr", "GravityFieldData::from_config"], gravity_load),
        h("j2_field", "P14", &["GravityFieldData::from_j2"], j2_field),
        h("solid_tides", "P14", &["SolidTides::eom", "TidalPerturber::compute_pert"], solid_tides),
        h("dyn_stm", "P12", &["SpacecraftDynamics::dual_eom", "OrbitalDynamics::dual_eom"], dyn_stm),
    ]
}
