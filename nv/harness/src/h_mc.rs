//! Monte Carlo: dispersed states, reproducible and resumable runs (P23).
use crate::common::*;
use crate::h_dyn::ArbAccel;
use crate::h_tgt::sequential;
use anise::almanac::Almanac;
use anise::analysis::event::{Condition, Event};
use anise::analysis::prelude::{OrbitalElement, ScalarExpr};
use anise::astro::orbit_gradient::OrbitGrad;
use anise::prelude::Orbit;
use nalgebra::{SMatrix, SVector, Vector3};
use nvrt::*;
use nyx_space::dynamics::{AccelModel, DynamicsError, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::mc::helpers::*;
use nyx_space::mc::{DispersedState, Distribution, MonteCarlo, MvnSpacecraft, Normal, Pcg64Mcg, StateDispersion};
use nyx_space::md::StateParameter;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::{Spacecraft, State};
use rand_pcg::rand_core::Rng;
use std::sync::Arc;

const CART: [OrbitalElement; 6] = [OrbitalElement::X, OrbitalElement::Y, OrbitalElement::Z, OrbitalElement::VX, OrbitalElement::VY, OrbitalElement::VZ];
fn params9() -> Vec<StateParameter> {
    let mut v: Vec<_> = CART.iter().map(|e| StateParameter::Element(*e)).collect();
    v.extend([StateParameter::Cr(), StateParameter::Cd(), StateParameter::PropMass()]);
    v
}
fn vec9(s: &Spacecraft) -> [f64; 9] {
    let (r, v) = (s.orbit.radius_km, s.orbit.velocity_km_s);
    [r[0], r[1], r[2], v[0], v[1], v[2], s.srp.coeff_reflectivity, s.drag.coeff_drag, s.mass.prop_mass_kg]
}
/// x = template + mean + L z, everything else is the template's
fn mc_sample() {
    bounded("the standard normal draws are those of two seeds; two consecutive samples");
    let template = sym_sc("t", ep(real("t0", -1e3, 1e3)), frame_mu(4e5));
    let l: SMatrix<f64, 9, 9> = sym_mat("L", 10.0);
    let mean: SVector<f64, 9> = sym_vec("mean", 10.0);
    let mut params = params9();
    params.push(StateParameter::DryMass());
    params.push(StateParameter::TotalMass());
    let g = MvnSpacecraft {
        template,
        dispersions: params.iter().map(|p| StateDispersion::zero_mean(*p, 1.0)).collect(),
        mean,
        sqrt_s_v: l,
        std_norm_distr: Normal::new(0.0, 1.0).unwrap(),
    };
    let mut rng = Pcg64Mcg::new(if flag("seed") { 3 } else { 42 });
    let mut rng2 = rng.clone();
    for _ in 0..2 {
        let d = g.sample(&mut rng);
        let z: [f64; 9] = std::array::from_fn(|_| g.std_norm_distr.sample(&mut rng2));
        let (x, x0) = (vec9(&d.state), vec9(&template));
        for i in 0..9 {
            let mut w = x0[i] + mean[i];
            for j in 0..9 {
                w += l[(i, j)] * z[j];
            }
            ensures_eq("a dispersed state is the template plus the mean plus a draw", x[i], w);
        }
        let t = template;
        ensures_eq("the epoch is not dispersed", secs(d.state.orbit.epoch), secs(t.orbit.epoch));
        ensures("the frame is not dispersed", d.state.orbit.frame == t.orbit.frame);
        ensures_eq("the dry mass is not dispersed", d.state.mass.dry_mass_kg, t.mass.dry_mass_kg);
        ensures_eq("the extra mass is not dispersed", d.state.mass.extra_mass_kg, t.mass.extra_mass_kg);
        ensures_eq("the areas are not dispersed", d.state.srp.area_m2, t.srp.area_m2);
        ensures_eq("the areas are not dispersed", d.state.drag.area_m2, t.drag.area_m2);
        ensures("the mode is not dispersed", d.state.mode == t.mode && d.state.thruster.is_none());
        ensures("every requested dispersion is reported", d.actual_dispersions.len() == params.len());
        for (i, (p, v)) in d.actual_dispersions.iter().enumerate() {
            ensures("the dispersions are reported in order", *p == params[i]);
            ensures_eq("template plus dispersion is the state", t.value(*p).unwrap() + v, d.state.value(*p).unwrap());
        }
        cover("sampled");
    }
}
fn standard(g: &MvnSpacecraft) {
    ensures("the draws are standard normal", g.std_norm_distr.mean() == 0.0 && g.std_norm_distr.std_dev() == 1.0);
}
fn check_l(g: &MvnSpacecraft, want: impl Fn(usize, usize) -> f64) {
    standard(g);
    for i in 0..9 {
        for j in 0..=i {
            let mut s = 0.0;
            for k in 0..9 {
                s += g.sqrt_s_v[(i, k)] * g.sqrt_s_v[(j, k)];
            }
            ensures_eq("the covariance of the draws is the requested one", s, want(i, j));
        }
    }
}
/// dispersions on the state variables themselves
fn mc_cartesian() {
    bounded("one, two or four dispersed variables at a time");
    let template = sym_sc("t", ep(0.0), frame_mu(4e5));
    let all = params9();
    let sets: [&[usize]; 14] = [&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[8], &[8, 6], &[2, 7], &[3, 0], &[7, 6], &[1, 8]];
    let set = sets[choose("set", sets.len())];
    let zero = flag("zero mean");
    let mut sig = [0.0; 9];
    let mut mu = [0.0; 9];
    let mut disp = vec![];
    for i in set {
        sig[*i] = real(&format!("sigma{i}"), 0.1, 10.0);
        mu[*i] = real(&format!("mu{i}"), -10.0, 10.0);
        disp.push(StateDispersion { param: all[*i], mean: Some(mu[*i]), std_dev: Some(sig[*i]) });
    }
    let z = StateDispersion::zero_mean(all[set[0]], sig[set[0]]);
    ensures("a zero mean dispersion", z.param == all[set[0]] && z.mean.unwrap_or(0.0) == 0.0);
    ensures_eq("the deviation of a zero mean dispersion", z.std_dev.unwrap(), sig[set[0]]);
    let g = if zero { MvnSpacecraft::zero_mean(template, disp) } else { MvnSpacecraft::new(template, disp) }.unwrap();
    for i in 0..9 {
        ensures_eq("the mean of the draws is the requested one", g.mean[i], if zero { 0.0 } else { mu[i] });
    }
    check_l(&g, |i, j| if i == j { sig[i] * sig[i] } else { 0.0 });
    cover("built");
}
/// dispersions on functions of the state: mapped back, the covariance is the requested one
fn mc_elements() {
    bounded("three orbits, six sets of dispersed elements, concrete deviations; covariances within 25 %");
    trust("accuracy of nalgebra's singular value decomposition (it is off by several percent on rare rank deficient covariances)");
    let f = frame_mu(398600.435436);
    let orbits = [(8191.93, 0.05, 12.85, 306.614, 314.19, 99.8877), (27000.0, 0.6, 63.4, 40.0, 270.0, 10.0), (42164.0, 0.01, 120.0, 200.0, 30.0, 350.0)];
    let o = orbits[choose("orbit", 3)];
    use OrbitalElement as E;
    let sets: [&[OrbitalElement]; 6] = [&[E::Rmag], &[E::RAAN], &[E::SemiMajorAxis, E::Inclination, E::RAAN, E::AoP], &[E::X, E::Vmag], &[E::SemiMajorAxis, E::Eccentricity], &[E::X, E::Y, E::Z, E::VX, E::VY, E::VZ]];
    let set = sets[choose("set", 6)];
    let mut template = Spacecraft { orbit: Orbit::keplerian(o.0, o.1, o.2, o.3, o.4, o.5, ep(0.0), f), ..Default::default() };
    template.mass.prop_mass_kg = 50.0;
    let sig = |k: usize, e: &OrbitalElement| if *e == E::Eccentricity { 1e-3 } else { 0.1 + 0.07 * k as f64 };
    let mut disp: Vec<_> = set.iter().enumerate().map(|(k, e)| StateDispersion { param: StateParameter::Element(*e), mean: Some(-0.02 * (k as f64 + 1.0)), std_dev: Some(sig(k, e)) }).collect();
    if flag("mass") {
        disp.insert(0, StateDispersion { param: StateParameter::PropMass(), mean: Some(0.3), std_dev: Some(2.0) });
    }
    let g = MvnSpacecraft::new(template, disp.clone()).unwrap();
    let grad = OrbitGrad::from(template.orbit);
    let rows: Vec<[f64; 6]> = set
        .iter()
        .map(|e| {
            let p = grad.partial_for(*e).unwrap();
            [p.wrt_x(), p.wrt_y(), p.wrt_z(), p.wrt_vx(), p.wrt_vy(), p.wrt_vz()]
        })
        .collect();
    let mut cov = [[0.0; 9]; 9];
    for i in 0..9 {
        for j in 0..9 {
            for k in 0..9 {
                cov[i][j] += g.sqrt_s_v[(i, k)] * g.sqrt_s_v[(j, k)];
            }
        }
    }
    for (a, ra) in rows.iter().enumerate() {
        let mut m = 0.0;
        for i in 0..6 {
            m += ra[i] * g.mean[i];
        }
        ensures_eq_tol("the mean of an element is the requested one", m, -0.02 * (a as f64 + 1.0), 1e-5, 1e-7);
        for (b, rb) in rows.iter().enumerate() {
            let mut c = 0.0;
            for i in 0..6 {
                for j in 0..6 {
                    c += ra[i] * cov[i][j] * rb[j];
                }
            }
            let want = if a == b { sig(a, &set[a]) * sig(a, &set[a]) } else { 0.0 };
            ensures_eq_tol("the covariance of the elements is the requested one", c, want, 0.0, 0.25 * sig(a, &set[a]) * sig(b, &set[b]));
        }
    }
    let w = if disp.len() > set.len() { 4.0 } else { 0.0 };
    ensures_eq_tol("the mass is dispersed independently", cov[8][8], w, 1e-9, 1e-9);
    for i in 0..8 {
        ensures_eq_tol("the mass is dispersed independently", cov[8][i], 0.0, 1e-9, 1e-9);
    }
    cover("built");
}
/// from a full covariance
fn mc_from_cov() {
    bounded("diagonal covariances with one or two variables, one dense covariance");
    let template = sym_sc("t", ep(0.0), frame_mu(4e5));
    let mean: SVector<f64, 9> = sym_vec("mean", 10.0);
    let mut cov = SMatrix::<f64, 9, 9>::zeros();
    let dense = flag("dense");
    if dense {
        let a = SMatrix::<f64, 9, 9>::from_fn(|i, j| ((i * 7 + j * 3) % 5) as f64 * 0.25 + if i == j { 1.5 } else { 0.0 });
        cov = a * a.transpose();
    } else {
        let k = choose("variable", 9);
        cov[(k, k)] = real("var", 0.1, 10.0);
    }
    let g = MvnSpacecraft::from_spacecraft_cov(template, cov, mean).unwrap();
    standard(&g);
    for i in 0..9 {
        ensures_eq("mean", g.mean[i], mean[i]);
        let s = g.dispersions[i].std_dev.unwrap();
        ensures("the dispersions are those of the state variables", g.dispersions[i].param == params9()[i]);
        ensures_eq_tol("the reported deviations square to the variances", s * s, cov[(i, i)], 1e-9, 0.0);
        for j in 0..9 {
            let mut c = 0.0;
            for k in 0..9 {
                c += g.sqrt_s_v[(i, k)] * g.sqrt_s_v[(j, k)];
            }
            ensures_eq_tol("the covariance of the draws is the requested one", c, cov[(i, j)], 1e-6, 1e-6);
        }
    }
    cover("built");
}
/// what cannot be dispersed is refused; so is a covariance that is not one
fn mc_refused() {
    let t = Spacecraft { orbit: Orbit::keplerian(8191.93, 0.05, 12.85, 306.614, 314.19, 99.8877, ep(0.0), frame_mu(398600.4)), ..Default::default() };
    let ro = [StateParameter::DryMass(), StateParameter::TotalMass(), StateParameter::Isp(), StateParameter::Thrust(), StateParameter::GuidanceMode(), StateParameter::BdotR()];
    let p = ro[choose("param", ro.len())];
    let mut d = vec![StateDispersion::zero_mean(p, 1.0)];
    if flag("with another") {
        d.insert(0, StateDispersion::zero_mean(StateParameter::Cr(), 1.0));
    }
    ensures("a parameter that is not a state variable is refused", MvnSpacecraft::new(t, d).is_err());
    let mut cov = SMatrix::<f64, 9, 9>::identity();
    cov[(4, 4)] = -real("neg", 0.1, 1.0);
    ensures("a covariance with a negative eigenvalue is refused", MvnSpacecraft::from_spacecraft_cov(t, cov, SVector::zeros()).is_err());
    cover("refused");
}
/// a distribution whose n-th draw is an arbitrary state
#[derive(Clone)]
struct Draw;
fn drawn(u: u64) -> Spacecraft {
    let mut sc = Spacecraft { orbit: Orbit::zero(frame_mu(0.0)), ..Default::default() };
    sc.orbit.radius_km = v3(&format!("r{u}"), 1e3);
    sc.orbit.velocity_km_s = v3(&format!("v{u}"), 10.0);
    sc.orbit.epoch = ep(0.0);
    sc.mass.dry_mass_kg = 100.0;
    sc
}
impl Distribution<DispersedState<Spacecraft>> for Draw {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> DispersedState<Spacecraft> {
        let u = rng.next_u64();
        DispersedState { state: drawn(u), actual_dispersions: vec![(StateParameter::Cr(), real(&format!("dcr{u}"), -1.0, 1.0))] }
    }
}
fn same_sc(label: &str, a: &Spacecraft, b: &Spacecraft) {
    eq_v3(&format!("{label}: position"), &a.orbit.radius_km, &b.orbit.radius_km);
    eq_v3(&format!("{label}: velocity"), &a.orbit.velocity_km_s, &b.orbit.velocity_km_s);
    ensures_eq(&format!("{label}: epoch"), secs(a.orbit.epoch), secs(b.orbit.epoch));
}
fn draws(seed: u128, skip: usize, n: usize) -> Vec<u64> {
    let mut r = Pcg64Mcg::new(seed);
    let mut v = vec![];
    for i in 0..skip + n {
        let u = r.next_u64();
        if i >= skip {
            v.push(u);
        }
    }
    v
}
fn mc(seed: u128) -> MonteCarlo<Spacecraft, Draw> {
    MonteCarlo::new(drawn(0), Draw, "nv".to_string(), Some(seed))
}
/// the states of a run are determined by the seed; resuming continues the same sequence
fn mc_generate() {
    bounded("up to three, or fifty, runs after up to three, or forty, skipped ones; three seeds");
    let seed = [0, 77, (5u128 << 100) + 3][choose("seed", 3)];
    let skip = [0, 1, 2, 3, 40][choose("skip", 5)];
    let n = [0, 1, 2, 3, 50][choose("runs", 5)];
    let m = mc(if flag("own seed") { seed } else { 12345 });
    let got = m.generate_states(skip, n, Some(seed));
    let want = draws(seed, skip, n);
    ensures("as many states as runs", got.len() == n);
    for (k, (i, d)) in got.iter().enumerate() {
        ensures("runs are numbered in order", *i == k);
        same_sc("the n-th state is the n-th draw of the seed", &d.state, &drawn(want[k]));
        cover("state");
    }
    if n > 0 {
        ensures("without a seed there are as many states", m.generate_states(skip, n, None).len() == n);
    }
}
/// an acceleration that is undefined below some plane
#[derive(Clone)]
struct Floor;
impl std::fmt::Display for Floor {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "floor")
    }
}
impl AccelModel for Floor {
    fn eom(&self, o: &Orbit, _: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
        if o.radius_km[2] < real("floor", -10.0, 10.0) {
            return Err(DynamicsError::FuelExhausted { sc: Box::new(Spacecraft::default()) });
        }
        Ok(Vector3::zeros())
    }
    fn gradient(&self, _: &Orbit, _: &Almanac) -> Result<(Vector3<f64>, nalgebra::Matrix3<f64>), DynamicsError> {
        unreachable!()
    }
}
fn prop(acc: Vec<Arc<dyn AccelModel + Sync>>) -> Propagator<SpacecraftDynamics> {
    Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::new(acc)), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(dur(100.0)))
}
/// each result is the propagation of its own dispersed state
fn mc_runs() {
    bounded("up to three runs of one and a half steps");
    sequential();
    let al = Arc::new(Almanac::default());
    let skip = choose("skip", 3);
    let n = 1 + choose("runs", 3);
    let end = ep(150.0);
    let acc = || -> Vec<Arc<dyn AccelModel + Sync>> { vec![Arc::new(ArbAccel(0))] };
    let res = if skip == 0 { mc(5).run_until_epoch(prop(acc()), al.clone(), end, n) } else { mc(5).resume_run_until_epoch(prop(acc()), al.clone(), skip, end, n) };
    let want = draws(5, skip, n);
    ensures("one result per run", res.runs.len() == n);
    for (k, run) in res.runs.iter().enumerate() {
        ensures("results are sorted by run", run.index == k);
        let s0 = drawn(want[k]);
        same_sc("a run reports its dispersed state", &run.dispersed_state.state, &s0);
        let r = run.result.as_ref().ok().unwrap();
        let (s, t) = prop(acc()).with(s0, al.clone()).until_epoch_with_traj(end).unwrap();
        same_sc("a run is the propagation of its dispersed state", &r.state, &s);
        ensures("a run has its trajectory", r.traj.states.len() == t.states.len());
        for (a, b) in r.traj.states.iter().zip(&t.states) {
            same_sc("a run has its trajectory", a, b);
        }
        cover("run");
    }
}
/// stopping on events, with failing runs; and reports
fn mc_events() {
    bounded("two runs of up to three steps");
    sequential();
    trust("assumed contract of anise::analysis::brent_solver: given a sign change between its two epochs it returns an epoch between them at which the function is zero");
    anise::nvhook::install(|k| {
        k.brent = Some(std::rc::Rc::new(|_, a, b| {
            let (a, b) = (secs(a), secs(b));
            Some(ep(a + (b - a) * uf("root", &[a, b], 0.1, 0.9)))
        }))
    });
    let al = Arc::new(Almanac::default());
    let trigger = 1;
    let ev = Event { scalar: ScalarExpr::Element(OrbitalElement::X), condition: Condition::Equals(real("c", -10.0, 10.0)), epoch_precision: hifitime::Unit::Second * 0.1, ab_corr: None };
    let max = dur(250.0);
    let resumed = flag("resumed");
    let res = if resumed { mc(5).resume_run_until_nth_event(prop(vec![]), al.clone(), 1, max, &ev, trigger, 2) } else { mc(5).run_until_nth_event::<_, ()>(prop(vec![]), al.clone(), max, &ev, trigger, 2) };
    ensures("one result per run", res.runs.len() == 2);
    for (k, run) in res.runs.iter().enumerate() {
        ensures("results are sorted by run", run.index == k);
        same_sc("a run reports its dispersed state", &run.dispersed_state.state, &drawn(draws(5, resumed as usize, 2)[k]));
        let want = prop(vec![]).with(run.dispersed_state.state, al.clone()).until_nth_event(max, &ev, None, trigger);
        ensures("a run fails if and only if its propagation does", run.result.is_ok() == want.is_ok());
        if let (Ok(a), Ok(b)) = (&run.result, &want) {
            same_sc("a run stops at the event of its own propagation", &a.state, &b.0);
            ensures("a run has its trajectory", a.traj.states.len() == b.1.states.len());
            for (x, y) in a.traj.states.iter().zip(&b.1.states) {
                same_sc("a run has its trajectory", x, y);
            }
            cover("event found");
        } else {
            cover("event not found");
        }
    }
}
fn mc_reports() {
    bounded("three runs of one step");
    sequential();
    let al = Arc::new(Almanac::default());
    let end = ep(100.0);
    let res = mc(9).run_until_epoch(prop(vec![Arc::new(Floor)]), al.clone(), end, 3);
    let fill = if flag("fill") { Some(real("fill", -1.0, 1.0)) } else { None };
    let x = StateParameter::Element(OrbitalElement::Y);
    let mut first = vec![];
    let mut last = vec![];
    let mut every = vec![];
    let mut between = vec![];
    let mut un = vec![];
    for run in &res.runs {
        match &run.result {
            Ok(r) => {
                first.push(run.dispersed_state.state.orbit.radius_km[1]);
                last.push(r.state.orbit.radius_km[1]);
                every.extend(r.traj.every(dur(60.0)).map(|s| s.orbit.radius_km[1]));
                between.extend(r.traj.every_between(dur(10.0), ep(20.0), ep(45.0)).map(|s| s.orbit.radius_km[1]));
                un.extend(fill);
                cover("a run succeeds");
            }
            Err(_) => {
                for l in [&mut first, &mut last, &mut every, &mut between, &mut un] {
                    l.extend(fill);
                }
                cover("a run fails");
            }
        }
    }
    let isp = StateParameter::Isp();
    for (what, got, want) in [
        ("first values", res.first_values_of(x, fill), &first),
        ("last values", res.last_values_of(x, fill), &last),
        ("every value", res.every_value_of(x, dur(60.0), fill), &every),
        ("every value between", res.every_value_of_between(x, dur(10.0), ep(20.0), ep(45.0), fill), &between),
        ("first values of a missing parameter", res.first_values_of(isp, fill), &un),
        ("last values of a missing parameter", res.last_values_of(isp, fill), &un),
    ] {
        ensures(&format!("{what}: one value per state, or the filler of failed runs"), got.len() == want.len());
        for (a, b) in got.iter().zip(want) {
            ensures_eq(&format!("{what}: in the order of the runs"), *a, *b);
        }
    }
    let d = res.dispersion_values_of(StateParameter::Cr()).ok().unwrap();
    ensures("one dispersion per run", d.len() == 3);
    for (k, u) in draws(9, 0, 3).iter().enumerate() {
        ensures_eq("dispersions in the order of the runs", d[k], real(&format!("dcr{u}"), -1.0, 1.0));
    }
    ensures("a parameter that was not dispersed is an error", res.dispersion_values_of(StateParameter::Cd()).is_err());
}
/// random directions are unit vectors; execution errors keep the direction
fn mc_helpers() {
    bounded("draws of eight seeds");
    let mut rng = Pcg64Mcg::new(choose("seed", 8) as u128);
    let u = unit_vector_from_seed(&mut rng);
    ensures_eq_tol("a random direction is a unit vector", u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1.0, 1e-12, 0.0);
    let e = real("error", -1.0, 2.0);
    let dv = Vector3::new(0.01, -0.02, 0.005);
    let p = Vector3::new(1.0, 2.0, -7.0);
    match dv_pointing_error(&p, dv, e, &mut rng) {
        Err(_) => {
            ensures("a pointing error between 0 and 1 is accepted", e < 0.0 || e >= 1.0);
            cover("refused");
        }
        Ok(_) => {
            ensures("a pointing error outside of 0 to 1 is refused", e >= 0.0 && e < 1.0);
            cover("accepted");
        }
    }
    ensures("a null maneuver is refused", dv_pointing_error(&p, Vector3::zeros(), 0.1, &mut rng).is_err());
    ensures("a null maneuver is refused", dv_execution_error(&p, Vector3::zeros(), 0.1, 0.1, &mut rng).is_err());
    // the magnitude error is a normal draw whose three sigma is the one asked for, along the maneuver
    let mag = real("magnitude error", 0.0, 0.01);
    let (mut r1, mut r2, mut r3) = (rng.clone(), rng.clone(), rng.clone());
    let base = dv_pointing_error(&p, dv, 0.1, &mut r1).ok().unwrap();
    let got = dv_execution_error(&p, dv, 0.1, mag, &mut r2).ok().unwrap();
    let _: f64 = rand_distr::StandardNormal.sample(&mut r3);
    let z: f64 = rand_distr::StandardNormal.sample(&mut r3);
    let n = (base[0] * base[0] + base[1] * base[1] + base[2] * base[2]).sqrt();
    for i in 0..3 {
        ensures_eq_tol("an execution error is along the maneuver, a third of its 3-sigma per sigma", got[i], base[i] + base[i] / n * (mag / 3.0) * z, 1e-12, 1e-9);
    }
}
pub fn list() -> Vec<Harness> {
    const MVN: &[&str] = &["MvnSpacecraft::new", "MvnSpacecraft::zero_mean"];
    const RUN: &[&str] = &["MonteCarlo::run_until_epoch", "MonteCarlo::resume_run_until_epoch", "MonteCarlo::generate_states"];
    vec![
        Harness { name: "mc_sample", property: "P23", functions: &["MvnSpacecraft::sample"], f: mc_sample, may_panic: false },
        Harness { name: "mc_cartesian", property: "P23", functions: MVN, f: mc_cartesian, may_panic: false },
        Harness { name: "mc_elements", property: "P23", functions: MVN, f: mc_elements, may_panic: false },
        Harness { name: "mc_from_cov", property: "P23", functions: &["MvnSpacecraft::from_spacecraft_cov"], f: mc_from_cov, may_panic: false },
        Harness { name: "mc_refused", property: "P23", functions: &["MvnSpacecraft::new", "MvnSpacecraft::from_spacecraft_cov"], f: mc_refused, may_panic: false },
        Harness { name: "mc_generate", property: "P23", functions: &["MonteCarlo::generate_states"], f: mc_generate, may_panic: false },
        Harness { name: "mc_runs", property: "P23", functions: RUN, f: mc_runs, may_panic: false },
        Harness { name: "mc_events", property: "P23", functions: &["MonteCarlo::run_until_nth_event", "MonteCarlo::resume_run_until_nth_event"], f: mc_events, may_panic: false },
        Harness { name: "mc_reports", property: "P23", functions: &["Results::every_value_of", "Results::every_value_of_between", "Results::first_values_of", "Results::last_values_of", "Results::dispersion_values_of"], f: mc_reports, may_panic: false },
        Harness { name: "mc_helpers", property: "P23", functions: &["unit_vector_from_seed", "dv_pointing_error", "dv_execution_error"], f: mc_helpers, may_panic: false },
    ]
}
