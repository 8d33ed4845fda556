//! Spacecraft state <-> vector representation.
use crate::common::*;
use nalgebra::{Const, OVector};
use nvrt::*;
use nyx_space::cosmic::{DragData, Mass, SRPData};
use nyx_space::{Spacecraft, State};

fn state_roundtrip() {
    let mut sc = sym_sc("sc", ep(real("t", -1e6, 1e6)), frame_mu(real("mu", 1.0, 1e6)));
    let with_stm = flag("stm");
    if with_stm {
        sc.stm = Some(sym_mat::<9, 9>("phi", 1e3));
    }
    let v = sc.to_vector();
    for i in 0..3 {
        ensures_eq("vector position", v[i], sc.orbit.radius_km[i]);
        ensures_eq("vector velocity", v[i + 3], sc.orbit.velocity_km_s[i]);
    }
    ensures_eq("vector Cr", v[6], sc.srp.coeff_reflectivity);
    ensures_eq("vector Cd", v[7], sc.drag.coeff_drag);
    ensures_eq("vector prop", v[8], sc.mass.prop_mass_kg);
    // any other vector, set into a state and read back
    let w: OVector<f64, Const<90>> = sym_vec::<90>("w", 1e3);
    let t1 = real("t1", -1e6, 1e6);
    let mut s2 = sc;
    s2.set(ep(t1), &w);
    cover("set");
    ensures_eq("epoch set", secs(s2.epoch()), t1);
    let r = s2.to_vector();
    for i in 0..9 {
        if i == 6 {
            ensures_eq("Cr is clamped", r[6], clamp02(w[6]));
        } else {
            ensures_eq(&format!("component {i} survives"), r[i], w[i]);
        }
    }
    if with_stm {
        for i in 9..90 {
            ensures_eq("stm survives", r[i], w[i]);
        }
    } else {
        ensures("no stm appears", s2.stm.is_none());
    }
    ensures_eq("dry", s2.mass.dry_mass_kg, sc.mass.dry_mass_kg);
    ensures_eq("extra", s2.mass.extra_mass_kg, sc.mass.extra_mass_kg);
}

fn same(l: &str, a: &Spacecraft, b: &Spacecraft) {
    eq_v3(&format!("{l}: position"), &a.orbit.radius_km, &b.orbit.radius_km);
    eq_v3(&format!("{l}: velocity"), &a.orbit.velocity_km_s, &b.orbit.velocity_km_s);
    ensures_eq(&format!("{l}: epoch"), secs(a.orbit.epoch), secs(b.orbit.epoch));
    ensures(&format!("{l}: frame"), a.orbit.frame == b.orbit.frame);
    for (n, x, y) in [
        ("dry mass", a.mass.dry_mass_kg, b.mass.dry_mass_kg),
        ("propellant", a.mass.prop_mass_kg, b.mass.prop_mass_kg),
        ("extra mass", a.mass.extra_mass_kg, b.mass.extra_mass_kg),
        ("SRP area", a.srp.area_m2, b.srp.area_m2),
        ("Cr", a.srp.coeff_reflectivity, b.srp.coeff_reflectivity),
        ("drag area", a.drag.area_m2, b.drag.area_m2),
        ("Cd", a.drag.coeff_drag, b.drag.coeff_drag),
    ] {
        ensures_eq(&format!("{l}: {n}"), x, y);
    }
    ensures(&format!("{l}: thruster"), a.thruster.is_some() == b.thruster.is_some());
    if let (Some(x), Some(y)) = (a.thruster, b.thruster) {
        ensures_eq(&format!("{l}: thrust"), x.thrust_N, y.thrust_N);
        ensures_eq(&format!("{l}: Isp"), x.isp_s, y.isp_s);
    }
    ensures(&format!("{l}: mode"), a.mode == b.mode);
    ensures(&format!("{l}: thrust direction"), a.thrust_direction().is_some() == b.thrust_direction().is_some());
    if let (Some(x), Some(y)) = (a.thrust_direction(), b.thrust_direction()) {
        eq_v3(&format!("{l}: thrust direction"), &x, &y);
    }
    ensures(&format!("{l}: stm"), a.stm.is_some() == b.stm.is_some());
    if let (Some(x), Some(y)) = (a.stm, b.stm) {
        for i in [0, 4, 40, 79, 80] {
            ensures_eq(&format!("{l}: stm"), x[i], y[i]);
        }
    }
}
/// each constructor takes its arguments and defaults for the rest; each builder changes its own fields only
fn state_builders() {
    let orbit = sym_orbit("o", ep(real("t", -1e6, 1e6)), frame_mu(real("mu", 1.0, 1e6)));
    let x = reals::<8>("x", 0.1, 10.0);
    let base = Spacecraft::default();
    let (m, srp, drag) = (Mass { dry_mass_kg: x[0], prop_mass_kg: x[1], extra_mass_kg: 0.0 }, SRPData { area_m2: x[2], coeff_reflectivity: x[4] }, DragData { area_m2: x[3], coeff_drag: x[5] });
    let want = Spacecraft { orbit, mass: m, srp, drag, ..base };
    same("new", &Spacecraft::new(orbit, x[0], x[1], x[2], x[3], x[4], x[5]), &want);
    same("from an orbit", &Spacecraft::from(orbit), &Spacecraft { orbit, ..base });
    let th = sym_thruster("th");
    let mode = MODES[choose("mode", 3)];
    same("from_thruster", &Spacecraft::from_thruster(orbit, x[0], x[1], th, mode), &Spacecraft { orbit, mass: m, thruster: Some(th), mode, ..base });
    let dry = Mass { dry_mass_kg: x[0], prop_mass_kg: 0.0, extra_mass_kg: 0.0 };
    same("from_srp_defaults", &Spacecraft::from_srp_defaults(orbit, x[0], x[2]), &Spacecraft { orbit, mass: dry, srp: SRPData { area_m2: x[2], coeff_reflectivity: 1.8 }, ..base });
    same("from_drag_defaults", &Spacecraft::from_drag_defaults(orbit, x[0], x[3]), &Spacecraft { orbit, mass: dry, drag: DragData { area_m2: x[3], coeff_drag: 2.2 }, ..base });
    ensures("a default spacecraft coasts, without mass, area, thruster or STM", base.mass.dry_mass_kg == 0.0 && base.mass.prop_mass_kg == 0.0 && base.mass.extra_mass_kg == 0.0 && base.srp.area_m2 == 0.0 && base.drag.area_m2 == 0.0 && base.thruster.is_none() && base.mode == MODES[0] && base.stm.is_none());
    // builders, on an arbitrary state
    let mut s = sym_sc("s", ep(real("ts", -1e6, 1e6)), frame_mu(real("mus", 1.0, 1e6)));
    s.thruster = Some(sym_thruster("ths"));
    s.mode = MODES[choose("mode before", 3)];
    if flag("stm") {
        s.stm = Some(sym_mat::<9, 9>("phi", 1e3));
    }
    let dv = v3("dv", 10.0);
    let mut w = s;
    w.orbit.velocity_km_s = s.orbit.velocity_km_s + dv;
    same("with_dv_km_s", &s.with_dv_km_s(dv), &w);
    same("with_dry_mass", &s.with_dry_mass(x[0]), &Spacecraft { mass: Mass { dry_mass_kg: x[0], ..s.mass }, ..s });
    same("with_prop_mass", &s.with_prop_mass(x[1]), &Spacecraft { mass: Mass { prop_mass_kg: x[1], ..s.mass }, ..s });
    same("with_srp", &s.with_srp(x[2], x[4]), &Spacecraft { srp, ..s });
    same("with_srp_area", &s.with_srp_area(x[2]), &Spacecraft { srp: SRPData { area_m2: x[2], ..s.srp }, ..s });
    same("with_cr", &s.with_cr(x[4]), &Spacecraft { srp: SRPData { coeff_reflectivity: x[4], ..s.srp }, ..s });
    same("with_drag", &s.with_drag(x[3], x[5]), &Spacecraft { drag, ..s });
    same("with_drag_area", &s.with_drag_area(x[3]), &Spacecraft { drag: DragData { area_m2: x[3], ..s.drag }, ..s });
    same("with_cd", &s.with_cd(x[5]), &Spacecraft { drag: DragData { coeff_drag: x[5], ..s.drag }, ..s });
    same("with_orbit", &s.with_orbit(orbit), &Spacecraft { orbit, ..s });
    same("with_guidance_mode", &s.with_guidance_mode(mode), &Spacecraft { mode, ..s });
    let mut c = s;
    c.mut_mode(mode);
    ensures("mut_mode", c.mode() == mode);
    let u = v3("u", 1.0);
    c.mut_thrust_direction(Some(u));
    eq_v3("thrust direction read back, as a unit vector", &c.thrust_direction().unwrap(), &(u / u.dot(&u).sqrt()));
    c.mut_thrust_direction(None);
    ensures("thrust direction removed", c.thrust_direction().is_none());
    ensures_eq("total mass", s.mass_kg(), s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg);
    let id = nalgebra::SMatrix::<f64, 9, 9>::identity();
    c = s;
    c.enable_stm();
    same("enable_stm", &c, &Spacecraft { stm: Some(id), ..s });
    same("with_stm", &s.with_stm(), &Spacecraft { stm: Some(id), ..s });
    c = s;
    c.reset_stm();
    same("reset_stm", &c, &Spacecraft { stm: Some(id), ..s });
    c.unset_stm();
    same("unset_stm", &c, &Spacecraft { stm: None, ..s });
    ensures("no STM to read", c.stm().is_err());
    ensures("STM to read", s.stm().is_ok() == s.stm.is_some());
    let t2 = real("t2", -1e6, 1e6);
    c = s;
    c.set_epoch(ep(t2));
    let mut o = s.orbit;
    o.epoch = ep(t2);
    same("set_epoch", &c, &Spacecraft { orbit: o, ..s });
    // adding a deviation
    let d = sym_vec::<9>("d", 1.0);
    let a = s.add(d);
    let mut w = s;
    for i in 0..3 {
        w.orbit.radius_km[i] = s.orbit.radius_km[i] + d[i];
        w.orbit.velocity_km_s[i] = s.orbit.velocity_km_s[i] + d[i + 3];
    }
    w.srp.coeff_reflectivity = clamp02(s.srp.coeff_reflectivity + d[6]);
    w.drag.coeff_drag = s.drag.coeff_drag + d[7];
    w.mass.prop_mass_kg = s.mass.prop_mass_kg + d[8];
    same("adding a deviation", &a, &w);
    cover("built");
}
/// distance between two states
fn state_rss() {
    let f = frame_mu(real("mu", 1.0, 1e6));
    let (a, b) = (sym_sc("a", ep(real("t", -1e6, 1e6)), f), sym_sc("b", ep(real("u", -1e6, 1e6)), f));
    let (p, v, m) = a.rss(&b).unwrap();
    let (dr, dv) = (a.orbit.radius_km - b.orbit.radius_km, a.orbit.velocity_km_s - b.orbit.velocity_km_s);
    for (n, x, y) in [("position", p, dr.dot(&dr)), ("velocity", v, dv.dot(&dv)), ("propellant", m, (a.mass.prop_mass_kg - b.mass.prop_mass_kg) * (a.mass.prop_mass_kg - b.mass.prop_mass_kg))] {
        ensures_le(&format!("the {n} distance is not negative"), 0.0, x);
        ensures_eq(&format!("the {n} distance is the norm of the difference"), x * x, y);
    }
    cover("distance");
}
/// a parameter that is set reads back as set, nothing else changes; what cannot be set or is unavailable is an error
fn state_params() {
    use anise::analysis::prelude::OrbitalElement as E;
    use nyx_space::md::StateParameter as P;
    let mut s = sym_sc("s", ep(real("t", -1e6, 1e6)), frame_mu(real("mu", 1.0, 1e6)));
    s.mode = MODES[choose("mode", 3)];
    let th = sym_thruster("th");
    let has = flag("thruster");
    if has {
        s.thruster = Some(th);
    }
    let v = real("v", 0.1, 10.0);
    for (n, p) in [("Cd", P::Cd()), ("Cr", P::Cr()), ("propellant", P::PropMass()), ("dry mass", P::DryMass()), ("X", P::Element(E::X)), ("Y", P::Element(E::Y)), ("Z", P::Element(E::Z)), ("VX", P::Element(E::VX)), ("VY", P::Element(E::VY)), ("VZ", P::Element(E::VZ)), ("Isp", P::Isp()), ("thrust", P::Thrust())] {
        let mut w = s;
        let mut avail = true;
        let was = match n {
            "Cd" => std::mem::replace(&mut w.drag.coeff_drag, v),
            "Cr" => std::mem::replace(&mut w.srp.coeff_reflectivity, v),
            "propellant" => std::mem::replace(&mut w.mass.prop_mass_kg, v),
            "dry mass" => std::mem::replace(&mut w.mass.dry_mass_kg, v),
            "X" => std::mem::replace(&mut w.orbit.radius_km.x, v),
            "Y" => std::mem::replace(&mut w.orbit.radius_km.y, v),
            "Z" => std::mem::replace(&mut w.orbit.radius_km.z, v),
            "VX" => std::mem::replace(&mut w.orbit.velocity_km_s.x, v),
            "VY" => std::mem::replace(&mut w.orbit.velocity_km_s.y, v),
            "VZ" => std::mem::replace(&mut w.orbit.velocity_km_s.z, v),
            "Isp" if has => std::mem::replace(&mut w.thruster.as_mut().unwrap().isp_s, v),
            "thrust" if has => std::mem::replace(&mut w.thruster.as_mut().unwrap().thrust_N, v),
            _ => {
                avail = false;
                0.0
            }
        };
        let mut c = s;
        ensures(&format!("{n} can be read iff it is available"), s.value(p).is_ok() == avail);
        ensures(&format!("{n} can be set iff it is available"), c.set_value(p, v).is_ok() == avail);
        if avail {
            ensures_eq(&format!("{n} reads as it is"), s.value(p).ok().unwrap(), was);
            ensures_eq(&format!("{n} reads back as set"), c.value(p).ok().unwrap(), v);
        }
        same(&format!("setting {n}"), &c, &w);
    }
    let mut c = s;
    ensures_eq("total mass", s.value(P::TotalMass()).ok().unwrap(), s.mass.dry_mass_kg + s.mass.prop_mass_kg + s.mass.extra_mass_kg);
    for p in [P::TotalMass(), P::Element(E::Period), P::Element(E::Energy), P::ThrustInPlane(nyx_space::dynamics::guidance::LocalFrame::VNC), P::BdotR(), P::Epoch()] {
        ensures("a derived parameter cannot be set", c.set_value(p, v).is_err());
    }
    same("refusing to set", &c, &s);
    let m = s.value(P::GuidanceMode()).ok().unwrap();
    ensures("the guidance mode reads back", nyx_space::cosmic::GuidanceMode::from(m) == s.mode);
    for p in [P::ThrustX(), P::ThrustY(), P::ThrustZ(), P::ThrustInPlane(nyx_space::dynamics::guidance::LocalFrame::VNC)] {
        ensures("no thrust direction to read", s.value(p).is_err());
    }
    // thrust direction, one component at a time, kept a unit vector
    let u = v3("u", 1.0);
    let k = choose("component", 3);
    c.mut_thrust_direction(Some(u));
    let d = c.thrust_direction().unwrap();
    let ps = [P::ThrustX(), P::ThrustY(), P::ThrustZ()];
    for i in 0..3 {
        ensures_eq("thrust component reads as it is", c.value(ps[i]).ok().unwrap(), d[i]);
    }
    ensures("a thrust component can be set", c.set_value(ps[k], v).is_ok());
    let mut e = d;
    e[k] = v;
    let mut w = s;
    w.mut_thrust_direction(Some(e));
    same("setting a thrust component", &c, &w);
    cover(if has { "thruster" } else { "no thruster" });
}
/// setting the distance or the speed keeps the direction
fn state_mag() {
    use anise::analysis::prelude::OrbitalElement as E;
    use nyx_space::md::StateParameter as P;
    let s = sym_sc("s", ep(real("t", -1e6, 1e6)), frame_mu(real("mu", 1.0, 1e6)));
    let v = real("v", 0.1, 10.0);
    let mut c = s;
    let speed = flag("speed");
    let (p, was) = if speed { (P::Element(E::Vmag), s.orbit.velocity_km_s) } else { (P::Element(E::Rmag), s.orbit.radius_km) };
    assume_lt(0.01, was.dot(&was));
    assume_ne(was[0], 0.0);
    ensures_eq("magnitude", s.value(p).ok().unwrap(), was.dot(&was).sqrt());
    ensures("a magnitude can be set", c.set_value(p, v).is_ok());
    let mut w = s;
    *(if speed { &mut w.orbit.velocity_km_s } else { &mut w.orbit.radius_km }) = was * (v / was.dot(&was).sqrt());
    same("setting a magnitude", &c, &w);
    cover(if speed { "speed" } else { "distance" });
}
/// thrust angles in a local frame are those of the thrust direction in that frame
fn state_angles() {
    use nyx_space::dynamics::guidance::{LocalFrame, plane_angles_from_unit_vector};
    use nyx_space::md::StateParameter as P;
    bounded("eight thrust directions on three orbits");
    let fr = [LocalFrame::VNC, LocalFrame::RCN, LocalFrame::RIC, LocalFrame::Inertial][choose("frame", 4)];
    let o = [[7000.0, 100.0, -2000.0, 1.0, 7.0, 0.5], [-1200.0, 8000.0, 300.0, -6.0, -1.0, 3.0], [200.0, -500.0, 9000.0, 5.0, 4.0, -1.0]][choose("orbit", 3)];
    let mut s = Spacecraft::from(anise::prelude::Orbit::new(o[0], o[1], o[2], o[3], o[4], o[5], ep(0.0), frame_mu(398600.0)));
    let (a, b) = ([0.3, 2.0, -0.7, -2.9, 1.2, -1.5, 3.0, 0.1][choose("direction", 8)], [0.2, -0.4, 1.1, -1.3, 0.0, 0.6, -0.9, 1.5][choose("direction", 8)]);
    let local = nalgebra::Vector3::new(f64::cos(a) * f64::cos(b), f64::sin(a) * f64::cos(b), f64::sin(b));
    s.mut_thrust_direction(Some(s.orbit.dcm_to_inertial(fr).unwrap().rot_mat * local));
    let (i, op) = s.thrust_angles_deg(fr).unwrap().unwrap();
    ensures_eq_tol("in-plane angle", i, f64::to_degrees(a), 1e-9, 1e-9);
    ensures_eq_tol("out of plane angle", op, f64::to_degrees(b), 1e-9, 1e-7);
    ensures_eq_tol("in-plane parameter", s.value(P::ThrustInPlane(fr)).ok().unwrap(), i, 1e-12, 0.0);
    ensures_eq_tol("out of plane parameter", s.value(P::ThrustOutOfPlane(fr)).ok().unwrap(), op, 1e-12, 0.0);
    let (x, y) = plane_angles_from_unit_vector(local);
    ensures_eq_tol("in-plane angle of a vector", x, a, 1e-9, 1e-9);
    ensures_eq_tol("out of plane angle of a vector", y, b, 1e-9, 1e-9);
    cover("angles");
}

pub fn list() -> Vec<Harness> {
    vec![
        Harness { name: "state_roundtrip", property: "P01", functions: &["cosmic::spacecraft::to_vector", "cosmic::spacecraft::set"], f: state_roundtrip, may_panic: false },
        Harness { name: "state_builders", property: "P01", functions: &["Spacecraft::new", "Spacecraft::from_thruster", "Spacecraft::from_srp_defaults", "Spacecraft::from_drag_defaults", "Spacecraft::with_*", "Spacecraft::add", "Spacecraft::reset_stm", "Spacecraft::set_epoch"], f: state_builders, may_panic: false },
        Harness { name: "state_params", property: "P01", functions: &["Spacecraft::value", "Spacecraft::set_value"], f: state_params, may_panic: false },
        Harness { name: "state_mag", property: "P01", functions: &["Spacecraft::set_value", "utils::cartesian_to_spherical", "utils::spherical_to_cartesian"], f: state_mag, may_panic: false },
        Harness { name: "state_angles", property: "P01", functions: &["Spacecraft::thrust_angles_deg", "guidance::plane_angles_from_unit_vector", "Spacecraft::value"], f: state_angles, may_panic: false },
        Harness { name: "state_rss", property: "P01", functions: &["Spacecraft::rss"], f: state_rss, may_panic: false },
    ]
}
