//! Symbolic inputs shared by the contracts.
use anise::prelude::{Frame, Orbit};
use hifitime::{Duration, Epoch};
use nalgebra::{SMatrix, SVector, Vector3};
use nvrt::*;
use nyx_space::cosmic::{DragData, GuidanceMode, Mass, SRPData};
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::Spacecraft;

pub fn dur(s: f64) -> Duration {
    Duration::nv_from_s(s)
}
pub fn ep(s: f64) -> Epoch {
    Epoch::from_tai_duration(dur(s))
}
/// seconds (TAI past the reference) of an epoch
pub fn secs(e: Epoch) -> f64 {
    e.to_tai_duration().nv_s()
}
pub fn frame_mu(mu: f64) -> Frame {
    anise::constants::frames::EARTH_J2000.with_mu_km3_s2(mu)
}
pub fn v3(name: &str, m: f64) -> Vector3<f64> {
    Vector3::from(reals::<3>(name, -m, m))
}
pub fn sym_orbit(name: &str, epoch: Epoch, frame: Frame) -> Orbit {
    Orbit {
        radius_km: v3(&format!("{name}.r"), 1e5),
        velocity_km_s: v3(&format!("{name}.v"), 20.0),
        epoch,
        frame,
    }
}
pub fn sym_mat<const R: usize, const C: usize>(name: &str, m: f64) -> SMatrix<f64, R, C> {
    SMatrix::from_fn(|i, j| real(&format!("{name}[{i}{j}]"), -m, m))
}
pub fn sym_vec<const R: usize>(name: &str, m: f64) -> SVector<f64, R> {
    SVector::from_fn(|i, _| real(&format!("{name}[{i}]"), -m, m))
}
pub const MODES: [GuidanceMode; 3] = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit];
/// spacecraft with every scalar symbolic (no thruster, no STM)
pub fn sym_sc(name: &str, epoch: Epoch, frame: Frame) -> Spacecraft {
    let n = |s: &str| format!("{name}.{s}");
    Spacecraft {
        orbit: sym_orbit(name, epoch, frame),
        mass: Mass {
            dry_mass_kg: real(&n("dry"), 0.1, 1e4),
            prop_mass_kg: real(&n("prop"), 0.0, 1e4),
            extra_mass_kg: real(&n("extra"), 0.0, 1e4),
        },
        srp: SRPData { area_m2: real(&n("srpA"), 0.0, 100.0), coeff_reflectivity: real(&n("Cr"), 0.0, 2.0) },
        drag: DragData { area_m2: real(&n("dragA"), 0.0, 100.0), coeff_drag: real(&n("Cd"), 0.0, 10.0) },
        thruster: None,
        mode: GuidanceMode::Coast,
        thrust_direction: None,
        stm: None,
    }
}
pub fn sym_thruster(name: &str) -> Thruster {
    Thruster { thrust_N: real(&format!("{name}.T"), 0.0, 1e3), isp_s: real(&format!("{name}.isp"), 1.0, 1e4) }
}
pub fn eq_v3(label: &str, a: &Vector3<f64>, b: &Vector3<f64>) {
    for i in 0..3 {
        ensures_eq(&format!("{label}[{i}]"), a[i], b[i]);
    }
}
pub fn eq_mat<const R: usize, const C: usize>(label: &str, a: &SMatrix<f64, R, C>, b: &SMatrix<f64, R, C>) {
    for i in 0..R {
        for j in 0..C {
            ensures_eq(&format!("{label}[{i},{j}]"), a[(i, j)], b[(i, j)]);
        }
    }
}
pub fn clamp02(x: f64) -> f64 {
    if x < 0.0 {
        0.0
    } else if x > 2.0 {
        2.0
    } else {
        x
    }
}
