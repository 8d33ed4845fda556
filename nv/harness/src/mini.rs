//! A minimal state and arbitrary dynamics: the propagator is generic, its contract is stated for every dynamics.
use crate::common::*;
use anise::almanac::Almanac;
use anise::constants::frames::EARTH_J2000;
use anise::math::interpolation::InterpolationError;
use anise::prelude::{Frame, Orbit};
use hifitime::Epoch;
use nalgebra::{Const, OVector, SVector};
use nvrt::*;
use nyx_space::dynamics::{Dynamics, DynamicsError};
use nyx_space::md::trajectory::Interpolatable;
use nyx_space::md::StateParameter;
use nyx_space::State;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mini<const N: usize> {
    pub x: SVector<f64, N>,
    pub epoch: Epoch,
    /// number of `finally` calls seen
    pub fin: u32,
    pub frame: Frame,
}
impl<const N: usize> Mini<N> {
    pub fn new(x: SVector<f64, N>, epoch: Epoch) -> Self {
        Mini { x, epoch, fin: 0, frame: EARTH_J2000 }
    }
}
impl<const N: usize> Default for Mini<N> {
    fn default() -> Self {
        Mini::new(SVector::zeros(), ep(0.0))
    }
}
impl<const N: usize> fmt::Display for Mini<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "mini")
    }
}
impl<const N: usize> fmt::LowerExp for Mini<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "mini")
    }
}
/// arbitrary right-hand side: a closure of (seconds since the step start, state vector, step-start state)
#[derive(Clone)]
pub struct AnyDyn<const N: usize> {
    pub f: fn(f64, &SVector<f64, N>, &Mini<N>) -> Result<SVector<f64, N>, DynamicsError>,
}
macro_rules! mini {
    ($n:literal) => {
impl State for Mini<$n>
{
    type Size = Const<$n>;
    type VecLength = Const<$n>;
    fn to_vector(&self) -> OVector<f64, Const<$n>> {
        self.x
    }
    fn with_stm(self) -> Self {
        self
    }
    fn unset_stm(&mut self) {}
    fn set(&mut self, epoch: Epoch, v: &OVector<f64, Const<$n>>) {
        self.x = *v;
        self.epoch = epoch;
    }
    fn epoch(&self) -> Epoch {
        self.epoch
    }
    fn set_epoch(&mut self, epoch: Epoch) {
        self.epoch = epoch
    }
    fn orbit(&self) -> Orbit {
        let mut o = Orbit::zero(self.frame);
        o.radius_km.x = self.x[0];
        o.epoch = self.epoch;
        o
    }
    fn set_orbit(&mut self, o: Orbit) {
        self.x[0] = o.radius_km.x;
        self.frame = o.frame;
    }
}

impl Dynamics for AnyDyn<$n>
{
    type HyperdualSize = Const<$n>;
    type StateType = Mini<$n>;
    fn eom(&self, dt: f64, v: &OVector<f64, Const<$n>>, ctx: &Mini<$n>, _: &Almanac) -> Result<OVector<f64, Const<$n>>, DynamicsError> {
        (self.f)(dt, v, ctx)
    }
    fn finally(&self, mut s: Mini<$n>, _: &Almanac) -> Result<Mini<$n>, DynamicsError> {
        s.fin += 1;
        Ok(s)
    }
}
    };
}
mini!(1);
mini!(2);
mini!(6);
mini!(200);
mini!(486);

/// x' = f(t, x) with f uninterpreted (one function per component)
pub fn uf_rhs<const N: usize>(dt: f64, v: &SVector<f64, N>, ctx: &Mini<N>) -> Result<SVector<f64, N>, DynamicsError> {
    let t = secs(ctx.epoch) + dt;
    Ok(SVector::from_fn(|i, _| {
        let mut a = vec![t];
        a.extend(v.iter().copied());
        uf(&format!("f{i}"), &a, -10.0, 10.0)
    }))
}

/// The interpolation of a mini state is an arbitrary function of the epoch; the contract of the caller is that the
/// window brackets the epoch.
impl Interpolatable for Mini<1> {
    fn interpolate(mut self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
        ensures("the interpolation window has 2 to 13 states", states.len() >= 2 && states.len() <= 13);
        let t = secs(epoch);
        let (mut lo, mut hi) = (false, false);
        for (i, s) in states.iter().enumerate() {
            if i > 0 {
                ensures_lt("the interpolation window is chronological", secs(states[i - 1].epoch), secs(s.epoch));
            }
            if secs(s.epoch) < t {
                lo = true;
            } else {
                hi = true;
            }
        }
        ensures("the interpolation window brackets the epoch", lo && hi);
        self.x[0] = uf("interp", &[t], -1e3, 1e3);
        self.epoch = epoch;
        Ok(self)
    }
    fn frame(&self) -> Frame {
        self.frame
    }
    fn set_frame(&mut self, frame: Frame) {
        self.frame = frame;
    }
    fn export_params() -> Vec<StateParameter> {
        vec![]
    }
}
