//! Order of every integration method, through the rooted-tree order conditions, run on the real stepper.
use crate::common::*;
use crate::h_prop::METHODS;
use crate::mini::*;
use anise::almanac::Almanac;
use nalgebra::SVector;
use nvrt::*;
use nyx_space::dynamics::{Dynamics, DynamicsError};
use nyx_space::propagators::{ErrorControl, IntegratorMethod, IntegratorOptions, Propagator};
use std::cell::Cell;
use std::str::FromStr;
use std::sync::{Arc, OnceLock};

/// rooted trees up to order 9: (order, children, density)
pub fn trees() -> &'static Vec<(usize, Vec<usize>, u64)> {
    static T: OnceLock<Vec<(usize, Vec<usize>, u64)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut t: Vec<(usize, Vec<usize>, u64)> = vec![(1, vec![], 1)];
        fn rec(p: &[(usize, Vec<usize>, u64)], left: usize, maxi: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if left == 0 {
                out.push(cur.clone());
                return;
            }
            for i in (0..=maxi).rev() {
                if p[i].0 <= left {
                    cur.push(i);
                    rec(p, left - p[i].0, i, cur, out);
                    cur.pop();
                }
            }
        }
        for o in 2..=9usize {
            let prev = t.clone();
            let mut out = vec![];
            rec(&prev, o - 1, prev.len() - 1, &mut vec![], &mut out);
            for c in out {
                let g = c.iter().map(|&i| prev[i].2).product::<u64>() * o as u64;
                t.push((o, c, g));
            }
        }
        t
    })
}
thread_local!(static LO: Cell<usize> = const { Cell::new(1) }; static HI: Cell<usize> = const { Cell::new(9) });

fn tree_rhs<const N: usize>(_: f64, v: &SVector<f64, N>, _: &Mini<N>) -> Result<SVector<f64, N>, DynamicsError> {
    let ts = trees();
    let hi = HI.get();
    let mut o = SVector::<f64, N>::zeros();
    for i in 0..N {
        if ts[i].0 > hi {
            break;
        }
        let mut p = 1.0;
        for (n, &c) in ts[i].1.iter().enumerate() {
            p = if n == 0 { v[c] } else { p * v[c] };
        }
        o[i] = p;
    }
    Ok(o)
}
/// x0' = 1, x1' = dt - x0: stays zero iff the time handed to the dynamics is the time of the stage
fn time_rhs(dt: f64, v: &SVector<f64, 2>, _: &Mini<2>) -> Result<SVector<f64, 2>, DynamicsError> {
    ensures_eq_tol("the dynamics are evaluated at the stage's own time", dt, v[0], 1e-12, 1e-9);
    Ok(SVector::from([1.0, 0.0]))
}

fn order_of(m: IntegratorMethod) -> usize {
    match m {
        IntegratorMethod::RungeKutta4 => 4,
        IntegratorMethod::CashKarp45 => 5,
        IntegratorMethod::DormandPrince45 => 5,
        IntegratorMethod::Verner56 => 6,
        IntegratorMethod::DormandPrince78 => 8,
        IntegratorMethod::RungeKutta89 => 9,
    }
}
fn step<const N: usize>(m: IntegratorMethod, h: f64, f: fn(f64, &SVector<f64, N>, &Mini<N>) -> Result<SVector<f64, N>, DynamicsError>) -> Mini<N>
where
    AnyDyn<N>: Dynamics<StateType = Mini<N>>,
    Mini<N>: nyx_space::State,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<<Mini<N> as nyx_space::State>::Size> + nalgebra::allocator::Allocator<<Mini<N> as nyx_space::State>::Size, <Mini<N> as nyx_space::State>::Size> + nalgebra::allocator::Allocator<<Mini<N> as nyx_space::State>::VecLength> + nalgebra::allocator::Allocator<<AnyDyn<N> as Dynamics>::HyperdualSize> + nalgebra::allocator::Allocator<<Mini<N> as nyx_space::State>::Size, <AnyDyn<N> as Dynamics>::HyperdualSize>,
{
    let p = Propagator::new(AnyDyn { f }, m, IntegratorOptions::with_fixed_step(dur(h)));
    let mut i = p.with(Mini::new(SVector::zeros(), ep(0.0)), Arc::new(Almanac::default())).quiet();
    i.single_step().unwrap();
    i.state
}
fn check_order<const N: usize>(m: IntegratorMethod, h: f64, s: &Mini<N>, p: usize) {
    let ts = trees();
    for i in 0..N {
        let (o, _, g) = &ts[i];
        if *o > p {
            break;
        }
        let mut hp = h;
        for _ in 1..*o {
            hp = hp * h;
        }
        ensures_eq_tol(&format!("{m:?}: order condition of each tree of order {o}"), s.x[i] * (*g as f64), hp, 1e-11, 1e-10);
    }
    cover(&format!("{m:?}"));
}
fn rk_order_low() {
    trust("Butcher's theorem: a Runge-Kutta step has order p iff the order conditions of all rooted trees with at most p nodes hold");
    let m = METHODS[choose("method", 5)];
    let h = real("h", 0.01, 1.0);
    HI.set(8);
    let p = order_of(m);
    ensures("declared order", m.order() as usize == p);
    let s = step::<200>(m, h, tree_rhs::<200>);
    check_order(m, h, &s, p);
}
fn rk_order_89() {
    trust("Butcher's theorem: a Runge-Kutta step has order p iff the order conditions of all rooted trees with at most p nodes hold");
    let m = IntegratorMethod::RungeKutta89;
    let h = real("h", 0.01, 1.0);
    HI.set(9);
    ensures("declared order", m.order() as usize == 9);
    let s = step::<486>(m, h, tree_rhs::<486>);
    check_order(m, h, &s, 8);
    trust("order-9 conditions are evaluated at step 1 (each tree component is homogeneous in the step)");
    let s = step::<486>(m, 1.0, tree_rhs::<486>);
    check_order(m, 1.0, &s, 9);
}
fn rk_time() {
    let m = METHODS[choose("method", 6)];
    let h = real("h", -1.0, 1.0);
    assume_ne(h, 0.0);
    step::<2>(m, h, time_rhs);
    cover("stage time");
}
/// the difference with the embedded solution vanishes up to the embedded order and no further
fn rk_embedded() {
    trust("Butcher's theorem, for the embedded weights");
    let m = METHODS[1 + choose("method", 5)];
    trust("the estimate is evaluated at step 1 (each tree component is homogeneous in the step)");
    let h = 1.0;
    let p = order_of(m);
    let high = flag("first order above the embedded one");
    HI.set(if high { p } else { p - 1 });
    let opts = IntegratorOptions::builder().init_step(dur(h)).min_step(dur(h)).max_step(dur(h)).tolerance(1e-30).attempts(1).error_ctrl(ErrorControl::LargestStep).build();
    let e;
    if p < 9 {
        let p = Propagator::new(AnyDyn { f: tree_rhs::<200> }, m, opts);
        let mut i = p.with(Mini::new(SVector::zeros(), ep(0.0)), Arc::new(Almanac::default())).quiet();
        i.single_step().unwrap();
        e = i.latest_details().error;
    } else {
        let p = Propagator::new(AnyDyn { f: tree_rhs::<486> }, m, opts);
        let mut i = p.with(Mini::new(SVector::zeros(), ep(0.0)), Arc::new(Almanac::default())).quiet();
        i.single_step().unwrap();
        e = i.latest_details().error;
    }
    if high {
        ensures_lt(&format!("{m:?}: the estimated error sees terms above the embedded order"), 1e-9, e);
    } else {
        ensures_le(&format!("{m:?}: the estimated error vanishes up to the embedded order"), e, 1e-12);
    }
    cover("embedded");
}
fn rk_names() {
    for (n, m) in [("RungeKutta4", METHODS[0]), ("CashKarp45", METHODS[1]), ("Verner56", METHODS[2]), ("DormandPrince45", METHODS[3]), ("DormandPrince78", METHODS[4]), ("RungeKutta89", METHODS[5])] {
        ensures("name selects the method", IntegratorMethod::from_str(n).ok() == Some(m));
        ensures("name selects the method (lower case)", IntegratorMethod::from_str(&n.to_lowercase()).ok() == Some(m));
        ensures("table sizes", m.a_coeffs().len() == m.stages() * (m.stages() - 1) / 2 && m.b_coeffs().len() == 2 * m.stages());
    }
    ensures("unknown names are refused", IntegratorMethod::from_str("Euler").is_err());
    ensures("default method", IntegratorMethod::default() == METHODS[5]);
    cover("names");
}
pub fn list() -> Vec<Harness> {
    let f: &[&str] = &["propagators::rk_methods::*", "propagators::instance::derive", "propagators::instance::single_step"];
    vec![
        Harness { name: "rk_order_low", property: "P04", functions: f, f: rk_order_low, may_panic: false },
        Harness { name: "rk_order_89", property: "P04", functions: f, f: rk_order_89, may_panic: false },
        Harness { name: "rk_time", property: "P04", functions: f, f: rk_time, may_panic: false },
        Harness { name: "rk_embedded", property: "P04", functions: f, f: rk_embedded, may_panic: false },
        Harness { name: "rk_names", property: "P04", functions: &["propagators::rk_methods::from_str"], f: rk_names, may_panic: false },
    ]
}
