//! Step error metrics.
use crate::common::*;
use nalgebra::SVector;
use nvrt::*;
use nyx_space::propagators::ErrorControl;

fn norm<const N: usize>(v: &SVector<f64, N>, from: usize, n: usize) -> f64 {
    let mut s = 0.0;
    for i in from..from + n {
        s = s + v[i] * v[i];
    }
    s.sqrt()
}
fn rel(err: f64, mag: f64, thresh: f64) -> f64 {
    if mag > thresh {
        err / mag
    } else {
        err
    }
}
fn inputs<const N: usize>() -> (SVector<f64, N>, SVector<f64, N>, SVector<f64, N>) {
    (sym_vec("e", 1.0), sym_vec("new", 1e3), sym_vec("old", 1e3))
}
fn rss_n<const N: usize>() {
    let (e, n, o) = inputs::<N>();
    let d = n - o;
    let s = n + o;
    let rt = 0.1f64.sqrt();
    ensures_eq("RSSStep", ErrorControl::RSSStep.estimate::<nalgebra::Const<N>>(&e, &n, &o), rel(norm(&e, 0, N), norm(&d, 0, N), rt));
    ensures_eq("RSSState", ErrorControl::RSSState.estimate::<nalgebra::Const<N>>(&e, &n, &o), rel(norm(&e, 0, N), 0.5 * norm(&s, 0, N), 0.1));
    cover("rss");
}
fn err_rss() {
    match choose("size", 3) {
        0 => rss_n::<1>(),
        1 => rss_n::<3>(),
        _ => rss_n::<6>(),
    }
}
fn fmax(a: f64, b: f64) -> f64 {
    if a > b {
        a
    } else {
        b
    }
}
fn cart_n<const N: usize>() {
    let (e, n, o) = inputs::<N>();
    let d = n - o;
    let s = n + o;
    let rt = 0.1f64.sqrt();
    if flag("state") {
        let g = ErrorControl::RSSCartesianState.estimate::<nalgebra::Const<N>>(&e, &n, &o);
        let w = fmax(rel(norm(&e, 0, 3), 0.5 * norm(&s, 0, 3), 0.1), rel(norm(&e, 3, 3), 0.5 * norm(&s, 3, 3), 0.1));
        ensures_eq("RSSCartesianState is the larger of position and velocity", g, w);
    } else {
        let g = ErrorControl::RSSCartesianStep.estimate::<nalgebra::Const<N>>(&e, &n, &o);
        let w = fmax(rel(norm(&e, 0, 3), norm(&d, 0, 3), rt), rel(norm(&e, 3, 3), norm(&d, 3, 3), rt));
        ensures_eq("RSSCartesianStep is the larger of position and velocity", g, w);
    }
    cover("cartesian");
}
fn err_cartesian() {
    match choose("size", 2) {
        0 => cart_n::<6>(),
        _ => cart_n::<9>(),
    }
}
fn l1<const N: usize>(v: &SVector<f64, N>) -> f64 {
    let mut s = 0.0;
    for i in 0..N {
        s = s + v[i].abs();
    }
    s
}
fn largest_n<const N: usize>() {
    let (e, n, o) = inputs::<N>();
    let d = n - o;
    let s = n + o;
    ensures_eq("LargestStep", ErrorControl::LargestStep.estimate::<nalgebra::Const<N>>(&e, &n, &o), rel(l1(&e), l1(&d), 0.1));
    ensures_eq("LargestState", ErrorControl::LargestState.estimate::<nalgebra::Const<N>>(&e, &n, &o), rel(l1(&e), 0.5 * l1(&s), 0.1));
    cover("l1");
}
fn err_largest() {
    match choose("size", 3) {
        0 => largest_n::<1>(),
        1 => largest_n::<3>(),
        _ => largest_n::<6>(),
    }
}
fn err_max() {
    let (e, n, o) = inputs::<3>();
    let d = n - o;
    let g = ErrorControl::LargestError.estimate::<nalgebra::Const<3>>(&e, &n, &o);
    let mut w = 0.0;
    for i in 0..3 {
        w = fmax(w, rel(e[i].abs(), d[i].abs(), 0.1));
    }
    ensures_eq("LargestError", g, w);
    // reversing every sign (e.g. the direction of motion) does not change the error
    let g2 = ErrorControl::LargestError.estimate::<nalgebra::Const<3>>(&e, &(-n), &(-o));
    ensures_eq("LargestError is the same for the mirrored motion", g, g2);
    cover("max");
}
pub fn list() -> Vec<Harness> {
    let f: &[&str] = &["propagators::error_ctrl::estimate"];
    vec![
        Harness { name: "err_rss", property: "P05", functions: f, f: err_rss, may_panic: false },
        Harness { name: "err_cartesian", property: "P05", functions: f, f: err_cartesian, may_panic: false },
        Harness { name: "err_largest", property: "P05", functions: f, f: err_largest, may_panic: false },
        Harness { name: "err_max", property: "P05", functions: f, f: err_max, may_panic: false },
    ]
}
