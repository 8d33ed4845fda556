//! Orbit determination solutions: selecting, splitting, merging, statistics, smoothing (P20).
use crate::common::*;
use crate::h_od::*;
use anise::almanac::Almanac;
use indexmap::IndexSet;
use nalgebra::{Const, SMatrix, SVector};
use nvrt::*;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::estimate::{Estimate, KfEstimate, Residual};
use nyx_space::od::msr::MeasurementType::{self, Doppler, Range};
use nyx_space::od::process::{NormalizedConsistency, ODSolution};
use std::collections::BTreeMap;

type Sol<const M: usize> = ODSolution<Nav, KfEstimate<Nav>, Const<M>, Dev>;
/// what is recorded at one epoch
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Time,
    Msr(&'static str, MeasurementType),
    /// both types at once, Doppler first
    Both(&'static str),
}
use Kind::*;
fn resid(kind: (&str, MeasurementType), t: f64, id: f64) -> Residual<Const<1>> {
    let mut r = Residual::zeros();
    r.epoch = ep(t);
    r.prefit[0] = id;
    r.tracker = Some(kind.0.to_string());
    r.msr_types = IndexSet::from([kind.1]);
    r.rejected = false;
    r
}
fn empty<const M: usize>() -> Sol<M> {
    let mut d = BTreeMap::new();
    for n in ["A", "B"] {
        d.insert(n.to_string(), Dev { name: n.to_string(), types: [Range, Doppler].into_iter().collect(), visible: true });
    }
    ODSolution::new(d, [Range, Doppler].into_iter().collect())
}
/// the record number `id`, of which every part carries that number
fn push(s: &mut Sol<1>, kind: Kind, t: f64, id: usize) {
    let v = id as f64;
    s.estimates.push(KfEstimate::from_diag(Nav { x: SVector::repeat(v), phi: None, epoch: ep(t) }, SVector::repeat(v)));
    match kind {
        Time => {
            s.residuals.push(None);
            s.gains.push(None);
        }
        Msr(trk, ty) => {
            s.residuals.push(Some(resid((trk, ty), t, v)));
            s.gains.push(Some(SMatrix::repeat(v)));
        }
        Both(trk) => {
            let mut r = resid((trk, Doppler), t, v);
            r.msr_types.insert(Range);
            s.residuals.push(Some(r));
            s.gains.push(Some(SMatrix::repeat(v)));
        }
    }
    s.filter_smoother_ratios.push(Some(SVector::repeat(v)));
}
fn is_record(label: &str, s: &Sol<1>, at: usize, kind: Kind, t: f64, id: usize) {
    let v = id as f64;
    ensures(&format!("{label}: estimate"), s.estimates[at].nominal_state.x[0] == v && s.estimates[at].covar[(5, 5)] == v);
    ensures_eq(&format!("{label}: epoch"), secs(s.estimates[at].epoch()), t);
    ensures(&format!("{label}: filter-smoother ratio"), s.filter_smoother_ratios[at].is_some_and(|f| f[3] == v));
    match kind {
        Time => ensures(&format!("{label}: time update"), s.residuals[at].is_none() && s.gains[at].is_none()),
        Msr(trk, ty) => {
            ensures(&format!("{label}: residual"), s.residuals[at].as_ref().is_some_and(|r| r.prefit[0] == v && r.tracker == Some(trk.to_string()) && r.msr_types.contains(&ty)));
            ensures(&format!("{label}: gain"), s.gains[at].is_some_and(|g| g[0] == v));
        }
        Both(trk) => {
            ensures(&format!("{label}: residual"), s.residuals[at].as_ref().is_some_and(|r| r.prefit[0] == v && r.tracker == Some(trk.to_string()) && r.msr_types.len() == 2));
            ensures(&format!("{label}: gain"), s.gains[at].is_some_and(|g| g[0] == v));
        }
    }
}
fn sized(label: &str, s: &Sol<1>, n: usize) {
    ensures(&format!("{label}: exactly the selected records"), s.estimates.len() == n && s.residuals.len() == n && s.gains.len() == n && s.filter_smoother_ratios.len() == n);
}
fn selected(label: &str, s: &Sol<1>, kinds: &[Kind], ts: &[f64], f: impl Fn(Kind) -> bool) {
    let keep: Vec<usize> = (0..kinds.len()).filter(|i| f(kinds[*i])).collect();
    sized(label, s, keep.len());
    for (at, i) in keep.into_iter().enumerate() {
        is_record(label, s, at, kinds[i], ts[i], i);
    }
}
const KINDS: [Kind; 4] = [Time, Msr("A", Range), Msr("A", Doppler), Msr("B", Range)];
fn sol_select() {
    bounded("3 records");
    let ts = reals::<3>("t", -10.0, 10.0);
    let all = [Time, Msr("A", Range), Msr("A", Doppler), Msr("B", Range), Both("B")];
    let ks = [0, 1, 2].map(|i| all[choose(&format!("kind{i}"), 5)]);
    let mut s = empty::<1>();
    for i in 0..3 {
        push(&mut s, ks[i], ts[i], i);
    }
    selected("drop_time_updates", &s.clone().drop_time_updates(), &ks, &ts, |k| k != Time);
    selected("filter_by_msr_type", &s.clone().filter_by_msr_type(Range), &ks, &ts, |k| matches!(k, Msr(_, Range) | Both(_)));
    selected("filter_by_tracker", &s.clone().filter_by_tracker("A".into()), &ks, &ts, |k| matches!(k, Msr("A", _) | Both("A")));
    selected("exclude_tracker", &s.clone().exclude_tracker("A".into()), &ks, &ts, |k| !matches!(k, Msr("A", _)));
    let u = s.unique();
    for (trk, ty) in [("A", Range), ("A", Doppler), ("B", Range), ("B", Doppler)] {
        ensures("unique trackers and types", u.contains(&(trk.to_string(), ty)) == (ks.contains(&Msr(trk, ty)) || (trk == "B" && ks.contains(&Both("B")))));
    }
    let parts = s.clone().split();
    ensures("one part per tracker and type", parts.len() == u.len());
    for (part, (trk, ty)) in parts.iter().zip(u) {
        let trk = if trk == "A" { "A" } else { "B" };
        selected("split", part, &ks, &ts, |k| k == Msr(trk, ty) || k == Both(trk));
    }
    ensures("is_filter_run", s.is_filter_run() == ks.iter().any(|k| *k != Time));
    ensures("is_smoother_run", s.is_smoother_run());
    s.filter_smoother_ratios = vec![None; 3];
    ensures("a filter run is not a smoother run", !s.is_smoother_run());
    let n = s.results().count();
    ensures("results pairs estimates and residuals", n == 3);
    for (i, (e, r)) in s.results().enumerate() {
        ensures("results pairs estimates and residuals", e.nominal_state.x[0] == i as f64 && r.is_some() == (ks[i] != Time));
    }
    cover("selected");
}
fn sol_merge() {
    bounded("merging 2 and 3 records");
    let ts = reals::<5>("t", -10.0, 10.0);
    let n = [2, 3][choose("first", 2)];
    for i in 1..5 {
        if i != n {
            assume_le(ts[i - 1], ts[i]);
        }
    }
    let (mut a, mut b) = (empty::<1>(), empty::<1>());
    for i in 0..5 {
        push(if i < n { &mut a } else { &mut b }, KINDS[i % 4], ts[i], i);
    }
    let m = a.merge(b);
    sized("merge", &m, 5);
    let mut seen = [0; 5];
    for at in 0..5 {
        let x = m.estimates[at].nominal_state.x[0];
        let id = (0..5).find(|i| *i as f64 == x).unwrap();
        seen[id] += 1;
        is_record("merge", &m, at, KINDS[id % 4], ts[id], id);
        if at > 0 {
            ensures_le("merged records are chronological", secs(m.estimates[at - 1].epoch()), secs(m.estimates[at].epoch()));
        }
    }
    ensures("every record is merged once", seen == [1; 5]);
    cover("merged");
}
fn sol_at() {
    bounded("4 records");
    let ts = reals::<4>("t", -10.0, 10.0);
    for i in 1..4 {
        assume_lt(ts[i - 1], ts[i]);
    }
    let e = real("e", -10.0, 10.0);
    let mut s = empty::<1>();
    for i in 0..4 {
        push(&mut s, KINDS[i], ts[i], i);
    }
    match s.at(ep(e)) {
        None => {
            for t in ts {
                ensures_ne("a recorded epoch is found", t, e);
            }
            cover("absent");
        }
        Some(r) => {
            let mut one = empty::<1>();
            one.estimates.push(r.estimate);
            one.residuals.push(r.residual);
            one.gains.push(r.gain);
            one.filter_smoother_ratios.push(r.filter_smoother_ratio);
            let id = (0..4).find(|i| *i as f64 == r.estimate.nominal_state.x[0]).unwrap();
            is_record("at", &one, 0, KINDS[id], ts[id], id);
            ensures_eq("the record is that of the epoch", ts[id], e);
            cover("found");
        }
    }
    let t = s.to_traj().unwrap();
    ensures("the trajectory has every estimate", t.states.len() == 4);
    for i in 0..4 {
        ensures_eq("the trajectory is dated", secs(t.states[i].epoch), ts[i]);
        ensures("the trajectory is estimated", t.states[i].x[0] == i as f64);
    }
    ensures("no trajectory without estimates", empty::<1>().to_traj().is_err());
}
fn sol_stats() {
    bounded("3 residuals of 2 observables");
    let mut s = empty::<2>();
    let (mut pre, mut post, mut rat, mut nis) = (0.0, 0.0, 0.0, 0.0);
    let thr = real("thr", 0.0, 10.0);
    let mut within = 0;
    let rej = choose("rejected", 4);
    for i in 0..3 {
        let mut r = Residual::<Const<2>>::zeros();
        r.prefit = sym_vec::<2>(&format!("pre{i}"), 10.0);
        r.postfit = sym_vec::<2>(&format!("post{i}"), 10.0);
        r.whitened_resid = sym_vec::<2>(&format!("w{i}"), 10.0);
        r.ratio = real(&format!("ratio{i}"), 0.0, 10.0);
        r.rejected = i == rej;
        r.msr_types = [Doppler, Range].into_iter().collect();
        r.tracker = Some("A".to_string());
        r.real_obs = sym_vec::<2>(&format!("obs{i}"), 10.0);
        r.computed_obs = sym_vec::<2>(&format!("comp{i}"), 10.0);
        r.tracker_msr_noise = sym_vec::<2>(&format!("R{i}"), 10.0);
        for (k, ty) in [Doppler, Range].into_iter().enumerate() {
            ensures_eq("prefit by type", r.prefit(ty).unwrap(), r.prefit[k]);
            ensures_eq("postfit by type", r.postfit(ty).unwrap(), r.postfit[k]);
            ensures_eq("noise by type", r.trk_noise(ty).unwrap(), r.tracker_msr_noise[k]);
            ensures_eq("observation by type", r.real_obs(ty).unwrap(), r.real_obs[k]);
            ensures_eq("computed observation by type", r.computed_obs(ty).unwrap(), r.computed_obs[k]);
            ensures_eq("whitened residual by type", r.whitened_resid(ty).unwrap(), r.whitened_resid[k]);
        }
        ensures("no residual of another type", r.prefit(MeasurementType::Azimuth).is_none());
        pre += r.prefit.dot(&r.prefit);
        post += r.postfit.dot(&r.postfit);
        rat += r.ratio * r.ratio;
        if !r.rejected {
            nis += r.whitened_resid.dot(&r.whitened_resid);
        }
        if r.ratio <= thr {
            within += 1;
        }
        s.residuals.push(Some(r));
        s.estimates.push(KfEstimate::from_diag(Nav::default(), SVector::repeat(1.0)));
    }
    if flag("time_update") {
        s.residuals.push(None);
        s.estimates.push(KfEstimate::from_diag(Nav::default(), SVector::repeat(1.0)));
    }
    let (a, b, c) = (s.rms_prefit_residuals(), s.rms_postfit_residuals(), s.rms_residual_ratios());
    for (l, v, w) in [("prefit", a, pre), ("postfit", b, post), ("ratio", c, rat)] {
        ensures_le(&format!("the RMS {l} is not negative"), 0.0, v);
        ensures_eq_tol(&format!("the RMS {l} is the root of the mean square"), v * v, w / 3.0, 1e-12, 1e-12);
    }
    ensures_eq("fraction within the threshold", s.residual_ratio_within_threshold(thr).unwrap(), within as f64 / 3.0);
    let (acc, rjc) = (s.accepted_residuals(), s.rejected_residuals());
    ensures("each residual is accepted or rejected", acc.len() + rjc.len() == 3 && acc.iter().all(|r| !r.rejected) && rjc.iter().all(|r| r.rejected));
    let q = s.nis_consistency(None).unwrap();
    ensures_eq("the NIS of the accepted residuals", q.normalized_sum, nis);
    ensures("the degrees of freedom are those of the accepted residuals", q.k == (acc.len() * 2) as f64 && !q.is_nees);
    consistency(&q);
    let none = empty::<2>();
    ensures("no statistics without residuals", none.nis_consistency(None).is_err() && none.residual_ratio_within_threshold(thr).is_err() && none.is_normal(None).is_err());
    cover("statistics");
}
/// chi square quantiles 2.5% and 97.5%
fn chi2(k: f64) -> (f64, f64) {
    match k as usize {
        4 => (0.484, 11.143),
        6 => (1.237, 14.449),
        12 => (4.404, 23.337),
        _ => unreachable!("quantiles of {k} degrees of freedom"),
    }
}
fn consistency(q: &NormalizedConsistency) {
    let (lo, hi) = chi2(q.k);
    ensures_eq_tol("lower bound at 95%", q.lower_bound, lo, 0.0, 0.05);
    ensures_eq_tol("upper bound at 95%", q.upper_bound, hi, 0.0, 0.05);
}
fn sol_consistency() {
    let k = real("k", 1.0, 100.0);
    let lo = real("lo", 0.0, 10.0);
    let hi = real("hi", 20.0, 30.0);
    let x = real("x", -5.0, 50.0);
    let q = NormalizedConsistency { normalized_sum: x, k, lower_bound: lo, upper_bound: hi, is_nees: flag("nees") };
    if x > lo && x < hi {
        ensures("errors within the bounds are consistent", q.is_consistent());
    }
    if x > hi {
        ensures("too large errors are overconfidence", q.is_overconfident() && !q.is_consistent() && !q.is_underconfident());
    } else if x < lo {
        ensures("too small errors are underconfidence", q.is_underconfident() && !q.is_consistent() && !q.is_overconfident());
    } else {
        ensures("errors within the bounds are neither", !q.is_overconfident() && !q.is_underconfident());
    }
    ensures("statistical power from 35 degrees of freedom", q.has_statistical_power() == (k > 35.0));
    ensures("named after the test", q.name() == if q.is_nees { "NEES" } else { "NIS" });
    cover("consistency");
}
fn sol_nees() {
    bounded("the estimates of one or two epochs, uncorrelated covariances");
    let n = 1 + choose("epochs", 2);
    let mut s = empty::<1>();
    let mut truth = Traj::<Nav>::new();
    let mut sum = 0.0;
    for i in 0..=n {
        let t = i as f64;
        let x = Nav { x: sym_vec::<6>(&format!("x{i}"), 10.0), phi: None, epoch: ep(t) };
        let y = Nav { x: sym_vec::<6>(&format!("y{i}"), 10.0), phi: None, epoch: ep(t) };
        let p = SVector::<f64, 6>::from_fn(|k, _| [1.0, 4.0, 0.25, 2.0, 0.5, 8.0][(k + i) % 6]);
        let mut e = KfEstimate::from_diag(x, p);
        e.state_deviation = sym_vec::<6>(&format!("d{i}"), 1.0);
        if i > 0 {
            for k in 0..6 {
                let err = x.x[k] + e.state_deviation[k] - y.x[k];
                sum += err * err / p[k];
            }
        }
        s.estimates.push(e);
        truth.states.push(y);
    }
    let q = s.nees_consistency(&truth, None).unwrap();
    ensures_eq_tol("the NEES of the estimates past the first", q.normalized_sum, sum, 1e-9, 1e-9);
    ensures("the degrees of freedom are those of the states", q.k == (6 * n) as f64 && q.is_nees);
    consistency(&q);
    s.estimates.truncate(1);
    ensures("nothing to evaluate", s.nees_consistency(&truth, None).is_err());
    cover("nees");
}
/// Deviation tracking filter without process noise
fn sol_smooth() {
    bounded("2 or 3 estimates");
    let n = 2 + choose("n", 2);
    let mut s = empty::<1>();
    let gap = reals::<3>("gap", 0.1, 10.0);
    let mut t = 0.0;
    let mut kinds = vec![];
    for i in 0..n {
        t += gap[i];
        let x = Nav { x: sym_vec::<6>(&format!("x{i}"), 10.0), phi: None, epoch: ep(t) };
        let mut e = KfEstimate::from_diag(x, SVector::<f64, 6>::from_fn(|k, _| real(&format!("P{i}{k}"), 0.5, 10.0)));
        e.stm = flow(gap[i]);
        e.state_deviation = sym_vec::<6>(&format!("d{i}"), 1.0);
        s.estimates.push(e);
        let ty = choose(&format!("kind{i}"), 3);
        kinds.push(ty);
        if ty == 0 {
            s.residuals.push(None);
            s.gains.push(None);
        } else {
            let mut r = resid((["", "A", "B"][ty], if ty == 1 { Range } else { Doppler }), t, 0.0);
            r.prefit[0] = real(&format!("pre{i}"), -10.0, 10.0);
            r.real_obs[0] = real(&format!("obs{i}"), -100.0, 100.0);
            r.computed_obs[0] = real(&format!("comp{i}"), -100.0, 100.0);
            r.ratio = real(&format!("ratio{i}"), 0.0, 10.0);
            r.postfit[0] = real(&format!("post{i}"), -10.0, 10.0);
            s.residuals.push(Some(r));
            s.gains.push(Some(SMatrix::repeat(1.0)));
        }
        s.filter_smoother_ratios.push(None);
    }
    let f = s.clone();
    let m = s.smooth(&Almanac::default()).unwrap();
    ensures("smoothing keeps every record", m.estimates.len() == n && m.residuals.len() == n && m.gains.len() == n && m.filter_smoother_ratios.len() == n);
    ensures("a smoothed solution is not a filter run", !m.is_filter_run());
    for i in 0..n {
        ensures_eq("smoothing keeps the epochs", secs(m.estimates[i].epoch()), secs(f.estimates[i].epoch()));
        eq_mat("smoothing keeps the reference", &m.estimates[i].nominal_state.x, &f.estimates[i].nominal_state.x);
        ensures("smoothing keeps the time updates", m.residuals[i].is_none() == (kinds[i] == 0));
        ensures("no ratio for the last estimate only", m.filter_smoother_ratios[i].is_none() == (i + 1 == n));
        let last = i + 1 == n;
        if last {
            eq_mat("the last estimate is that of the filter", &m.estimates[i].state_deviation, &f.estimates[i].state_deviation);
            eq_mat("the last covariance is that of the filter", &m.estimates[i].covar, &f.estimates[i].covar);
        }
        if i + 2 == n {
            let back = flow(-gap[i + 1]);
            eq_mat("the last but one estimate is the last one mapped back", &m.estimates[i].state_deviation, &(back * f.estimates[i + 1].state_deviation));
            eq_mat("the last but one covariance is the last one mapped back", &m.estimates[i].covar, &(back * f.estimates[i + 1].covar * back.transpose()));
        }
        if let (Some(a), Some(b)) = (&m.residuals[i], &f.residuals[i]) {
            let ty = if kinds[i] == 1 { Range } else { Doppler };
            let dev = ["", "A", "B"][kinds[i]];
            ensures("the residual keeps its tracker and type", a.tracker == b.tracker && a.msr_types.contains(&ty) && a.rejected == b.rejected);
            ensures_eq("the residual keeps its epoch", secs(a.epoch), secs(b.epoch));
            ensures_eq("the observation does not change", a.real_obs[0], b.real_obs[0]);
            ensures_eq("the prefit does not change", a.prefit[0], b.prefit[0]);
            ensures_eq("the prefit ratio does not change", a.ratio, b.ratio);
            if last {
                ensures_eq("the last postfit does not change", a.postfit[0], b.postfit[0]);
            } else {
                let c = observe(dev, ty, &m.estimates[i].state()) + bias(dev, ty);
                ensures_eq("the observation is computed from the smoothed estimate", a.computed_obs[0], c);
                ensures_eq("the postfit is that of the smoothed estimate", a.postfit[0], b.real_obs[0] - c);
            }
        }
    }
    cover("smoothed");
}
fn sol_fs_ratio() {
    bounded("2 estimates");
    let mut s = empty::<1>();
    let gap = real("gap", 0.1, 1.0);
    for i in 0..2 {
        let x = Nav { x: sym_vec::<6>(&format!("x{i}"), 10.0), phi: None, epoch: ep(gap * i as f64) };
        // a covariance that decreases
        let mut e = KfEstimate::from_diag(x, SVector::<f64, 6>::from_fn(|k, _| if i == 0 { real(&format!("P{k}"), 50.0, 90.0) } else { real(&format!("Q{k}"), 0.5, 10.0) }));
        e.stm = flow(if i == 0 { 0.0 } else { gap });
        e.state_deviation = sym_vec::<6>(&format!("d{i}"), 1.0);
        s.estimates.push(e);
        s.residuals.push(None);
        s.gains.push(None);
        s.filter_smoother_ratios.push(None);
    }
    let f = s.estimates[0];
    let m = s.smooth(&Almanac::default()).unwrap();
    let r = m.filter_smoother_ratios[0].unwrap();
    for k in 0..6 {
        let dx = m.estimates[0].state_deviation[k] - f.state_deviation[k];
        let dp = f.covar[(k, k)] - m.estimates[0].covar[(k, k)];
        ensures_eq_tol("the filter-smoother ratio is the change over its sigma", r[k] * r[k] * dp, dx * dx, 1e-12, 1e-12);
    }
    cover("ratio");
}

/// standard normal cumulative distribution, by quadrature
fn phi(x: f64) -> f64 {
    let (n, a) = (2000, -9.0);
    let h = (x - a) / n as f64;
    let g = |t: f64| (-0.5 * t * t).exp() / (2.0 * std::f64::consts::PI).sqrt();
    let mut s = g(a) + g(x);
    for i in 1..n {
        s += g(a + h * i as f64) * if i % 2 == 1 { 4.0 } else { 2.0 };
    }
    s * h / 3.0
}
/// distance of the sample of accepted whitened residuals to the normal law of their mean and deviation
fn sol_normality() {
    bounded("concrete samples of 3 or 4 residuals of 2 observables, in every rotation of their order");
    let sample = [[-1.25, 0.5], [2.0, -0.375], [0.0625, -3.0], [1.5, 0.75]];
    let rot = choose("rotation", 4);
    let rej = choose("rejected", 5);
    let mut s = empty::<2>();
    let mut xs = vec![];
    for i in 0..4 {
        let w = sample[(i + rot) % 4];
        let mut r = Residual::<Const<2>>::zeros();
        r.whitened_resid = SVector::from(w);
        r.rejected = i == rej;
        r.tracker = Some("A".to_string());
        if !r.rejected {
            xs.extend(w);
        }
        s.residuals.push(Some(r));
        s.estimates.push(KfEstimate::from_diag(Nav::default(), SVector::repeat(1.0)));
    }
    let n = xs.len() as f64;
    let mean = xs.iter().sum::<f64>() / n;
    let sd = (xs.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n).sqrt();
    let mut d: f64 = 0.0;
    for x in &xs {
        let (le, lt) = (xs.iter().filter(|y| *y <= x).count() as f64, xs.iter().filter(|y| *y < x).count() as f64);
        let f = phi((x - mean) / sd);
        d = d.max((le / n - f).abs()).max((lt / n - f).abs());
    }
    ensures_eq_tol("largest distance between the sample and the normal distribution", s.ks_test_normality().unwrap(), d, 0.0, 1e-6);
    // critical distance sqrt(-ln(alpha/2)/2/n): just below and just above the level of this sample
    let crit = 2.0 * (-2.0 * n * d * d).exp();
    for (alpha, ok) in [(crit * 0.99, true), (crit * 1.01, false)] {
        if alpha < 1.0 {
            ensures("normal exactly when the distance is at most the critical one", s.is_normal(Some(alpha)).unwrap() == ok);
            cover(if ok { "normal" } else { "not normal" });
        }
    }
}
pub fn list() -> Vec<Harness> {
    let h = |name, functions: &'static [&'static str], f| Harness { name, property: "P20", functions, f, may_panic: false };
    vec![
        h("sol_select", &["ODSolution::drop_time_updates", "ODSolution::filter_by_msr_type", "ODSolution::filter_by_tracker", "ODSolution::exclude_tracker", "ODSolution::split", "ODSolution::unique", "ODSolution::results"], sol_select),
        h("sol_merge", &["ODSolution::merge"], sol_merge),
        h("sol_at", &["ODSolution::at", "ODSolution::to_traj"], sol_at),
        h("sol_stats", &["ODSolution::rms_prefit_residuals", "ODSolution::rms_postfit_residuals", "ODSolution::rms_residual_ratios", "ODSolution::residual_ratio_within_threshold", "ODSolution::nis_consistency", "ODSolution::accepted_residuals", "ODSolution::rejected_residuals", "Residual"], sol_stats),
        h("sol_nees", &["ODSolution::nees_consistency", "NormalizedConsistency"], sol_nees),
        h("sol_consistency", &["NormalizedConsistency::is_consistent", "NormalizedConsistency::is_overconfident", "NormalizedConsistency::is_underconfident"], sol_consistency),
        h("sol_normality", &["ODSolution::ks_test_normality", "ODSolution::is_normal"], sol_normality),
        h("sol_smooth", &["ODSolution::smooth"], sol_smooth),
        h("sol_fs_ratio", &["ODSolution::smooth"], sol_fs_ratio),
    ]
}
