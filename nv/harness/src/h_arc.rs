//! Tracking data arcs: sorting, merging, filtering, chunking.
use crate::common::*;
use hifitime::{Duration, Epoch};
use indexmap::IndexMap;
use nvrt::*;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::MeasurementType::{self, Doppler, Range};
use nyx_space::od::msr::TrackingDataArc;
use std::ops::Bound::{self, Excluded, Included, Unbounded};

fn msr(trk: &str, t: f64, data: &[(MeasurementType, f64)]) -> Measurement {
    let mut m = Measurement::new(trk.into(), ep(t));
    for (k, v) in data {
        m.push(*k, *v);
    }
    m
}
/// arc of measurements in chronological order, identified by their values
fn arc<const N: usize>(trks: [&str; N], reject0: bool) -> ([f64; N], TrackingDataArc) {
    let ts = reals::<N>("t", -100.0, 100.0);
    for i in 1..N {
        assume_le(ts[i - 1], ts[i]);
    }
    let mut measurements = Vec::new();
    for i in 0..N {
        measurements.push(msr(trks[i], ts[i], &[(Range, real(&format!("r{i}"), -10.0, 10.0)), (Doppler, i as f64)]));
    }
    measurements[0].rejected = reject0;
    let mut a = TrackingDataArc { measurements, source: Some("src".into()), moduli: None, force_reject: false };
    a.moduli = Some(IndexMap::from([(Range, 7.0)]));
    a.force_reject = true;
    (ts, a)
}
fn same(label: &str, a: &Measurement, b: &Measurement) {
    ensures(label, a.tracker == b.tracker && a.data.len() == b.data.len());
    ensures_eq(label, secs(a.epoch), secs(b.epoch));
    for (k, v) in &b.data {
        ensures(label, a.data.contains_key(k));
        ensures_eq(label, a.data[k], *v);
    }
}
fn meta(label: &str, a: &TrackingDataArc, b: &TrackingDataArc) {
    ensures(label, a.source == b.source && a.force_reject == b.force_reject);
    ensures(label, a.moduli.as_ref().is_some_and(|m| m.len() == 1 && m.get(&Range) == Some(&7.0)));
}
fn keeps(label: &str, out: &TrackingDataArc, all: &TrackingDataArc, keep: &[bool]) {
    let want: Vec<_> = all.measurements.iter().zip(keep).filter(|(_, k)| **k).map(|(m, _)| m).collect();
    ensures(&format!("{label}: exactly the selected measurements"), want.len() == out.len());
    for (a, b) in out.measurements.iter().zip(want) {
        same(&format!("{label}: in order and unmodified"), a, b);
        ensures(&format!("{label}: the manual rejection is kept"), a.rejected == b.rejected);
    }
    meta(&format!("{label}: source, moduli and rejection flag are kept"), out, all);
}
/// the contract of sorting: chronological, and one record per tracker and epoch holding all of its observables
fn sorted_of(out: &TrackingDataArc, ins: &[Measurement]) {
    for w in out.measurements.windows(2) {
        if secs(w[0].epoch) == secs(w[1].epoch) {
            ensures("simultaneous measurements are of different trackers, in order", w[0].tracker < w[1].tracker);
        } else {
            ensures_lt("chronological", secs(w[0].epoch), secs(w[1].epoch));
        }
    }
    for m in ins {
        let n = out.measurements.iter().filter(|k| k.tracker == m.tracker && k.epoch == m.epoch).count();
        ensures("each tracker and epoch is there exactly once", n == 1);
    }
    for k in &out.measurements {
        let from: Vec<_> = ins.iter().filter(|m| k.tracker == m.tracker && k.epoch == m.epoch).collect();
        ensures("no measurement is made up", !from.is_empty());
        ensures("a merged record is rejected if any of its parts was", k.rejected == from.iter().any(|m| m.rejected));
        for ty in [Range, Doppler] {
            let vs: Vec<f64> = from.iter().filter_map(|m| m.data.get(&ty).copied()).collect();
            match k.data.get(&ty) {
                None => ensures("every observable is kept", vs.is_empty()),
                Some(v) => ensures("every observable has a value it was given", vs.iter().any(|w| w == v)),
            }
        }
    }
}
fn mixed(n: usize) -> Vec<Measurement> {
    mixed_rej(n, choose("rejected", n + 1))
}
fn mixed_rej(n: usize, rej: usize) -> Vec<Measurement> {
    (0..n)
        .map(|i| {
            let t = real(&format!("t{i}"), -100.0, 100.0);
            let trk = if flag(&format!("trk{i}")) { "A" } else { "B" };
            let r = (Range, real(&format!("r{i}"), -10.0, 10.0));
            let d = (Doppler, real(&format!("d{i}"), -10.0, 10.0));
            let mut m = match if i == 0 { 0 } else { choose(&format!("types{i}"), 2) + i - 1 } {
                0 => msr(trk, t, &[r]),
                1 => msr(trk, t, &[d]),
                _ => msr(trk, t, &[r, d]),
            };
            m.rejected = rej == i;
            m
        })
        .collect()
}
fn arc_sort() {
    bounded("3 measurements");
    let ins = mixed(3);
    let mut a = TrackingDataArc { measurements: ins.clone(), ..Default::default() };
    a.sort();
    sorted_of(&a, &ins);
    cover("sorted");
}
fn arc_add() {
    bounded("3 measurements");
    let ins = mixed_rej(3, 1);
    let case = choose("split", 3);
    let n = [1, 2, 1][case];
    let mut a = TrackingDataArc { measurements: ins[..n].to_vec(), force_reject: true, ..Default::default() };
    let b = TrackingDataArc { measurements: ins[n..].to_vec(), ..Default::default() };
    if case == 2 {
        a += b;
    } else {
        a = a + b;
    }
    sorted_of(&a, &ins);
    ensures("sums are processed", !a.force_reject);
    cover("added");
}
fn bound<T>(name: &str, v: T) -> Bound<T> {
    match choose(name, 3) {
        0 => Included(v),
        1 => Excluded(v),
        _ => Unbounded,
    }
}
fn inside(t: f64, lo: Bound<f64>, hi: Bound<f64>) -> bool {
    (match lo {
        Included(x) => x <= t,
        Excluded(x) => x < t,
        Unbounded => true,
    }) && (match hi {
        Included(x) => t <= x,
        Excluded(x) => t < x,
        Unbounded => true,
    })
}
fn map<T>(b: Bound<f64>, f: impl Fn(f64) -> T) -> Bound<T> {
    match b {
        Included(x) => Included(f(x)),
        Excluded(x) => Excluded(f(x)),
        Unbounded => Unbounded,
    }
}
fn arc_by_epoch() {
    bounded("3 measurements");
    let (ts, a) = arc(["A", "B", "A"], flag("reject0"));
    let (lo, hi) = (bound("lo", real("lo", -120.0, 120.0)), bound("hi", real("hi", -120.0, 120.0)));
    let range: (Bound<Epoch>, Bound<Epoch>) = (map(lo, ep), map(hi, ep));
    let op = choose("op", 3);
    let ins = ts.map(|t| inside(t, lo, hi));
    match op {
        0 => {
            let o = a.clone().filter_by_epoch(range);
            keeps("filter_by_epoch", &o, &a, &ins);
            cover("filter");
        }
        1 => {
            let o = a.clone().exclude_by_epoch(range);
            keeps("exclude_by_epoch", &o, &a, &ins.map(|x| !x));
            cover("exclude");
        }
        _ => {
            let o = a.clone().reject_by_epoch(range);
            ensures("rejection keeps all measurements", o.len() == a.len());
            for i in 0..3 {
                same("rejection only changes the flag", &o.measurements[i], &a.measurements[i]);
                ensures("exactly the measurements in the interval are rejected", o.measurements[i].rejected == (ins[i] || a.measurements[i].rejected));
            }
            meta("rejection keeps the arc", &o, &a);
            cover("reject");
        }
    }
}
fn arc_by_offset() {
    bounded("3 measurements");
    let (ts, a) = arc(["A", "B", "A"], false);
    let (lo, hi) = (bound("lo", real("lo", -10.0, 220.0)), bound("hi", real("hi", -10.0, 220.0)));
    let range: (Bound<Duration>, Bound<Duration>) = (map(lo, dur), map(hi, dur));
    let o = a.clone().filter_by_offset(range);
    keeps("filter_by_offset", &o, &a, &ts.map(|t| inside(t - ts[0], lo, hi)));
    ensures("an empty arc stays empty", TrackingDataArc::default().filter_by_offset((map(lo, dur), map(hi, dur))).is_empty());
    cover("filter");
}
fn arc_by_tracker() {
    bounded("3 measurements");
    let trks = [0, 1, 2].map(|i| if flag(&format!("trk{i}")) { "A" } else { "B" });
    let (_, a) = arc(trks, flag("reject0"));
    match choose("op", 3) {
        0 => keeps("filter_by_tracker", &a.clone().filter_by_tracker("A".into()), &a, &trks.map(|t| t == "A")),
        1 => keeps("exclude_tracker", &a.clone().exclude_tracker("A".into()), &a, &trks.map(|t| t != "A")),
        _ => {
            let o = a.clone().reject_by_tracker("A");
            ensures("rejection keeps all measurements", o.len() == a.len());
            for i in 0..3 {
                same("rejection only changes the flag", &o.measurements[i], &a.measurements[i]);
                ensures("exactly the measurements of the tracker are rejected", o.measurements[i].rejected == (trks[i] == "A" || a.measurements[i].rejected));
            }
            meta("rejection keeps the arc", &o, &a);
        }
    }
    cover("tracker");
}
fn arc_by_type() {
    bounded("3 measurements");
    let ins = mixed(3);
    let a = TrackingDataArc { measurements: ins.clone(), moduli: Some(IndexMap::from([(Range, 7.0)])), ..Default::default() };
    let o = a.clone().filter_by_measurement_type(Range);
    let want: Vec<_> = ins.iter().filter(|m| m.data.contains_key(&Range)).collect();
    ensures("filter_by_measurement_type: the measurements having that type", o.len() == want.len());
    for (m, w) in o.measurements.iter().zip(want) {
        ensures("filter_by_measurement_type: only that type is kept", m.data.len() == 1 && m.data.contains_key(&Range));
        ensures("filter_by_measurement_type: tracker and rejection are kept", m.tracker == w.tracker && m.rejected == w.rejected);
        ensures_eq("filter_by_measurement_type: epochs are kept", secs(m.epoch), secs(w.epoch));
        ensures_eq("filter_by_measurement_type: values are kept", m.data[&Range], w.data[&Range]);
    }
    let x = a.clone().exclude_measurement_type(Range);
    let has: Vec<_> = x.measurements.iter().filter(|m| !m.data.is_empty()).collect();
    let want: Vec<_> = ins.iter().filter(|m| m.data.contains_key(&Doppler)).collect();
    ensures("exclude_measurement_type: the measurements having another type", has.len() == want.len());
    for (m, w) in has.iter().zip(want) {
        ensures("exclude_measurement_type: that type is removed", m.data.len() == 1 && m.data.contains_key(&Doppler));
        ensures("exclude_measurement_type: tracker and rejection are kept", m.tracker == w.tracker && m.rejected == w.rejected);
        ensures_eq("exclude_measurement_type: epochs are kept", secs(m.epoch), secs(w.epoch));
        ensures_eq("exclude_measurement_type: values are kept", m.data[&Doppler], w.data[&Doppler]);
    }
    for b in [&o, &x] {
        ensures("moduli are kept", b.moduli.as_ref().is_some_and(|m| m.get(&Range) == Some(&7.0)));
    }
    let (trk, ty) = a.unique();
    for t in ["A", "B"] {
        ensures("unique trackers", trk.contains(t) == ins.iter().any(|m| m.tracker == t) && a.unique_aliases().contains(t) == trk.contains(t));
    }
    for t in [Range, Doppler] {
        ensures("unique types", ty.contains(&t) == ins.iter().any(|m| m.data.contains_key(&t)) && a.unique_types().contains(&t) == ty.contains(&t));
    }
    ensures("nothing else is listed", trk.len() <= 2 && ty.len() <= 2);
    cover("type");
}
fn arc_chunk() {
    bounded("4 measurements");
    let (ts, a) = arc(["A", "B", "A", "A"], flag("reject0"));
    let max = real("max", -10.0, 250.0);
    let cs = a.chunk(dur(max));
    if max <= 0.0 {
        ensures("no chunk of a null duration", cs.is_empty());
        cover("null");
        return;
    }
    let all: Vec<_> = cs.iter().flat_map(|c| c.measurements.iter()).collect();
    ensures("each measurement is in exactly one chunk", all.len() == 4);
    for i in 0..4 {
        same("the chunks are in order and unmodified", all[i], &a.measurements[i]);
        ensures("the chunks keep the rejections", all[i].rejected == a.measurements[i].rejected);
    }
    for c in &cs {
        ensures("no chunk is empty", !c.is_empty());
        ensures_le("no chunk is longer than the maximum", secs(c.end_epoch().unwrap()) - secs(c.start_epoch().unwrap()), max);
        meta("the chunks keep source, moduli and rejection flag", c, &a);
    }
    for w in cs.windows(2) {
        ensures_lt("a chunk is as long as possible", secs(w[0].start_epoch().unwrap()) + max, secs(w[1].start_epoch().unwrap()));
    }
    let _ = ts;
    cover("chunks");
}
fn arc_bounds() {
    bounded("3 measurements");
    let (ts, a) = arc(["A", "B", "A"], false);
    ensures_eq("start", secs(a.start_epoch().unwrap()), ts[0]);
    ensures_eq("end", secs(a.end_epoch().unwrap()), ts[2]);
    ensures_eq("duration", a.duration().unwrap().nv_s(), ts[2] - ts[0]);
    ensures("length", a.len() == 3 && !a.is_empty());
    let m = a.min_duration_sep().unwrap().nv_s();
    ensures_le("smallest separation", m, ts[1] - ts[0]);
    ensures_le("smallest separation", m, ts[2] - ts[1]);
    ensures("smallest separation is one of them", m == ts[1] - ts[0] || m == ts[2] - ts[1]);
    let e = TrackingDataArc::default();
    ensures("empty arcs have no epochs", e.start_epoch().is_none() && e.end_epoch().is_none() && e.duration().is_none() && e.min_duration_sep().is_none() && e.is_empty());
    ensures("only rejected on demand", !e.force_reject && e.resid_vs_ref_check().force_reject);
    cover("bounds");
}
fn arc_moduli() {
    bounded("2 measurements");
    let (r, d) = (reals::<2>("r", -40.0, 40.0), reals::<2>("d", -40.0, 40.0));
    let m = real("m", 5.0, 30.0);
    let mut a = TrackingDataArc {
        measurements: vec![msr("A", 0.0, &[(Range, r[0]), (Doppler, d[0])]), msr("B", 1.0, &[(Doppler, d[1]), (Range, r[1])])],
        ..Default::default()
    };
    a.clone().apply_moduli();
    if flag("overwrite") {
        a.set_moduli(Range, 3.0);
    }
    a.set_moduli(Range, m);
    a.set_moduli(Doppler, 0.0);
    ensures("null moduli are ignored", !a.moduli.as_ref().unwrap().contains_key(&Doppler));
    ensures_eq("the modulus is set", a.moduli.as_ref().unwrap()[&Range], m);
    a.apply_moduli();
    for i in 0..2 {
        let v = a.measurements[i].data[&Range];
        ensures_lt("below the modulus", v.abs(), m);
        ensures_le("on the same side", 0.0, v * r[i]);
        let k = (r[i] - v) / m;
        let n = if k < -7.5 { -8.0 } else { k.round() };
        ensures_eq_tol("a whole number of moduli is removed", r[i] - v, n * m, 0.0, 1e-9);
        ensures_eq("other types are not changed", a.measurements[i].data[&Doppler], d[i]);
    }
    cover("moduli");
}
fn arc_eq() {
    let (t, u) = (real("t", -10.0, 10.0), real("u", -10.0, 10.0));
    let (r, q) = (real("r", -10.0, 10.0), real("q", -10.0, 10.0));
    let ty = if flag("type") { Range } else { Doppler };
    let trk = if flag("trk") { "A" } else { "B" };
    let (a, b) = (msr("A", t, &[(Range, r)]), msr(trk, u, &[(ty, q)]));
    let (x, y) = (TrackingDataArc { measurements: vec![a.clone()], ..Default::default() }, TrackingDataArc { measurements: vec![b.clone()], ..Default::default() });
    if trk == "B" || ty == Doppler {
        ensures("measurements of different types or trackers differ", a != b && x != y);
    }
    let near = (r - q).abs() < 1e-12;
    if t != u || !near && (r - q).abs() > 1e-6 {
        ensures("measurements at different epochs or of different values differ", a != b && x != y);
        cover("different");
    }
    ensures("equality is reflexive", a == a.clone() && x == x.clone());
    ensures("arcs of different lengths differ", x != TrackingDataArc::default());
    cover("equality");
}
/// the same operations on long arcs
fn arc_long() {
    bounded("arcs of 60 and 250 records of three trackers, four types");
    use MeasurementType::{Azimuth, Elevation};
    let n = [60usize, 250][choose("n", 2)];
    let trk = |i: usize| ["A", "B", "C"][(i * i + i / 2) % 3];
    let tys = [Range, Doppler, Azimuth, Elevation];
    let mut ins = vec![];
    for i in 0..n {
        let j = (i * 7 + 3) % n;
        // two records every other epoch
        let t = (j / 2) as f64 * 2.5 - 20.0;
        let mut m = Measurement::new(trk(j).into(), ep(t));
        for (k, ty) in tys.iter().enumerate() {
            // each record has some of the types
            if (j + k) % 3 != 0 {
                m.push(*ty, (j * 10 + k) as f64);
            }
        }
        m.rejected = j % 17 == 0;
        ins.push(m);
    }
    let mut a = TrackingDataArc { measurements: ins.clone(), source: Some("src".into()), moduli: Some(IndexMap::from([(Range, 7.0)])), force_reject: true };
    a.sort();
    sorted_of(&a, &ins);
    for k in &a.measurements {
        for ty in [Azimuth, Elevation] {
            let vs: Vec<f64> = ins.iter().filter(|m| k.tracker == m.tracker && k.epoch == m.epoch).filter_map(|m| m.data.get(&ty).copied()).collect();
            match k.data.get(&ty) {
                None => ensures("every observable is kept", vs.is_empty()),
                Some(v) => ensures("every observable has a value it was given", vs.contains(v)),
            }
        }
    }
    let sel = |f: &dyn Fn(&Measurement) -> bool| a.measurements.iter().map(|m| f(m)).collect::<Vec<_>>();
    let (lo, hi) = (ep(-20.0 + 2.5 * (n / 8) as f64), ep(-20.0 + 2.5 * (n / 3) as f64));
    keeps("by epoch", &a.clone().filter_by_epoch(lo..hi), &a, &sel(&|m| m.epoch >= lo && m.epoch < hi));
    keeps("excluding epochs", &a.clone().exclude_by_epoch(lo..hi), &a, &sel(&|m| !(m.epoch >= lo && m.epoch < hi)));
    let t0 = a.start_epoch().unwrap();
    keeps("by offset", &a.clone().filter_by_offset((lo - t0)..=(hi - t0)), &a, &sel(&|m| m.epoch >= lo && m.epoch <= hi));
    keeps("by tracker", &a.clone().filter_by_tracker("B".into()), &a, &sel(&|m| m.tracker == "B"));
    keeps("excluding a tracker", &a.clone().exclude_tracker("B".into()), &a, &sel(&|m| m.tracker != "B"));
    let b = a.clone().reject_by_epoch(lo..hi);
    ensures("rejected by epoch", b.measurements.iter().zip(&a.measurements).all(|(x, y)| x.rejected == (y.rejected || y.epoch >= lo && y.epoch < hi)));
    let b = a.clone().reject_by_tracker("C");
    ensures("rejected by tracker", b.measurements.iter().zip(&a.measurements).all(|(x, y)| x.rejected == (y.rejected || y.tracker == "C")));
    for ty in tys {
        let only = a.clone().filter_by_measurement_type(ty);
        let want: Vec<f64> = a.measurements.iter().filter_map(|m| m.data.get(&ty).copied()).collect();
        ensures("by type: those with it", only.measurements.iter().filter_map(|m| m.data.get(&ty).copied()).eq(want.iter().copied()));
        ensures("by type: nothing else", only.measurements.iter().all(|m| m.data.len() == 1));
        let not = a.clone().exclude_measurement_type(ty);
        ensures("excluding a type: all others", not.measurements.iter().all(|m| !m.data.contains_key(&ty)));
        let count = |a: &TrackingDataArc| a.measurements.iter().map(|m| m.data.len()).sum::<usize>();
        ensures("excluding a type: all others", count(&not) + want.len() == count(&a));
    }
    let (al, ty) = a.unique();
    ensures("trackers and types", al.len() == 3 && ty.len() == 4);
    let cs = a.chunk(dur(2.5 * (n / 3) as f64));
    let all: Vec<_> = cs.iter().flat_map(|c| c.measurements.iter()).collect();
    ensures("each measurement is in one chunk", all.len() == a.len() && all.iter().zip(&a.measurements).all(|(x, y)| **x == *y && x.rejected == y.rejected));
    ensures("chunks are as long as possible", cs.len() == (n / 2).div_ceil(n / 3 + 1));
    // two halves make the whole
    let (x, y) = (TrackingDataArc { measurements: ins[..n / 2].to_vec(), ..Default::default() }, TrackingDataArc { measurements: ins[n / 2..].to_vec(), ..Default::default() });
    let z = x + y;
    sorted_of(&z, &ins);
    ensures("as many records", z.len() == a.len());
    cover("long");
}

pub fn list() -> Vec<Harness> {
    let h = |name, functions: &'static [&'static str], f| Harness { name, property: "P19", functions, f, may_panic: false };
    vec![
        h("arc_sort", &["TrackingDataArc::sort"], arc_sort),
        h("arc_add", &["TrackingDataArc::add", "TrackingDataArc::add_assign"], arc_add),
        h("arc_by_epoch", &["TrackingDataArc::filter_by_epoch", "TrackingDataArc::exclude_by_epoch", "TrackingDataArc::reject_by_epoch", "TrackingDataArc::resolve_bounds"], arc_by_epoch),
        h("arc_by_offset", &["TrackingDataArc::filter_by_offset"], arc_by_offset),
        h("arc_by_tracker", &["TrackingDataArc::filter_by_tracker", "TrackingDataArc::exclude_tracker", "TrackingDataArc::reject_by_tracker"], arc_by_tracker),
        h("arc_by_type", &["TrackingDataArc::filter_by_measurement_type", "TrackingDataArc::exclude_measurement_type", "TrackingDataArc::unique"], arc_by_type),
        h("arc_long", &["TrackingDataArc::sort", "TrackingDataArc::add", "TrackingDataArc::filter_by_*", "TrackingDataArc::exclude_*", "TrackingDataArc::reject_by_*", "TrackingDataArc::chunk", "TrackingDataArc::unique"], arc_long),
        h("arc_chunk", &["TrackingDataArc::chunk"], arc_chunk),
        h("arc_bounds", &["TrackingDataArc::start_epoch", "TrackingDataArc::end_epoch", "TrackingDataArc::duration", "TrackingDataArc::min_duration_sep"], arc_bounds),
        h("arc_moduli", &["TrackingDataArc::set_moduli", "TrackingDataArc::apply_moduli"], arc_moduli),
        h("arc_eq", &["Measurement::eq", "TrackingDataArc::eq"], arc_eq),
    ]
}
