//! Simulating tracking data: which samples are taken, when, and by whom; tracking schedules (P21).
use crate::common::*;
use crate::h_od::Nav;
use anise::almanac::Almanac;
use anise::analysis::event::{EventDetails, EventEdge, VisibilityArc};
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME};
use anise::errors::AlmanacResult;
use anise::prelude::{Frame, Orbit};
use hifitime::{Duration, Epoch, Unit};
use indexmap::IndexSet;
use nvrt::*;
use nyx_space::io::ConfigRepr;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrackingArcSim, TrkConfig};
use nyx_space::od::{GroundStation, ODError, TrackingDevice};
use nyx_space::Spacecraft;
use rand_pcg::rand_core::Rng;
use rand_pcg::Pcg64Mcg;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sight {
    Seen,
    Hidden,
    Fails,
}
use Sight::*;
#[derive(Default)]
struct Log {
    /// the special call, and what it gives
    special: Option<(usize, u8)>,
    calls: Vec<(String, Epoch, Option<u64>)>,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::default();
}
/// a tracker that remembers when it was asked for a measurement
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rec {
    name: String,
    #[serde(skip)]
    types: IndexSet<MeasurementType>,
}
impl ConfigRepr for Rec {}
fn outcome(i: usize) -> Sight {
    LOG.with(|l| match l.borrow().special {
        Some((k, w)) if k == i => [Hidden, Fails][w as usize],
        _ => Seen,
    })
}
impl TrackingDevice<Nav> for Rec {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn measurement_types(&self) -> &IndexSet<MeasurementType> {
        &self.types
    }
    fn measure(&mut self, epoch: Epoch, traj: &Traj<Nav>, rng: Option<&mut Pcg64Mcg>, _: &Almanac) -> Result<Option<Measurement>, ODError> {
        ensures("the receiver trajectory is the one provided", traj.states.len() == 2 && traj.states[1].x[0] == 42.0);
        let i = LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.calls.push((self.name.clone(), epoch, rng.map(|r| r.next_u64())));
            l.calls.len() - 1
        });
        match outcome(i) {
            Seen => {
                let mut m = Measurement::new(self.name.clone(), epoch);
                m.push(MeasurementType::Range, i as f64);
                Ok(Some(m))
            }
            Hidden => Ok(None),
            Fails => Err(ODError::TooFewMeasurements { need: 1, action: "test" }),
        }
    }
    fn location(&self, _: Epoch, _: Frame, _: &Almanac) -> AlmanacResult<Orbit> {
        unimplemented!()
    }
    fn measure_instantaneous(&mut self, _: Nav, _: Option<&mut Pcg64Mcg>, _: &Almanac) -> Result<Option<Measurement>, ODError> {
        unimplemented!()
    }
    fn measurement_covar(&self, _: MeasurementType, _: Epoch) -> Result<f64, ODError> {
        unimplemented!()
    }
    fn measurement_bias(&self, _: MeasurementType, _: Epoch) -> Result<f64, ODError> {
        unimplemented!()
    }
}
fn rec(names: &[&str]) -> BTreeMap<String, Rec> {
    names.iter().map(|n| (n.to_string(), Rec { name: n.to_string(), types: IndexSet::from([MeasurementType::Range]) })).collect()
}
fn traj() -> Traj<Nav> {
    let mut t = Traj::new();
    t.states.push(Nav { epoch: ep(-100.0), ..Default::default() });
    let mut n = Nav { epoch: ep(100.0), ..Default::default() };
    n.x[0] = 42.0;
    t.states.push(n);
    t
}
fn strand(n: &str, max: f64) -> (Strand, f64, f64) {
    let s = real(&format!("{n}.start"), -50.0, 50.0);
    let l = real(&format!("{n}.length"), -1.0, max);
    (Strand::new(ep(s), ep(s + l)), s, l)
}
/// what a strand asks of its tracker: one sample at the start, then every `step`, up to and including the end
fn samples(s: f64, l: f64, step: f64) -> Vec<f64> {
    let mut v = vec![];
    while v.len() as f64 * step <= l {
        v.push(s + v.len() as f64 * step);
    }
    v
}
fn reset(special: Option<(usize, u8)>) {
    LOG.with(|l| *l.borrow_mut() = Log { special, calls: vec![] });
}
fn calls() -> Vec<(String, Epoch, Option<u64>)> {
    LOG.with(|l| l.borrow().calls.clone())
}
/// the calls are those of the strands; the arc holds what was seen, in chronological order
fn check_sim(want: &[(&str, f64)], arc: &nyx_space::od::msr::TrackingDataArc) {
    let got = calls();
    ensures("the trackers are asked for exactly the samples of their strands", got.len() == want.len());
    for (g, w) in got.iter().zip(want) {
        ensures("sample: tracker", g.0 == w.0);
        ensures_eq("sample: epoch", secs(g.1), w.1);
        ensures("sample: noise is generated", g.2.is_some());
    }
    let seen: Vec<usize> = (0..want.len()).filter(|i| outcome(*i) == Seen).collect();
    ensures("every visible sample is one measurement", arc.measurements.len() == seen.len());
    for i in &seen {
        let m: Vec<_> = arc.measurements.iter().filter(|m| m.data.get(&MeasurementType::Range) == Some(&(*i as f64))).collect();
        ensures("every visible sample is one measurement", m.len() == 1 && m[0].tracker == want[*i].0 && m[0].data.len() == 1);
        ensures_eq("measurement: epoch", secs(m[0].epoch), want[*i].1);
    }
    for p in arc.measurements.windows(2) {
        ensures_le("the arc is chronological", secs(p[0].epoch), secs(p[1].epoch));
    }
    ensures("the arc is usable", arc.moduli.is_none() && !arc.force_reject);
    cover("simulated");
}
fn cfg(sampling: Duration, strands: Vec<Strand>) -> TrkConfig {
    TrkConfig { scheduler: None, sampling, strands: Some(strands) }
}
/// one tracker, two strands of up to three samples, one of which may be hidden or fail
fn sim_one() {
    bounded("one tracker, two strands of at most three samples");
    let (s1, a1, l1) = strand("s1", 25.0);
    let (mut s2, _, l2) = strand("s2", 25.0);
    // the strands of a tracker do not overlap
    let gap = real("gap", 0.5, 20.0);
    let a2 = a1 + l1 + gap;
    s2 = Strand::new(ep(a2), ep(a2 + l2));
    let swapped = flag("swapped");
    let (step, st) = if flag("10 s") { (Unit::Second * 10, 10.0) } else { (Unit::Second * 12.5, 12.5) };
    // at least one proper strand, or the configuration is refused
    assume_le(st, l1);
    assume_le(st, l2);
    let special = match choose("special", 7) {
        6 => None,
        i => Some((i, choose("what", 2) as u8)),
    };
    reset(special);
    let mut sim = TrackingArcSim::with_seed(rec(&["A", "unconfigured"]), traj(), BTreeMap::from([("A".to_string(), cfg(step, if swapped { vec![s2, s1] } else { vec![s1, s2] })), ("absent".to_string(), cfg(step, vec![s1]))]), 7).unwrap();
    let arc = sim.generate_measurements(&Almanac::default());
    ensures("strands are simulated", arc.is_ok());
    let mut want: Vec<(&str, f64)> = vec![];
    for (s, l) in if swapped { [(a2, l2), (a1, l1)] } else { [(a1, l1), (a2, l2)] } {
        for t in samples(s, l, st) {
            want.push(("A", t));
            if outcome(want.len() - 1) == Fails {
                // a failure ends its strand only
                break;
            }
        }
    }
    check_sim(&want, &arc.unwrap());
}
/// two trackers, each with its own sampling
fn sim_two() {
    bounded("two trackers, one strand of at most three samples each");
    let (s1, a1, l1) = strand("s1", 25.0);
    let (s2, a2, l2) = strand("s2", 19.0);
    assume_le(10.0, l1);
    assume_le(7.0, l2);
    reset(None);
    let c = BTreeMap::from([("A".to_string(), cfg(Unit::Second * 10, vec![s1])), ("B".to_string(), cfg(Unit::Second * 7, vec![s2]))]);
    let mut sim = TrackingArcSim::with_seed(rec(&["A", "B"]), traj(), c, 7).unwrap();
    let arc = sim.generate_measurements(&Almanac::default()).unwrap();
    let mut want: Vec<(&str, f64)> = samples(a1, l1, 10.0).into_iter().map(|t| ("A", t)).collect();
    want.extend(samples(a2, l2, 7.0).into_iter().map(|t| ("B", t)));
    check_sim(&want, &arc);
}
/// the same seed gives the same measurements; successive calls do not
fn sim_seed() {
    let s = Strand::new(ep(0.0), ep(20.0));
    let c = || BTreeMap::from([("A".to_string(), cfg(Unit::Second * 10, vec![s])), ("B".to_string(), cfg(Unit::Second * 5, vec![s]))]);
    let al = Almanac::default();
    let run = |seed: u64| {
        let mut sim = TrackingArcSim::with_seed(rec(&["A", "B"]), traj(), c(), seed).unwrap();
        reset(None);
        sim.generate_measurements(&al).unwrap();
        let a = calls();
        reset(None);
        sim.generate_measurements(&al).unwrap();
        (a, calls())
    };
    let draws = |v: &Vec<(String, Epoch, Option<u64>)>| v.iter().map(|c| c.2).collect::<Vec<_>>();
    let seed = [0u64, 1, 42, u64::MAX][choose("seed", 4)];
    let (a, b) = (run(seed), run(seed));
    ensures("the same seed gives the same draws", draws(&a.0) == draws(&b.0) && draws(&a.1) == draws(&b.1));
    let mut all = draws(&a.0);
    all.extend(draws(&a.1));
    let n = all.len();
    all.sort();
    all.dedup();
    ensures("no draw is used twice", all.len() == n && n == 16);
    // with_rng starts from the generator it is given
    let mut r = Pcg64Mcg::new(seed as u128);
    let first = r.clone().next_u64();
    r.next_u64();
    let mut sim = TrackingArcSim::with_rng(rec(&["A"]), traj(), c(), Pcg64Mcg::new(seed as u128)).unwrap();
    reset(None);
    sim.generate_measurements(&al).unwrap();
    ensures("the provided generator is used", calls()[0].2 == Some(first));
    cover("seeded");
}
/// which configurations are accepted
fn sim_config() {
    bounded("two strands");
    let sampling = Unit::Second * 10;
    let (s1, _, l1) = strand("s1", 25.0);
    let (s2, _, l2) = strand("s2", 25.0);
    let which = choose("config", 5);
    let c = match which {
        0 => TrkConfig { scheduler: Some(Scheduler::default()), sampling, strands: None },
        1 => TrkConfig { scheduler: Some(Scheduler::default()), sampling, strands: Some(vec![s1]) },
        2 => TrkConfig { scheduler: None, sampling, strands: None },
        3 => TrkConfig { scheduler: None, sampling, strands: Some(vec![]) },
        _ => TrkConfig { scheduler: None, sampling, strands: Some(vec![s1, s2]) },
    };
    let ok = TrackingArcSim::with_seed(rec(&["A"]), traj(), BTreeMap::from([("A".to_string(), c)]), 0);
    let want = match which {
        0 => true,
        4 => l1 >= 10.0 && l2 >= 10.0,
        _ => false,
    };
    ensures("exactly the usable configurations are accepted", ok.is_ok() == want);
    if let Ok(mut sim) = ok {
        reset(None);
        ensures("a schedule must be built before measurements are generated", sim.generate_measurements(&Almanac::default()).is_ok() == (which == 4));
        if which == 4 {
            cover("accepted");
        }
    }
    ensures("no configured device is an error", TrackingArcSim::with_seed(rec(&["B"]), traj(), BTreeMap::from([("A".to_string(), TrkConfig::default())]), 0).is_err());
    // Strand
    let t = real("t", -100.0, 100.0);
    let (s, l) = (secs(s1.start), l1);
    ensures("strand contains", s1.contains(ep(t)) == (s <= t && t <= s + l));
    ensures_eq("strand duration", s1.duration().nv_s(), l);
}

/* ---- schedules ---- */
fn arc_at(rise: f64, fall: f64) -> VisibilityArc {
    let ev = |t: f64| {
        let mut orbit = Orbit::zero(EARTH_J2000);
        orbit.epoch = ep(t);
        EventDetails { orbit, edge: EventEdge::Rising, value: 0.0, prev_value: None, next_value: None, pm_duration: Duration::ZERO, repr: String::new() }
    };
    VisibilityArc { rise: ev(rise), fall: ev(fall), location_ref: String::new(), location: gs("x", 0.0).location, aer_data: vec![], sample_rate: Unit::Second * 1 }
}
fn gs(name: &str, lat: f64) -> GroundStation {
    GroundStation::from_point(name.to_string(), lat, 10.0, 0.1, IAU_EARTH_FRAME)
}
const STEP: f64 = 10.0;
/// station `k` (in alphabetical order) is at latitude k and sees the spacecraft during `passes[k]`
fn schedule(stations: Vec<(&str, Option<Scheduler>)>, passes: Vec<Vec<(f64, f64)>>) -> Result<BTreeMap<String, TrkConfig>, anise::analysis::AnalysisError> {
    let mut t = Traj::<Spacecraft>::new();
    for e in [-1000.0, 1000.0] {
        let mut o = Orbit::zero(EARTH_J2000);
        o.epoch = ep(e);
        t.states.push(Spacecraft { orbit: o, ..Default::default() });
    }
    let mut dev = BTreeMap::new();
    let mut cfg = BTreeMap::new();
    for (k, (n, s)) in stations.into_iter().enumerate() {
        dev.insert(n.to_string(), gs(n, k as f64));
        cfg.insert(n.to_string(), TrkConfig { scheduler: s, sampling: Unit::Second * STEP, strands: if s.is_some() { None } else { Some(vec![Strand::new(ep(900.0), ep(950.0))]) } });
    }
    anise::nvhook::install(|h| {
        h.vis = Some(Rc::new(move |al, id, s, e, step, body| {
            let loc = al.location_from_id(id).unwrap();
            ensures("visibility: the whole trajectory is searched", secs(s) == -1000.0 && secs(e) == 1000.0);
            ensures("visibility: sampling and obstruction", step == Unit::Second * STEP && body.is_none());
            Some(passes[loc.latitude_deg as usize].iter().map(|(a, b)| arc_at(*a, *b)).collect())
        }))
    });
    trust("anise::Almanac::report_visibility_arcs returns the passes of the spacecraft over the station, in order");
    let mut sim = TrackingArcSim::with_seed(dev, t, cfg.clone(), 0).unwrap();
    let before = sim.configs.clone();
    let r = sim.generate_schedule(&Almanac::default());
    ensures("generating a schedule changes nothing", sim.configs == before);
    let r2 = sim.build_schedule(&Almanac::default());
    ensures("build_schedule", r.is_ok() == r2.is_ok() && r.as_ref().map(|r| *r == sim.configs).unwrap_or(true));
    anise::nvhook::install(|h| h.vis = None);
    for (n, s) in &cfg {
        if let Ok(r) = &r {
            ensures("the schedule replaces the scheduler", r[n].scheduler.is_none() && r[n].strands.is_some() && r[n].sampling == s.sampling);
        }
    }
    r
}
fn sched(handoff: Handoff) -> Scheduler {
    Scheduler { handoff, cadence: Cadence::Continuous, min_samples: 0, sample_alignment: None }
}
fn eq_strands(label: &str, got: &[Strand], want: &[(f64, f64)]) {
    ensures(&format!("{label}: the strands"), got.len() == want.len());
    for (g, w) in got.iter().zip(want) {
        ensures_eq(&format!("{label}: start"), secs(g.start), w.0);
        ensures_eq(&format!("{label}: end"), secs(g.end), w.1);
    }
}
fn strands(r: &BTreeMap<String, TrkConfig>, n: &str) -> Vec<Strand> {
    r[n].strands.clone().unwrap()
}
/// one station: passes with enough samples are the strands
fn sched_one() {
    bounded("two passes");
    let r1 = real("rise1", -200.0, 200.0);
    let d1 = real("length1", 0.0, 100.0);
    let gap = real("gap", 1.0, 100.0);
    let d2 = real("length2", 0.0, 100.0);
    let r2 = r1 + d1 + gap;
    let n = [0, 1, 5][choose("min samples", 3)];
    let p = vec![(r1, r1 + d1), (r2, r2 + d2)];
    let s = Scheduler { min_samples: n, ..sched([Handoff::Eager, Handoff::Greedy, Handoff::Overlap][choose("handoff", 3)]) };
    let r = schedule(vec![("A", Some(s)), ("B", None)], vec![p, vec![]]);
    let want: Vec<(f64, f64)> = [(r1, d1), (r2, d2)].into_iter().filter(|(_, d)| *d >= n as f64 * STEP).map(|(r, d)| (r, r + d)).collect();
    let r = r.unwrap();
    eq_strands("one station", &strands(&r, "A"), &want);
    eq_strands("given strands are kept", &strands(&r, "B"), &[(900.0, 950.0)]);
    if want.len() == 2 {
        cover("two passes tracked");
    }
}
/// strands start and end on the requested alignment
fn sched_align() {
    bounded("one pass");
    let r = real("rise", 100.0, 500.0);
    let d = real("length", 0.0, 100.0);
    let s = Scheduler { sample_alignment: Some(Unit::Second * 60), min_samples: 2, ..sched(Handoff::Eager) };
    let got = strands(&schedule(vec![("A", Some(s)), ("B", None)], vec![vec![(r, r + d)], vec![]]).unwrap(), "A");
    ensures("aligned: the strands", got.len() == (d >= 20.0) as usize);
    if d >= 20.0 {
        let round = |t: f64| (t / 60.0).round() * 60.0;
        let (a, b) = (secs(got[0].start), secs(got[0].end));
        ensures_eq("aligned start", a, round(r));
        ensures_eq("aligned end", b, round(r + d));
        cover("aligned");
    }
}
/// an intermittent tracker is on for at most `on` and off for at least `off`
fn sched_cadence() {
    bounded("three passes");
    let (on, off) = (real("on", 10.0, 50.0), real("off", 10.0, 200.0));
    let mut t = real("rise", -200.0, 0.0);
    let mut p = vec![];
    for k in 0..3 {
        let d = real(&format!("length{k}"), 20.0, 100.0);
        p.push((t, t + d));
        t += d + real(&format!("gap{k}"), 1.0, 100.0);
    }
    let s = Scheduler { cadence: Cadence::Intermittent { on: dur(on), off: dur(off) }, min_samples: 2, ..sched(Handoff::Overlap) };
    let got = strands(&schedule(vec![("A", Some(s)), ("B", None)], vec![p.clone(), vec![]]).unwrap(), "A");
    let mut want: Vec<(f64, f64)> = vec![];
    for (a, b) in p {
        let mut start = a;
        if let Some((_, e)) = want.last() {
            if e + off > start {
                start = e + off;
                if start > b {
                    continue;
                }
            }
        }
        want.push((start, if b - start > on { start + on } else { b }));
    }
    eq_strands("intermittent", &got, &want);
    for s in &got {
        ensures_le("on for no longer than requested", secs(s.end) - secs(s.start), on);
    }
    for w in got.windows(2) {
        ensures_le("off for no less than requested", off, secs(w[1].start) - secs(w[0].end));
    }
    cover("intermittent");
}
const HANDOFF: [Handoff; 3] = [Handoff::Eager, Handoff::Greedy, Handoff::Overlap];
/// two stations in view at the same time
fn sched_handoff() {
    bounded("two stations, one pass each");
    let (a, b) = (real("riseA", -200.0, 200.0), real("riseB", -200.0, 200.0));
    let (la, lb) = (real("lengthA", 20.0, 100.0), real("lengthB", 20.0, 100.0));
    assume_ne(a, b);
    let (ha, hb) = (HANDOFF[choose("A", 3)], HANDOFF[choose("B", 3)]);
    let r = schedule(vec![("A", Some(sched(ha))), ("B", Some(sched(hb)))], vec![vec![(a, a + la)], vec![(b, b + lb)]]).unwrap();
    let (mut wa, mut wb) = ((a, a + la), (b, b + lb));
    {
        let (first, h, second) = if a < b { (&mut wa, ha, &mut wb) } else { (&mut wb, hb, &mut wa) };
        if first.1 >= second.0 {
            match h {
                Handoff::Greedy => second.0 = first.1 + STEP,
                Handoff::Eager => first.1 = second.0 - STEP,
                Handoff::Overlap => {}
            }
            cover("in view at the same time");
        }
    }
    eq_strands("A", &strands(&r, "A"), &[wa]);
    eq_strands("B", &strands(&r, "B"), &[wb]);
}
/// eager stations never track at the same time
fn sched_eager() {
    bounded("three stations, one pass each");
    let p = [0, 1, 2].map(|k| {
        let a = real(&format!("rise{k}"), -200.0, 200.0);
        (a, a + real(&format!("length{k}"), 20.0, 100.0))
    });
    let e = Some(sched(Handoff::Eager));
    let r = schedule(vec![("A", e), ("B", e), ("C", e)], p.iter().map(|p| vec![*p]).collect()).unwrap();
    let s = ["A", "B", "C"].map(|n| strands(&r, n)[0]);
    for i in 0..3 {
        for j in 0..3 {
            if i != j && p[i].0 < p[j].0 {
                ensures_lt("eager stations do not track at the same time", secs(s[i].end), secs(s[j].start));
            }
        }
        ensures_eq("an eager station starts when the spacecraft rises", secs(s[i].start), p[i].0);
        ensures_le("an eager station stops at the latest when the spacecraft sets", secs(s[i].end), p[i].1);
    }
    cover("eager");
}
/// no station ever sees the spacecraft
fn sched_none() {
    let e = Some(sched(HANDOFF[choose("h", 3)]));
    let r = schedule(vec![("A", e), ("B", e)], vec![vec![], vec![]]);
    ensures("nothing to track", r.is_ok());
    let r = r.unwrap();
    eq_strands("A", &strands(&r, "A"), &[]);
    eq_strands("B", &strands(&r, "B"), &[]);
    cover("none");
}
pub fn list() -> Vec<Harness> {
    macro_rules! h {
        ($n:ident, $f:expr) => {
            Harness { name: concat!(stringify!($n)), property: "P21", functions: $f, f: $n, may_panic: false }
        };
    }
    const SIM: &[&str] = &["TrackingArcSim::with_rng", "TrackingArcSim::with_seed", "TrackingArcSim::generate_measurements", "TrkConfig::sanity_check"];
    const SCH: &[&str] = &["TrackingArcSim::generate_schedule", "TrackingArcSim::build_schedule"];
    vec![h!(sim_one, SIM), h!(sim_two, SIM), h!(sim_seed, SIM), h!(sim_config, SIM), h!(sched_one, SCH), h!(sched_align, SCH), h!(sched_cadence, SCH), h!(sched_handoff, SCH), h!(sched_eager, SCH), h!(sched_none, SCH)]
}
