//! nvrt: runtime of the nyx contract verifier.
//!
//! * `ops`   : the functions the rewritten code calls for every f64 operation
//! * `term`  : term DAG
//! * `poly`  : ring normaliser (back end 1)
//! * `smt`   : SMT back ends (z3, cvc5)
//! * this file: path exploration, obligations, harness API, concrete replay
#![allow(static_mut_refs)]
pub mod ops;
pub mod poly;
pub mod smt;
pub mod term;

use poly::Norm;
use smt::{Con, Rel, Sat};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Instant;
use term::*;

pub const TAG: u64 = 0xFFFB_0000_0000_0000;
pub const MASK: u64 = 0xFFFF_0000_0000_0000;

#[inline(always)]
pub fn boxed(x: f64) -> bool {
    (x.to_bits() & MASK) == TAG
}
#[inline(always)]
pub fn unbox(x: f64) -> Id {
    (x.to_bits() & 0xFFFF_FFFF) as Id
}
#[inline(always)]
pub fn mkbox(i: Id) -> f64 {
    f64::from_bits(TAG | i as u64)
}

pub struct PathAbort;

#[derive(Clone, Debug)]
struct Decision {
    key: (u8, Id), // relation / choice marker, node
    cur: usize,
    rest: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub kind: String, // counterexample | undecided | panic
    pub detail: String,
    pub witness: Option<BTreeMap<String, f64>>,
}

#[derive(Default, Clone)]
pub struct Stat {
    pub n: u64,
    pub by: BTreeMap<String, u64>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Symbolic,
    Concrete,
}

pub struct Cx {
    pub mode: Mode,
    pub t: Terms,
    pub norm: Norm,
    // path state
    pc: Vec<Con>,
    facts: HashMap<Id, u8>,
    active: u32,
    dec: Vec<Decision>,
    cursor: usize,
    choices: BTreeMap<String, f64>,
    path_obligs: u64,
    // global
    pub obligs: BTreeMap<String, Stat>,
    pub covers: BTreeMap<String, bool>,
    pub fails: Vec<Failure>,
    pub assumptions: BTreeSet<String>,
    pub solver_ms: u128,
    pub solver_calls: u64,
    pub paths: u64,
    pub aborted: u64,
    pub divs: BTreeSet<Id>,
    leafmemo: HashMap<Id, Rc<BTreeSet<Id>>>,
    pub opts: Opts,
    // concrete mode
    inputs: BTreeMap<String, f64>,
    missing: Vec<String>,
    perturb: Option<(String, f64)>,
    dlog: Vec<(String, f64)>,
    dvals: Vec<f64>,
    dcount: usize,
    pub panic_msg: String,
    pub allow_bits: bool,
}

#[derive(Clone)]
pub struct Opts {
    pub feas_ms: u64,
    pub prove_ms: u64,
    pub max_paths: u64,
    pub poly_limit: u64,
    pub seed: u64,
    pub max_fails: usize,
    pub deadline_s: f64,
    pub bounded: Option<String>,
    pub tol: f64,
    pub strict_div: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            feas_ms: 1500,
            prove_ms: 15000,
            max_paths: 20000,
            poly_limit: 3_000_000,
            seed: 1,
            max_fails: 6,
            deadline_s: 600.0,
            bounded: None,
            tol: 1e-7,
            strict_div: false,
        }
    }
}

static mut CX: Option<Box<Cx>> = None;

pub fn cx() -> &'static mut Cx {
    unsafe { CX.get_or_insert_with(|| Box::new(Cx::new(Mode::Concrete))) }
}

impl Cx {
    pub fn new(mode: Mode) -> Cx {
        let mut t = Terms::default();
        t.konst(0.0);
        Cx {
            mode,
            t,
            norm: Norm::new(),
            pc: vec![],
            facts: HashMap::new(),
            active: (1u64 << S).wrapping_sub(1) as u32,
            dec: vec![],
            cursor: 0,
            choices: BTreeMap::new(),
            path_obligs: 0,
            obligs: BTreeMap::new(),
            covers: BTreeMap::new(),
            fails: vec![],
            assumptions: BTreeSet::new(),
            solver_ms: 0,
            solver_calls: 0,
            paths: 0,
            aborted: 0,
            divs: BTreeSet::new(),
            leafmemo: HashMap::new(),
            opts: Opts::default(),
            inputs: BTreeMap::new(),
            missing: vec![],
            perturb: None,
            dlog: vec![],
            dvals: vec![],
            dcount: 0,
            panic_msg: String::new(),
            allow_bits: false,
        }
    }

    pub fn id_of(&mut self, x: f64) -> Id {
        if boxed(x) {
            unbox(x)
        } else {
            self.t.konst(x)
        }
    }
    pub fn wrap(&self, i: Id) -> f64 {
        match self.t.is_const(i) {
            Some(c) => c,
            None => mkbox(i),
        }
    }

    fn canon(&self, d: Id) -> (Id, bool) {
        // canonical orientation of differences: Sub(a,b) with a<b
        let n = self.t.n(d);
        (d, n.op == Op::Sub && n.args[0] > n.args[1])
    }

    fn fact_of(&mut self, d: Id) -> u8 {
        // bit0: negative, bit1: zero, bit2: positive possible
        let (k, _) = self.canon(d);
        let mut f = *self.facts.get(&k).unwrap_or(&7);
        let n = self.t.n(d);
        // flipped difference
        if n.op == Op::Sub {
            let (a, b) = (n.args[0], n.args[1]);
            let fl = self.t.mk(Op::Sub, &[b, a]);
            if let Some(g) = self.facts.get(&fl) {
                let g = *g;
                f &= ((g & 1) << 2) | (g & 2) | ((g & 4) >> 2);
            }
        } else if n.op == Op::Neg {
            let a = n.args[0];
            if let Some(g) = self.facts.get(&a) {
                let g = *g;
                f &= ((g & 1) << 2) | (g & 2) | ((g & 4) >> 2);
            }
        }
        let n = self.t.n(d);
        if n.lo > 0.0 {
            f &= 4;
        } else if n.lo == 0.0 {
            f &= 6;
        }
        if n.hi < 0.0 {
            f &= 1;
        } else if n.hi == 0.0 {
            f &= 3;
        }
        f
    }

    pub fn fact_of_pub(&mut self, d: Id) -> u8 {
        self.fact_of(d)
    }

    fn relset(rel: Rel) -> u8 {
        match rel {
            Rel::Lt => 1,
            Rel::Le => 3,
            Rel::Eq => 2,
            Rel::Ne => 5,
        }
    }

    fn sample_sat(&self, c: Con, s: usize) -> Option<bool> {
        let n = self.t.n(c.id);
        let (v, e) = (n.v[s], n.e[s]);
        if v.is_nan() || !v.is_finite() {
            return None;
        }
        let tol = 8.0 * e;
        Some(match c.rel {
            Rel::Lt => {
                if v < -tol {
                    true
                } else if v > tol || (tol == 0.0 && v == 0.0) {
                    false
                } else {
                    return None;
                }
            }
            Rel::Le => {
                if v < -tol || (tol == 0.0 && v <= 0.0) {
                    true
                } else if v > tol {
                    false
                } else {
                    return None;
                }
            }
            Rel::Eq => {
                if v.abs() > tol {
                    false
                } else if tol == 0.0 {
                    true
                } else {
                    return None;
                }
            }
            Rel::Ne => {
                if v.abs() > tol {
                    true
                } else if tol == 0.0 {
                    false
                } else {
                    return None;
                }
            }
        })
    }

    fn push_con(&mut self, mut c: Con) {
        // x <= 0 together with x >= 0 is an equality
        if c.rel == Rel::Le && self.fact_of(c.id) & 1 == 0 {
            c.rel = Rel::Eq;
        }
        if self.pc.contains(&c) {
            return;
        }
        self.pc.push(c);
        let f = self.fact_of(c.id) & Self::relset(c.rel);
        self.facts.insert(c.id, f);
        for s in 0..S {
            if self.active & (1 << s) != 0 && self.sample_sat(c, s) != Some(true) {
                self.active &= !(1 << s);
            }
        }
    }

    fn neg_con(c: Con, t: &mut Terms) -> Con {
        match c.rel {
            Rel::Lt => Con { rel: Rel::Le, id: t.neg(c.id) },
            Rel::Le => Con { rel: Rel::Lt, id: t.neg(c.id) },
            Rel::Eq => Con { rel: Rel::Ne, id: c.id },
            Rel::Ne => Con { rel: Rel::Eq, id: c.id },
        }
    }

    fn poly_const(&mut self, d: Id) -> Option<f64> {
        self.norm.start(self.opts.poly_limit / 10);
        let p = self.norm.poly(&self.t, d)?;
        if let Some(c) = p.is_const() {
            return Some(c);
        }
        // vanishing rational function?
        // cheap numeric filter first
        let n = self.t.n(d);
        let any_nonzero = (0..S).any(|s| n.v[s].is_finite() && n.v[s].abs() > 1e3 * n.e[s] + 1e-300);
        if any_nonzero {
            return None;
        }
        if self.norm.is_zero(&p) {
            return Some(0.0);
        }
        None
    }

    fn solve(&mut self, cons: &[Con], goal: Con, ms: u64, solvers: &[&str]) -> (Sat, String) {
        let mut all = smt::slice(&self.t, cons, &[goal], &mut self.leafmemo);
        all.push(goal);
        self.norm.start(self.opts.poly_limit / 10);
        let q = smt::build(&self.t, &mut self.norm, &all, "");
        for s in solvers {
            let t0 = Instant::now();
            let r = smt::run(s, &q, ms);
            self.solver_ms += t0.elapsed().as_millis();
            self.solver_calls += 1;
            if r != Sat::Unknown {
                return (r, s.to_string());
            }
        }
        if std::env::var("NV_DUMP").is_ok() {
            eprintln!("; unknown query\n{}(check-sat)", q.text);
        }
        (Sat::Unknown, String::new())
    }

    /// what the path condition says of a node that is a constant times one of its nodes
    fn fact_by_pc(&mut self, d: Id) -> u8 {
        let mut f = 7;
        let mut ids: Vec<Id> = self.pc.iter().map(|c| c.id).collect();
        ids.sort();
        ids.dedup();
        'ids: for e in ids {
            let (nd, ne) = (self.t.n(d), self.t.n(e));
            let (mut k, mut n) = (0.0, 0);
            for s in 0..S {
                let (x, y) = (nd.v[s], ne.v[s]);
                if !x.is_finite() || !y.is_finite() {
                    continue;
                }
                if x.abs() <= 1e3 * nd.e[s] || y.abs() <= 1e3 * ne.e[s] {
                    continue;
                }
                let r = x / y;
                if n == 0 {
                    k = r;
                } else if (r - k).abs() > 1e-9 * k.abs() + (nd.e[s] / y.abs() + ne.e[s] / y.abs() * r.abs()) * 64.0 {
                    continue 'ids;
                }
                n += 1;
            }
            if n < 3 || k == 0.0 {
                continue;
            }
            if (k.abs() - 1.0).abs() < 1e-6 {
                k = k.signum();
            }
            let c = self.t.konst(k);
            let ke = self.t.mul(c, e);
            let z = self.t.sub(d, ke);
            self.norm.start(self.opts.poly_limit / 10);
            let Some(p) = self.norm.poly(&self.t, z) else { continue };
            if self.norm.is_zero(&p) {
                let g = self.fact_of(e);
                f &= if k > 0.0 { g } else { ((g & 1) << 2) | (g & 2) | ((g & 4) >> 2) };
            }
        }
        f
    }

    /// Decide `node rel 0` on the current path, forking when both outcomes are possible.
    pub fn decide(&mut self, rel: Rel, d: Id) -> bool {
        if let Some(c) = self.t.is_const(d) {
            return match rel {
                Rel::Lt => c < 0.0,
                Rel::Le => c <= 0.0,
                Rel::Eq => c == 0.0,
                Rel::Ne => c != 0.0,
            };
        }
        let f = self.fact_of(d);
        let rs = Self::relset(rel);
        if f & rs == f {
            return true;
        }
        if f & rs == 0 {
            return false;
        }
        let key = (rel as u8, d);
        let con = Con { rel, id: d };
        let ncon = Self::neg_con(con, &mut self.t);
        if self.cursor < self.dec.len() && self.dec[self.cursor].key == key {
            let r = self.dec[self.cursor].cur == 1;
            self.cursor += 1;
            self.push_con(if r { con } else { ncon });
            return r;
        }
        if let Some(c) = self.poly_const(d) {
            return match rel {
                Rel::Lt => c < 0.0,
                Rel::Le => c <= 0.0,
                Rel::Eq => c == 0.0,
                Rel::Ne => c != 0.0,
            };
        }
        // the same condition written another way
        let f = f & self.fact_by_pc(d);
        if f & rs == f {
            return true;
        }
        if f & rs == 0 {
            return false;
        }
        if self.cursor < self.dec.len() {
            fatal(&format!(
                "non-deterministic replay: decision {} expected {:?} got {:?} on {}",
                self.cursor,
                self.dec[self.cursor].key,
                key,
                self.t.show(d, 4)
            ));
        }
        // feasibility
        let (mut wt, mut wf) = (false, false);
        for s in 0..S {
            if self.active & (1 << s) != 0 {
                match self.sample_sat(con, s) {
                    Some(true) => wt = true,
                    Some(false) => wf = true,
                    None => {}
                }
            }
        }
        let pc = self.pc.clone();
        let ms = self.opts.feas_ms;
        if !wt {
            wt = !matches!(self.solve(&pc, con, ms, &["z3-new"]).0, Sat::Unsat);
        }
        if !wf {
            // if the true side is impossible the false side is forced
            wf = if wt { !matches!(self.solve(&pc, ncon, ms, &["z3-new"]).0, Sat::Unsat) } else { true };
        }
        let r;
        let mut rest = vec![];
        if wt && wf {
            // prefer the side with more live samples first
            r = true;
            rest.push(0);
        } else {
            r = wt;
        }
        self.dec.push(Decision { key, cur: r as usize, rest });
        self.cursor += 1;
        self.push_con(if r { con } else { ncon });
        r
    }

    fn choose(&mut self, name: &str, n: usize) -> usize {
        let key = (100u8, n as Id);
        let r = if self.cursor < self.dec.len() {
            if self.dec[self.cursor].key != key {
                fatal(&format!("non-deterministic replay at choice {name}"));
            }
            self.dec[self.cursor].cur
        } else {
            self.dec.push(Decision { key, cur: 0, rest: (1..n).rev().collect() });
            0
        };
        self.cursor += 1;
        self.choices.insert(format!("choice:{name}"), r as f64);
        r
    }

    fn reset_path(&mut self) {
        self.pc.clear();
        self.facts.clear();
        self.active = ((1u64 << S) - 1) as u32;
        self.cursor = 0;
        self.choices.clear();
        self.path_obligs = 0;
    }

    fn backtrack(&mut self) -> bool {
        while let Some(d) = self.dec.last_mut() {
            if let Some(x) = d.rest.pop() {
                d.cur = x;
                return true;
            }
            self.dec.pop();
        }
        false
    }

    fn sample_inputs(&self, s: usize) -> BTreeMap<String, f64> {
        let mut m: BTreeMap<String, f64> = self.choices.clone();
        for v in &self.t.vars {
            m.insert(v.name.clone(), self.t.n(v.id).v[s]);
        }
        m
    }

    fn eval_cons(&self, vals: &[f64], extra: &[Con], cache: &mut HashMap<Id, f64>, slack: f64) -> bool {
        for c in self.pc.iter().chain(extra) {
            let v = self.t.eval_at(vals, cache, c.id);
            if !v.is_finite() {
                return false;
            }
            let ok = match c.rel {
                Rel::Lt => v < 0.0,
                Rel::Le => v <= slack,
                Rel::Eq => v.abs() <= slack,
                Rel::Ne => v != 0.0,
            };
            if !ok {
                return false;
            }
        }
        true
    }

    /// look for a valuation satisfying the path condition and `extra`
    fn search(&mut self, extra: &[Con]) -> Option<BTreeMap<String, f64>> {
        for s in 0..S {
            if self.active & (1 << s) != 0 && extra.iter().all(|c| self.sample_sat(*c, s) == Some(true)) {
                return Some(self.sample_inputs(s));
            }
        }
        let nv = self.t.vars.len();
        for round in 0..3000u64 {
            let mut vals = vec![0.0; nv];
            for k in 0..nv {
                let v = &self.t.vars[k];
                let h = hash64(hash_str(&v.name) ^ hash64(round.wrapping_mul(7919) ^ self.opts.seed));
                vals[k] = draw(v.lo, v.hi, h);
                match hash64(h) % 12 {
                    0 if v.lo <= 0.0 && v.hi >= 0.0 => vals[k] = 0.0,
                    1 if v.lo <= 1.0 && v.hi >= 1.0 => vals[k] = 1.0,
                    2 if k > 0 && vals[k - 1] >= v.lo && vals[k - 1] <= v.hi => vals[k] = vals[k - 1],
                    3 if v.lo.is_finite() => vals[k] = v.lo,
                    4 if v.hi.is_finite() => vals[k] = v.hi,
                    _ => {}
                }
            }
            let mut cache = HashMap::new();
            if self.eval_cons(&vals, extra, &mut cache, 0.0) {
                return Some(self.named(&vals));
            }
        }
        // solver model
        let mut all = self.pc.clone();
        all.extend_from_slice(extra);
        self.norm.start(self.opts.poly_limit / 10);
        let q = smt::build(&self.t, &mut self.norm, &all, "");
        let t0 = Instant::now();
        let r = smt::run("z3-new", &q, self.opts.prove_ms);
        self.solver_ms += t0.elapsed().as_millis();
        self.solver_calls += 1;
        if let Sat::Sat(m) = r {
            let mut vals = vec![0.0; nv];
            for k in 0..nv {
                let v = &self.t.vars[k];
                vals[k] = m.get(&v.id).copied().unwrap_or_else(|| draw(v.lo, v.hi, hash_str(&v.name)));
            }
            let mut cache = HashMap::new();
            if self.eval_cons(&vals, extra, &mut cache, 1e-9) {
                return Some(self.named(&vals));
            }
        }
        None
    }

    fn named(&self, vals: &[f64]) -> BTreeMap<String, f64> {
        let mut m = self.choices.clone();
        for (k, v) in self.t.vars.iter().enumerate() {
            m.insert(v.name.clone(), vals[k]);
        }
        m
    }

    fn ok(&mut self, label: &str, by: &str) {
        let s = self.obligs.entry(label.to_string()).or_default();
        s.n += 1;
        *s.by.entry(by.to_string()).or_default() += 1;
        self.path_obligs += 1;
    }

    fn fail(&mut self, label: &str, kind: &str, detail: String, witness: Option<BTreeMap<String, f64>>) {
        let s = self.obligs.entry(label.to_string()).or_default();
        s.n += 1;
        *s.by.entry("FAILED".to_string()).or_default() += 1;
        self.path_obligs += 1;
        let kind = if witness.is_some() { "counterexample" } else { kind };
        // keep the first failure of a label, but prefer one with a witness
        if let Some(f) = self.fails.iter_mut().find(|f| f.label == label) {
            if f.witness.is_none() && witness.is_some() {
                *f = Failure { label: label.into(), kind: kind.into(), detail, witness };
            }
            return;
        }
        self.fails.push(Failure { label: label.into(), kind: kind.into(), detail, witness });
    }

    /// a violation with its input is known and the time is better spent reporting it
    fn hurry(&self) -> bool {
        static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
        T0.get_or_init(Instant::now).elapsed().as_secs() > 60 && self.fails.iter().any(|f| f.witness.is_some())
    }

    fn pc_text(&self) -> String {
        let mut s = String::new();
        for c in self.pc.iter().take(30) {
            s.push_str(&format!("  {} {} 0\n", self.t.show(c.id, 5), match c.rel {
                Rel::Lt => "<",
                Rel::Le => "<=",
                Rel::Eq => "=",
                Rel::Ne => "!=",
            }));
        }
        s
    }

    /// prove node == 0 under the path condition
    fn prove_zero(&mut self, label: &str, d: Id, a: Id, b: Id) {
        if let Some(c) = self.t.is_const(d) {
            let mag = self.t.is_const(a).unwrap_or(0.0).abs() + self.t.is_const(b).unwrap_or(0.0).abs();
            if c.abs() <= 1e-10 * mag || c == 0.0 {
                return self.ok(label, "evaluation");
            }
        }
        // falsification on live samples
        for s in 0..S {
            if self.active & (1 << s) == 0 {
                continue;
            }
            let (na, nb) = (self.t.n(a), self.t.n(b));
            let (x, y) = (na.v[s], nb.v[s]);
            if !x.is_finite() || !y.is_finite() {
                continue;
            }
            let tol = 1e-9 * (x.abs() + y.abs()) + 64.0 * (na.e[s] + nb.e[s]) + 1e-280;
            if (x - y).abs() > tol {
                let det = format!("lhs = {x:e}, rhs = {y:e}\nlhs term: {}\nrhs term: {}\npath condition:\n{}", self.t.show(a, 6), self.t.show(b, 6), self.pc_text());
                let w = self.sample_inputs(s);
                return self.fail(label, "counterexample", det, Some(w));
            }
        }
        self.norm.start(self.opts.poly_limit);
        let p = self.norm.poly(&self.t, d);
        if let Some(p) = &p {
            if self.norm.is_zero(p) {
                return self.ok(label, "normaliser");
            }
        }
        // use equalities of the path condition
        if let Some(p) = &p {
            if self.zero_modulo_eqs(p) {
                return self.ok(label, "normaliser+eq");
            }
        }
        let mut abs = vec![];
        self.t.abs_terms(d, &mut Default::default(), &mut abs);
        if !abs.is_empty() && abs.len() <= 8 && self.zero_by_abs_cases(d, 3) {
            return self.ok(label, "normaliser+cases");
        }
        if self.hurry() {
            return;
        }
        let pc = self.pc.clone();
        let ms = self.opts.prove_ms;
        let con = Con { rel: Rel::Ne, id: d };
        let (r, by) = self.solve(&pc, con, ms, &["z3-new", "cvc5", "z3"]);
        if r == Sat::Unsat {
            return self.ok(label, &by);
        }
        let w = {
            let c1 = Con { rel: Rel::Lt, id: d };
            let c2 = Self::neg_con(Con { rel: Rel::Le, id: d }, &mut self.t);
            // demand a visible difference
            let na = self.t.n(d).clone();
            let _ = na;
            self.search(&[c1]).or_else(|| self.search(&[c2]))
        };
        let det = format!("cannot prove equality\nlhs term: {}\nrhs term: {}\npath condition:\n{}", self.t.show(a, 6), self.t.show(b, 6), self.pc_text());
        self.fail(label, "undecided", det, w)
    }

    /// d = 0 by cases on the signs of the absolute values in it
    fn zero_by_abs_cases(&mut self, d: Id, splits: u32) -> bool {
        let mut abs = vec![];
        self.t.abs_terms(d, &mut Default::default(), &mut abs);
        let Some(&a) = abs.first() else {
            self.norm.start(self.opts.poly_limit);
            let Some(p) = self.norm.poly(&self.t, d) else { return false };
            return self.norm.is_zero(&p) || self.zero_modulo_eqs(&p);
        };
        let x = self.t.n(a).args[0];
        let nx = self.t.neg(x);
        let pc = self.pc.clone();
        let ms = self.opts.prove_ms.min(3000);
        let sign = match self.known_sign(x) {
            Some(s) => Some(s),
            None if self.solve(&pc, Con { rel: Rel::Lt, id: nx }, ms, &["z3-new", "cvc5"]).0 == Sat::Unsat => Some(false),
            None if self.solve(&pc, Con { rel: Rel::Lt, id: x }, ms, &["z3-new", "cvc5"]).0 == Sat::Unsat => Some(true),
            None => None,
        };
        let mut case = |me: &mut Self, pos: bool| {
            let mut m = HashMap::new();
            m.insert(a, if pos { x } else { nx });
            let d2 = me.t.rebuild(d, &mut m);
            (d2, pos)
        };
        match sign {
            Some(p) => {
                let (d2, _) = case(self, p);
                d2 != d && self.zero_by_abs_cases(d2, splits)
            }
            None if splits > 0 => {
                for pos in [true, false] {
                    let (d2, _) = case(self, pos);
                    if d2 == d {
                        return false;
                    }
                    let keep = self.pc.clone();
                    self.pc.push(Con { rel: Rel::Le, id: if pos { nx } else { x } });
                    let ok = self.zero_by_abs_cases(d2, splits - 1);
                    self.pc = keep;
                    if !ok {
                        return false;
                    }
                }
                true
            }
            None => false,
        }
    }

    fn zero_modulo_eqs(&mut self, p: &poly::Poly) -> bool {
        // linear equalities x = poly from the path condition, substituted successively
        let eqs: Vec<Id> = self.pc.iter().filter(|c| c.rel == Rel::Eq).map(|c| c.id).collect();
        let mut q = p.clone();
        let mut done: Vec<(u32, poly::Poly)> = vec![];
        for e in eqs {
            let Some(pe) = self.norm.poly(&self.t, e) else { continue };
            let mut pe = (*pe).clone();
            for (a, by) in &done {
                pe = self.norm.subst(&pe, *a, by);
            }
            // find an atom occurring only linearly with constant coefficient
            let mut pick = None;
            for (m, c) in &pe.t {
                if m.len() == 1 && m[0].1 == 1 {
                    let a = m[0].0;
                    let occ = pe.t.keys().filter(|k| k.iter().any(|x| x.0 == a)).count();
                    if occ == 1 {
                        pick = Some((a, c.0));
                        break;
                    }
                }
            }
            if let Some((a, c)) = pick {
                let mut by = pe.clone();
                by.t.retain(|m, _| !(m.len() == 1 && m[0] == (a, 1)));
                let by = by.scale(-1.0 / c);
                q = self.norm.subst(&q, a, &by);
                done.push((a, by));
            }
        }
        if done.is_empty() {
            return false;
        }
        self.norm.is_zero(&q)
    }

    fn prove_rel(&mut self, label: &str, con: Con) {
        if let Some(c) = self.t.is_const(con.id) {
            let ok = match con.rel {
                Rel::Lt => c < 0.0,
                Rel::Le => c <= 0.0,
                Rel::Eq => c == 0.0,
                Rel::Ne => c != 0.0,
            };
            if ok {
                return self.ok(label, "evaluation");
            }
            let w = self.search(&[]);
            return self.fail(label, "undecided", format!("constant {c:e} violates {:?} 0", con.rel), w);
        }
        let f = self.fact_of(con.id);
        if f & Self::relset(con.rel) == f {
            return self.ok(label, "interval/path");
        }
        let ncon = Self::neg_con(con, &mut self.t);
        for s in 0..S {
            if self.active & (1 << s) != 0 && self.sample_sat(ncon, s) == Some(true) {
                let n = self.t.n(con.id);
                let det = format!("value {:e} violates {:?} 0\nterm: {}\npath condition:\n{}", n.v[s], con.rel, self.t.show(con.id, 7), self.pc_text());
                let w = self.sample_inputs(s);
                return self.fail(label, "counterexample", det, Some(w));
            }
        }
        if let Some(c) = self.poly_const(con.id) {
            let ok = match con.rel {
                Rel::Lt => c < 0.0,
                Rel::Le => c <= 0.0,
                Rel::Eq => c == 0.0,
                Rel::Ne => c != 0.0,
            };
            if ok {
                return self.ok(label, "normaliser");
            }
        }
        if self.hurry() {
            return;
        }
        let pc = self.pc.clone();
        let ms = self.opts.prove_ms;
        let (r, by) = self.solve(&pc, ncon, ms, &["z3-new", "cvc5", "z3"]);
        match r {
            Sat::Unsat => self.ok(label, &by),
            _ => {
                let w = self.search(&[ncon]);
                let det = format!("not proved: {:?} 0\nterm: {}\nsolver: {}\npath condition:\n{}", con.rel, self.t.show(con.id, 7), if matches!(r, Sat::Sat(_)) { "sat (candidate model)" } else { "unknown" }, self.pc_text());
                self.fail(label, "undecided", det, w)
            }
        }
    }
}

pub fn fatal(msg: &str) -> ! {
    eprintln!("NV-FATAL: {msg}");
    std::process::exit(3)
}

// ------------------------------------------------------------------------------------------
// harness API

/// symbolic real in [lo, hi]
pub fn real(name: &str, lo: f64, hi: f64) -> f64 {
    let c = cx();
    match c.mode {
        Mode::Symbolic => {
            let i = c.t.var(name, lo, hi);
            mkbox(i)
        }
        Mode::Concrete => {
            let mut v = match c.inputs.get(name) {
                Some(v) => *v,
                None => {
                    c.missing.push(name.to_string());
                    draw(lo, hi, hash_str(name) ^ hash64(c.opts.seed))
                }
            };
            if let Some((n, h)) = &c.perturb {
                if n == name {
                    v += h;
                }
            }
            v
        }
    }
}
pub fn reals<const N: usize>(name: &str, lo: f64, hi: f64) -> [f64; N] {
    std::array::from_fn(|i| real(&format!("{name}{i}"), lo, hi))
}
/// non-deterministic choice among 0..n (all explored)
pub fn choose(name: &str, n: usize) -> usize {
    let c = cx();
    match c.mode {
        Mode::Symbolic => c.choose(name, n),
        Mode::Concrete => {
            let k = format!("choice:{name}");
            match c.inputs.get(&k) {
                Some(v) => *v as usize,
                None => {
                    c.missing.push(k);
                    (hash_str(name) ^ hash64(c.opts.seed)) as usize % n
                }
            }
        }
    }
}
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
/// uninterpreted function of its arguments (an arbitrary function: proofs hold for all of them)
pub fn uf(name: &str, args: &[f64], lo: f64, hi: f64) -> f64 {
    let c = cx();
    match c.mode {
        Mode::Symbolic => {
            let k = c.t.uf(name, lo, hi);
            let a: Vec<Id> = args.iter().map(|x| c.id_of(*x)).collect();
            mkbox(c.t.mk(Op::Uf(k), &a))
        }
        Mode::Concrete => uf_eval(hash_str(name), lo, hi, args),
    }
}
pub fn is_symbolic() -> bool {
    cx().mode == Mode::Symbolic
}
pub fn abort_path() -> ! {
    panic_any(PathAbort)
}
pub fn assume(b: bool) {
    if !b {
        abort_path()
    }
}
fn assume_rel(rel: Rel, a: f64, b: f64) {
    let c = cx();
    if !boxed(a) && !boxed(b) {
        let ok = match rel {
            Rel::Lt => a < b,
            Rel::Le => a <= b,
            Rel::Eq => a == b || (a - b).abs() <= 1e-12 * (a.abs() + b.abs()),
            Rel::Ne => a != b,
        };
        if !ok {
            abort_path();
        }
        return;
    }
    let (x, y) = (c.id_of(a), c.id_of(b));
    let d = c.t.sub(x, y);
    if let Some(k) = c.t.is_const(d) {
        let ok = match rel {
            Rel::Lt => k < 0.0,
            Rel::Le => k <= 0.0,
            Rel::Eq => k == 0.0,
            Rel::Ne => k != 0.0,
        };
        if !ok {
            abort_path();
        }
        return;
    }
    if c.fact_of(d) & Cx::relset(rel) == 0 {
        abort_path();
    }
    c.push_con(Con { rel, id: d });
}
pub fn assume_lt(a: f64, b: f64) {
    assume_rel(Rel::Lt, a, b)
}
pub fn assume_le(a: f64, b: f64) {
    assume_rel(Rel::Le, a, b)
}
pub fn assume_eq(a: f64, b: f64) {
    assume_rel(Rel::Eq, a, b)
}
pub fn assume_ne(a: f64, b: f64) {
    assume_rel(Rel::Ne, a, b)
}
/// leave a path that a solver shows to be impossible
pub fn discard_if_impossible() {
    let c = cx();
    if c.mode != Mode::Symbolic || c.active != 0 {
        return;
    }
    let mut pc = c.pc.clone();
    let ms = c.opts.prove_ms;
    if let Some(last) = pc.pop() {
        if c.solve(&pc, last, ms, &["z3-new", "cvc5"]).0 == Sat::Unsat {
            abort_path();
        }
    }
}
/// record an unchecked assumption in the evidence
pub fn trust(what: &str) {
    cx().assumptions.insert(what.to_string());
}
pub fn set_opts(f: impl FnOnce(&mut Opts)) {
    f(&mut cx().opts)
}
/// state that this harness is bounded (never counted as proved)
pub fn bounded(what: &str) {
    cx().opts.bounded = Some(what.to_string());
}

pub fn ensures(label: &str, b: bool) {
    let c = cx();
    if b {
        c.ok(label, "evaluation");
    } else if c.mode == Mode::Concrete {
        c.fail(label, "concrete", "condition is false".into(), None);
    } else {
        let w = c.search(&[]);
        let det = format!("condition is false on path:\n{}", c.pc_text());
        c.fail(label, "undecided", det, w);
    }
}
pub fn ensures_eq(label: &str, a: f64, b: f64) {
    let tol = cx().opts.tol;
    ensures_eq_tol(label, a, b, tol, 0.0)
}
/// equality; `tol`/`abs` are used only when the code runs on ordinary numbers (replay)
pub fn ensures_eq_tol(label: &str, a: f64, b: f64, tol: f64, abs: f64) {
    let c = cx();
    if !boxed(a) && !boxed(b) {
        let ok = a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (a.abs() + b.abs()) + abs;
        let tight = c.mode == Mode::Concrete || a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) + abs;
        if ok && tight {
            c.ok(label, "evaluation");
        } else {
            let w = if c.mode == Mode::Symbolic { c.search(&[]) } else { None };
            c.fail(label, "concrete", format!("lhs = {a:e}, rhs = {b:e}"), w);
        }
        return;
    }
    if a.is_nan() && !boxed(a) || b.is_nan() && !boxed(b) || (!boxed(a) && a.is_infinite()) || (!boxed(b) && b.is_infinite()) {
        let w = c.search(&[]);
        let det = format!("lhs {} rhs {} (not a number)", if boxed(a) { "symbolic".into() } else { format!("{a}") }, if boxed(b) { "symbolic".into() } else { format!("{b}") });
        return c.fail(label, "undecided", det, w);
    }
    let (x, y) = (c.id_of(a), c.id_of(b));
    let d = c.t.sub(x, y);
    c.prove_zero(label, d, x, y);
}
fn ensures_rel(label: &str, rel: Rel, a: f64, b: f64) {
    let c = cx();
    if !boxed(a) && !boxed(b) {
        let sl = if c.mode == Mode::Concrete { 1e-9 * (a.abs() + b.abs()) } else { 0.0 };
        let ok = match rel {
            Rel::Lt => a < b + sl,
            Rel::Le => a <= b + sl,
            _ => a != b,
        };
        if ok {
            c.ok(label, "evaluation");
        } else {
            let w = if c.mode == Mode::Symbolic { c.search(&[]) } else { None };
            c.fail(label, "concrete", format!("{a:e} {rel:?} {b:e} is false"), w);
        }
        return;
    }
    for (z, o) in [(a, b), (b, a)] {
        if !boxed(z) && !z.is_finite() {
            let ok = match rel {
                Rel::Ne => true,
                _ if z.is_nan() => false,
                _ => (z == f64::INFINITY && z.to_bits() == b.to_bits()) || (z == f64::NEG_INFINITY && z.to_bits() == a.to_bits()),
            };
            let _ = o;
            if ok {
                c.ok(label, "evaluation");
            } else {
                let w = c.search(&[]);
                c.fail(label, "undecided", format!("operand is {z}"), w);
            }
            return;
        }
    }
    let (x, y) = (c.id_of(a), c.id_of(b));
    let d = c.t.sub(x, y);
    c.prove_rel(label, Con { rel, id: d });
}
pub fn ensures_le(label: &str, a: f64, b: f64) {
    ensures_rel(label, Rel::Le, a, b)
}
pub fn ensures_lt(label: &str, a: f64, b: f64) {
    ensures_rel(label, Rel::Lt, a, b)
}
pub fn ensures_ne(label: &str, a: f64, b: f64) {
    ensures_rel(label, Rel::Ne, a, b)
}
/// reachability: this point must be reachable on some feasible path
pub fn cover(label: &str) {
    let c = cx();
    if c.mode == Mode::Concrete {
        c.covers.insert(label.into(), true);
        return;
    }
    if c.covers.get(label) == Some(&true) {
        return;
    }
    let hit = c.active != 0 || c.pc.is_empty() || c.search(&[]).is_some();
    c.covers.insert(label.to_string(), hit);
}
/// exact derivative of f with respect to the input called `var`
pub fn deriv(f: f64, var: &str) -> f64 {
    let c = cx();
    match c.mode {
        Mode::Symbolic => {
            if !boxed(f) {
                return 0.0;
            }
            let x = c.t.vars[c.t.var_by_name[var]].id;
            let mut memo = HashMap::new();
            let r = c.t.diff(unbox(f), x, &mut memo);
            c.wrap(r)
        }
        Mode::Concrete => {
            c.dlog.push((var.to_string(), f));
            let k = c.dcount;
            c.dcount += 1;
            c.dvals.get(k).copied().unwrap_or(f64::NAN)
        }
    }
}
/// true when `x` is a symbolic value
pub fn symbolic(x: f64) -> bool {
    boxed(x)
}
/// human readable form (debugging)
pub fn show(x: f64) -> String {
    if boxed(x) {
        cx().t.show(unbox(x), 8)
    } else {
        format!("{x}")
    }
}

// ------------------------------------------------------------------------------------------
// runner

pub struct Harness {
    pub name: &'static str,
    pub property: &'static str,
    pub functions: &'static [&'static str],
    pub f: fn(),
    /// panics are not violations when true
    pub may_panic: bool,
}

pub struct Outcome {
    pub complete: bool,
    pub why: String,
    pub wall_s: f64,
}

fn set_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<PathAbort>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        cx().panic_msg = format!("{msg} at {loc}");
        if std::env::var("NV_DEBUG").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

/// every path runs in a fresh thread (fresh thread-locals: hash-map keys are the same on every path)
fn in_thread(f: fn()) -> Result<(), Box<dyn std::any::Any + Send>> {
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || catch_unwind(AssertUnwindSafe(f)))
        .unwrap()
        .join()
        .unwrap()
}

pub fn explore(h: &Harness, seed: u64, deadline_s: f64) -> Outcome {
    unsafe { CX = Some(Box::new(Cx::new(Mode::Symbolic))) };
    set_hook();
    let c = cx();
    c.opts.seed = seed;
    c.t.seed = seed;
    c.opts.deadline_s = deadline_s;
    let t0 = Instant::now();
    c.hurry();
    let debug = std::env::var("NV_DEBUG").is_ok();
    loop {
        let c = cx();
        c.reset_path();
        let r = in_thread(h.f);
        let c = cx();
        let mut aborted = false;
        if let Err(e) = r {
            if e.is::<PathAbort>() {
                aborted = true;
                c.aborted += 1;
            } else if !h.may_panic {
                let msg = c.panic_msg.clone();
                let w = c.search(&[]);
                let det = format!("panic: {msg}\npath condition:\n{}", c.pc_text());
                c.fail("no panic", "undecided", det, w);
            }
        }
        if !aborted {
            c.paths += 1;
        }
        if debug && c.paths % 50 == 0 {
            eprintln!("[{}] paths {} aborted {} depth {} nodes {} atoms {}", h.name, c.paths, c.aborted, c.dec.len(), c.t.nodes.len(), c.norm.atoms.len());
        }
        if c.cursor < c.dec.len() {
            fatal("non-deterministic replay: path ended early");
        }
        if c.fails.len() >= c.opts.max_fails || c.hurry() {
            return Outcome { complete: true, why: "stopped after failures".into(), wall_s: t0.elapsed().as_secs_f64() };
        }
        if !c.backtrack() {
            break;
        }
        if c.paths + c.aborted >= c.opts.max_paths {
            return Outcome { complete: false, why: "path limit".into(), wall_s: t0.elapsed().as_secs_f64() };
        }
        if t0.elapsed().as_secs_f64() > c.opts.deadline_s {
            return Outcome { complete: false, why: "time limit".into(), wall_s: t0.elapsed().as_secs_f64() };
        }
    }
    Outcome { complete: true, why: String::new(), wall_s: t0.elapsed().as_secs_f64() }
}

/// Run the harness on ordinary numbers.  Returns (executed, failures).
pub fn concrete(h: &Harness, inputs: &BTreeMap<String, f64>, seed: u64) -> (bool, Vec<Failure>) {
    set_hook();
    let run = |perturb: Option<(String, f64)>, dvals: Vec<f64>| -> (bool, Vec<Failure>, Vec<(String, f64)>) {
        unsafe { CX = Some(Box::new(Cx::new(Mode::Concrete))) };
        let c = cx();
        c.inputs = inputs.clone();
        c.opts.seed = seed;
        c.perturb = perturb;
        c.dvals = dvals;
        let r = in_thread(h.f);
        let c = cx();
        let mut executed = true;
        if let Err(e) = r {
            if e.is::<PathAbort>() {
                executed = c.fails.is_empty() == false;
            } else if !h.may_panic {
                let m = c.panic_msg.clone();
                c.fail("no panic", "concrete", format!("panic: {m}"), None);
            }
        }
        (executed, c.fails.clone(), c.dlog.clone())
    };
    let (ex, f, dlog) = run(None, vec![]);
    if dlog.is_empty() {
        return (ex, f);
    }
    // finite differences for the derivative terms
    let mut dvals = vec![0.0; dlog.len()];
    let vars: BTreeSet<String> = dlog.iter().map(|x| x.0.clone()).collect();
    for v in vars {
        let x = inputs.get(&v).copied().unwrap_or(1.0);
        let hstep = 1e-5 * x.abs().max(1e-2);
        let (_, _, p) = run(Some((v.clone(), hstep)), vec![]);
        let (_, _, m) = run(Some((v.clone(), -hstep)), vec![]);
        for k in 0..dlog.len() {
            if dlog[k].0 == v && k < p.len() && k < m.len() {
                dvals[k] = (p[k].1 - m[k].1) / (2.0 * hstep);
            }
        }
    }
    let (ex, f, _) = run(None, dvals);
    (ex, f)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(h: &Harness, out: &Outcome) -> String {
    let c = cx();
    let mut s = String::from("{");
    s.push_str(&format!("\"harness\":{},\"property\":{},", jstr(h.name), jstr(h.property)));
    s.push_str(&format!("\"functions\":[{}],", h.functions.iter().map(|f| jstr(f)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"complete\":{},\"why\":{},\"wall_s\":{:.3},", out.complete, jstr(&out.why), out.wall_s));
    s.push_str(&format!(
        "\"paths\":{},\"pruned\":{},\"terms\":{},\"solver_ms\":{},\"solver_calls\":{},\"divisors_assumed_nonzero\":{},",
        c.paths,
        c.aborted,
        c.t.nodes.len(),
        c.solver_ms,
        c.solver_calls,
        c.divs.len()
    ));
    s.push_str(&format!("\"bounded\":{},", c.opts.bounded.as_ref().map(|b| jstr(b)).unwrap_or("null".into())));
    s.push_str("\"obligations\":{");
    s.push_str(
        &c.obligs
            .iter()
            .map(|(l, st)| {
                format!("{}:{{\"n\":{},{}}}", jstr(l), st.n, st.by.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","))
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str("},\"covers\":{");
    s.push_str(&c.covers.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"assumptions\":[");
    s.push_str(&c.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(","));
    s.push_str("],\"failures\":[");
    s.push_str(
        &c.fails
            .iter()
            .map(|f| {
                let w = match &f.witness {
                    None => "null".to_string(),
                    Some(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:\"{:e}\"", jstr(k), v)).collect::<Vec<_>>().join(",")),
                };
                format!("{{\"label\":{},\"kind\":{},\"detail\":{},\"witness\":{}}}", jstr(&f.label), jstr(&f.kind), jstr(&f.detail), w)
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str("]}");
    s
}

pub fn main_with(list: &[Harness]) {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: nvh list | run <harness> <out.json> [seed] [deadline_s] | concrete <harness> <inputs.tsv> | random <harness> <n> [seed]");
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage()
    }
    let find = |n: &str| list.iter().find(|h| h.name == n).unwrap_or_else(|| fatal(&format!("no harness {n}")));
    match args[1].as_str() {
        "list" => {
            for h in list {
                println!("{}\t{}\t{}", h.property, h.name, h.functions.join(", "));
            }
        }
        "run" => {
            let h = find(&args[2]);
            let seed = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let dl = args.get(5).and_then(|s| s.parse().ok()).unwrap_or(600.0);
            let o = explore(h, seed, dl);
            let r = report(h, &o);
            if args[3] == "-" {
                println!("{r}");
            } else {
                std::fs::write(&args[3], r).unwrap();
            }
        }
        "concrete" => {
            let h = find(&args[2]);
            let mut m = BTreeMap::new();
            for l in std::fs::read_to_string(&args[3]).unwrap().lines() {
                if let Some((k, v)) = l.split_once('\t') {
                    if let Ok(v) = v.parse() {
                        m.insert(k.to_string(), v);
                    }
                }
            }
            let (ex, f) = concrete(h, &m, 1);
            println!("executed {ex}");
            for x in &f {
                println!("FAILED {}: {}", x.label, x.detail.replace('\n', " "));
            }
            std::process::exit(if f.is_empty() { 0 } else { 1 });
        }
        "random" => {
            let h = find(&args[2]);
            let n: u64 = args[3].parse().unwrap();
            let seed: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut ran = 0;
            let mut bad = 0;
            for k in 0..n {
                let (ex, f) = concrete(h, &BTreeMap::new(), hash64(seed ^ k.wrapping_mul(104729)));
                if ex {
                    ran += 1;
                }
                for x in &f {
                    bad += 1;
                    if bad < 20 {
                        println!("FAILED run {k} {}: {}", x.label, x.detail.replace('\n', " "));
                    }
                }
            }
            println!("ran {ran} of {n}, failures {bad}");
            std::process::exit(if bad == 0 { 0 } else { 1 });
        }
        _ => usage(),
    }
}
