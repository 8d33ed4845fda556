//! SMT-LIB back end (z3-new, z3, cvc5 over pipes).
use crate::poly::Norm;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rel {
    Lt,
    Le,
    Eq,
    Ne,
}
/// constraint `node rel 0`
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Con {
    pub rel: Rel,
    pub id: Id,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sat {
    Unsat,
    Sat(BTreeMap<Id, f64>),
    Unknown,
}

pub fn num(c: f64) -> String {
    if c == 0.0 {
        return "0.0".into();
    }
    let neg = c < 0.0;
    let s = format!("{:e}", c.abs());
    let (mant, ex) = s.split_once('e').unwrap();
    let ex: i32 = ex.parse().unwrap();
    let (ip, fp) = mant.split_once('.').unwrap_or((mant, ""));
    let digits = format!("{ip}{fp}");
    let e10 = ex - fp.len() as i32;
    let body = if e10 >= 0 {
        format!("{}{}.0", digits, "0".repeat(e10 as usize))
    } else {
        format!("(/ {}.0 1{}.0)", digits, "0".repeat((-e10) as usize))
    };
    if neg {
        format!("(- {body})")
    } else {
        body
    }
}

pub struct Query {
    pub text: String,
    pub vars: Vec<(Id, String)>,
}

pub fn leaves(t: &Terms, root: Id, memo: &mut HashMap<Id, std::rc::Rc<BTreeSet<Id>>>) -> std::rc::Rc<BTreeSet<Id>> {
    // variables reachable from root (UF/transcendental arguments included)
    if let Some(r) = memo.get(&root) {
        return r.clone();
    }
    let mut seen = BTreeSet::new();
    let mut st = vec![root];
    let mut out = BTreeSet::new();
    while let Some(i) = st.pop() {
        if !seen.insert(i) {
            continue;
        }
        let n = t.n(i);
        match n.op {
            Op::Var => {
                out.insert(i);
            }
            Op::Uf(_) => {
                out.insert(i);
                st.extend(n.args.iter());
            }
            _ => st.extend(n.args.iter()),
        }
    }
    let r = std::rc::Rc::new(out);
    memo.insert(root, r.clone());
    r
}

/// keep only the constraints connected to the goal
pub fn slice(t: &Terms, pc: &[Con], goal: &[Con], memo: &mut HashMap<Id, std::rc::Rc<BTreeSet<Id>>>) -> Vec<Con> {
    let mut rel: BTreeSet<Id> = BTreeSet::new();
    for g in goal {
        rel.extend(leaves(t, g.id, memo).iter());
    }
    let mut used = vec![false; pc.len()];
    loop {
        let mut changed = false;
        for (k, c) in pc.iter().enumerate() {
            if used[k] {
                continue;
            }
            let l = leaves(t, c.id, memo);
            if l.iter().any(|x| rel.contains(x)) {
                used[k] = true;
                changed = true;
                rel.extend(l.iter());
            }
        }
        if !changed {
            break;
        }
    }
    pc.iter().zip(used).filter(|x| x.1).map(|x| *x.0).collect()
}

pub fn build(t: &Terms, norm: &mut Norm, cons: &[Con], extra: &str) -> Query {
    // reachable nodes in topological (id) order; do not descend below opaque ops
    let mut need: BTreeSet<Id> = BTreeSet::new();
    let mut st: Vec<Id> = cons.iter().map(|c| c.id).collect();
    while let Some(i) = st.pop() {
        if !need.insert(i) {
            continue;
        }
        let n = t.n(i);
        match n.op {
            Op::Const | Op::Var | Op::Uf(_) | Op::Cbrt => {}
            Op::Pow if t.is_const(n.args[1]).is_some() => st.push(n.args[0]),
            Op::Pow => {}
            Op::Exp => st.push(n.args[0]),
            Op::Ln | Op::Asin | Op::Acos | Op::Atan | Op::Atan2 | Op::Sinh | Op::Cosh | Op::Tanh | Op::Asinh
            | Op::Acosh | Op::Atanh | Op::Tan => {}
            Op::Sin | Op::Cos => {}
            _ => st.extend(n.args.iter()),
        }
    }
    let mut s = String::new();
    s.push_str(extra);
    let mut vars = vec![];
    let mut trig_done: BTreeSet<String> = BTreeSet::new();
    let mut declared: BTreeSet<String> = BTreeSet::new();
    let mut name: HashMap<Id, String> = HashMap::new();
    for &i in &need {
        let n = t.n(i);
        let a = |k: usize, name: &HashMap<Id, String>| name[&n.args[k]].clone();
        let nm = format!("n{i}");
        match n.op {
            Op::Const => {
                name.insert(i, num(n.c));
                continue;
            }
            Op::Var => {
                s.push_str(&format!("(declare-const v{i} Real)\n"));
                if n.lo.is_finite() {
                    s.push_str(&format!("(assert (>= v{i} {}))\n", num(n.lo)));
                }
                if n.hi.is_finite() {
                    s.push_str(&format!("(assert (<= v{i} {}))\n", num(n.hi)));
                }
                vars.push((i, format!("v{i}")));
                name.insert(i, format!("v{i}"));
                continue;
            }
            Op::Add => s.push_str(&format!("(define-fun {nm} () Real (+ {} {}))\n", a(0, &name), a(1, &name))),
            Op::Sub => s.push_str(&format!("(define-fun {nm} () Real (- {} {}))\n", a(0, &name), a(1, &name))),
            Op::Mul => s.push_str(&format!("(define-fun {nm} () Real (* {} {}))\n", a(0, &name), a(1, &name))),
            Op::Neg => s.push_str(&format!("(define-fun {nm} () Real (- {}))\n", a(0, &name))),
            Op::Div => {
                if let Some(c) = t.is_const(n.args[1]) {
                    s.push_str(&format!("(define-fun {nm} () Real (/ {} {}))\n", a(0, &name), num(c)));
                } else {
                    s.push_str(&format!(
                        "(declare-const {nm} Real)\n(assert (not (= {d} 0.0)))\n(assert (= (* {nm} {d}) {x}))\n",
                        d = a(1, &name),
                        x = a(0, &name)
                    ));
                }
            }
            Op::Sqrt => s.push_str(&format!(
                "(declare-const {nm} Real)\n(assert (>= {nm} 0.0))\n(assert (= (* {nm} {nm}) {x}))\n",
                x = a(0, &name)
            )),
            Op::Abs => s.push_str(&format!("(define-fun {nm} () Real (ite (>= {x} 0.0) {x} (- {x})))\n", x = a(0, &name))),
            Op::Floor => s.push_str(&format!(
                "(declare-const i{i} Int)\n(define-fun {nm} () Real (to_real i{i}))\n(assert (<= {nm} {x}))\n(assert (< {x} (+ {nm} 1.0)))\n",
                x = a(0, &name)
            )),
            _ => {
                // opaque leaf, merged by normal form
                let key = match norm.poly(t, i) {
                    Some(p) if p.t.len() == 1 => {
                        let (m, c) = p.t.iter().next().unwrap();
                        if m.len() == 1 && m[0].1 == 1 && c.0 == 1.0 {
                            Some(m[0].0)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                let nm = match key {
                    Some(k) => format!("a{k}"),
                    None => nm.clone(),
                };
                if declared.insert(nm.clone()) {
                    s.push_str(&format!("(declare-const {nm} Real)\n"));
                    let strict_lo = matches!(n.op, Op::Exp);
                    if n.lo.is_finite() {
                        s.push_str(&format!("(assert ({} {nm} {}))\n", if strict_lo { ">" } else { ">=" }, num(n.lo)));
                    }
                    if n.hi.is_finite() {
                        s.push_str(&format!("(assert (<= {nm} {}))\n", num(n.hi)));
                    }
                }
                if n.op == Op::Exp {
                    let u = a(0, &name);
                    s.push_str(&format!("(assert (=> (< {u} 0.0) (< {nm} 1.0)))\n(assert (=> (> {u} 0.0) (> {nm} 1.0)))\n(assert (=> (= {u} 0.0) (= {nm} 1.0)))\n(assert (> {nm} {u}))\n"));
                }
                if n.op == Op::Pow {
                    if let Some(c) = t.is_const(n.args[1]) {
                        let u = a(0, &name);
                        let (l, g) = if c > 0.0 { ("<", ">") } else { (">", "<") };
                        s.push_str(&format!("(assert (>= {u} 0.0))\n(assert (=> (> {u} 0.0) (> {nm} 0.0)))\n(assert (=> (< {u} 1.0) ({l} {nm} 1.0)))\n(assert (=> (> {u} 1.0) ({g} {nm} 1.0)))\n(assert (=> (= {u} 1.0) (= {nm} 1.0)))\n"));
                    }
                }
                if matches!(n.op, Op::Sin | Op::Cos) {
                    if let Some(k) = key {
                        // cos atom id and its sin partner
                        let (ca, sa) = if n.op == Op::Cos { (k, k + 1) } else { (k - 1, k) };
                        let tag = format!("t{ca}");
                        if trig_done.insert(tag) {
                            for x in [ca, sa] {
                                if declared.insert(format!("a{x}")) {
                                    s.push_str(&format!("(declare-const a{x} Real)\n"));
                                }
                            }
                            s.push_str(&format!("(assert (= (+ (* a{ca} a{ca}) (* a{sa} a{sa})) 1.0))\n"));
                        }
                    }
                }
                vars.push((i, nm.clone()));
                name.insert(i, nm);
                continue;
            }
        }
        name.insert(i, nm);
    }
    for c in cons {
        let x = &name[&c.id];
        match c.rel {
            Rel::Lt => s.push_str(&format!("(assert (< {x} 0.0))\n")),
            Rel::Le => s.push_str(&format!("(assert (<= {x} 0.0))\n")),
            Rel::Eq => s.push_str(&format!("(assert (= {x} 0.0))\n")),
            Rel::Ne => s.push_str(&format!("(assert (not (= {x} 0.0)))\n")),
        }
    }
    Query { text: s, vars }
}

pub fn run(solver: &str, q: &Query, timeout_ms: u64) -> Sat {
    let mut script = String::new();
    let mut cmd;
    match solver {
        "cvc5" => {
            cmd = Command::new("cvc5");
            cmd.args(["--lang=smt2", "--produce-models", &format!("--tlimit={timeout_ms}"), "-q"]);
            script.push_str("(set-logic QF_NIRA)\n");
        }
        s => {
            cmd = Command::new(s);
            cmd.args(["-in", "-smt2", &format!("-T:{}", timeout_ms.div_ceil(1000) + 1), &format!("-t:{timeout_ms}")]);
            script.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n");
        }
    }
    script.push_str(&q.text);
    script.push_str("(check-sat)\n");
    let names: Vec<&String> = {
        let mut seen = BTreeSet::new();
        q.vars.iter().filter(|v| seen.insert(v.1.clone())).map(|v| &v.1).collect()
    };
    if !names.is_empty() {
        script.push_str("(get-value (");
        for n in &names {
            script.push_str(n);
            script.push(' ');
        }
        script.push_str("))\n");
    }
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(_) => return Sat::Unknown,
    };
    let mut stdin = ch.stdin.take().unwrap();
    let h = std::thread::spawn(move || {
        let _ = stdin.write_all(script.as_bytes());
    });
    let out = ch.wait_with_output();
    let _ = h.join();
    let out = match out {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
        Err(_) => return Sat::Unknown,
    };
    let first = out.lines().next().unwrap_or("").trim().to_string();
    if first == "unsat" {
        return Sat::Unsat;
    }
    if first == "sat" {
        let mut m = BTreeMap::new();
        let rest: String = out.lines().skip(1).collect::<Vec<_>>().join(" ");
        let toks = tokenize(&rest);
        let vals = parse_values(&toks);
        for (id, nm) in &q.vars {
            if let Some(v) = vals.get(nm) {
                m.insert(*id, *v);
            }
        }
        return Sat::Sat(m);
    }
    if first.starts_with("(error") && std::env::var("NV_DEBUG").is_ok() {
        eprintln!("solver {solver}: {first}");
    }
    Sat::Unknown
}

fn tokenize(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

fn parse_values(t: &[String]) -> HashMap<String, f64> {
    let mut out = HashMap::new();
    // ((name val) (name val) ...)
    let mut i = 1;
    while i + 2 < t.len() {
        if t[i] != "(" {
            break;
        }
        let name = t[i + 1].clone();
        let (v, j) = parse_num(t, i + 2);
        if let Some(v) = v {
            out.insert(name, v);
        }
        i = j + 1;
    }
    out
}

fn parse_num(t: &[String], i: usize) -> (Option<f64>, usize) {
    if i >= t.len() {
        return (None, i);
    }
    if t[i] != "(" {
        let s = t[i].trim_end_matches('?');
        return (s.parse().ok(), i + 1);
    }
    let op = t[i + 1].clone();
    let mut j = i + 2;
    let mut vals = vec![];
    while j < t.len() && t[j] != ")" {
        let (v, k) = parse_num(t, j);
        vals.push(v);
        j = k;
    }
    let j = j + 1;
    let r = match (op.as_str(), vals.as_slice()) {
        ("-", [Some(a)]) => Some(-a),
        ("-", [Some(a), Some(b)]) => Some(a - b),
        ("/", [Some(a), Some(b)]) => Some(a / b),
        ("+", [Some(a), Some(b)]) => Some(a + b),
        ("*", [Some(a), Some(b)]) => Some(a * b),
        _ => None,
    };
    (r, j)
}
