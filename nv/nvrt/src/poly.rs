//! Ring normaliser: rational functions over atoms, with the algebraic relations
//! sqrt(P)^2 = P, |P|^2 = P^2, sin^2 = 1 - cos^2, D_P * P^-1 = 1.
//!
//! Coefficients are f64 carried with the sum of the magnitudes that produced them; a coefficient
//! whose size is below TOL times that magnitude is taken to be zero (rounded literals such as
//! 0.3333333333333333 are read as the number they stand for, up to TOL).
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const TOL: f64 = 1e-11;

pub type Mono = Rc<[(u32, i32)]>;

#[derive(Clone, Default, Debug)]
pub struct Poly {
    pub t: HashMap<Mono, (f64, f64)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AKind {
    Plain,     // variable, uninterpreted application, transcendental
    Sqrt,      // args[0] = radicand
    Abs,       // args[0]
    Sin(u32),  // paired cos atom
    Comp,      // composite denominator, args[0] = polynomial
}

pub struct Atom {
    pub kind: AKind,
    pub op: Op,
    pub args: Vec<Rc<Poly>>,
    pub node: Id, // a representative node (for Comp: the denominator node)
    pub nonneg: bool,
    pub v: [f64; S],
}

#[derive(Default)]
pub struct Norm {
    pub atoms: Vec<Atom>,
    by_op: HashMap<(Op, u8), Vec<u32>>,
    var_atom: HashMap<Id, u32>,
    memo: HashMap<Id, Option<Rc<Poly>>>,
    pub work: u64,
    pub limit: u64,
    pub dead: bool, // limit hit
}

fn one_mono() -> Mono {
    Rc::from(Vec::new().into_boxed_slice())
}

impl Poly {
    pub fn zero() -> Poly {
        Poly::default()
    }
    pub fn konst(c: f64) -> Poly {
        let mut p = Poly::default();
        if c != 0.0 {
            p.t.insert(one_mono(), (c, c.abs()));
        }
        p
    }
    pub fn atom(a: u32) -> Poly {
        let mut p = Poly::default();
        p.t.insert(Rc::from(vec![(a, 1)].into_boxed_slice()), (1.0, 1.0));
        p
    }
    pub fn is_const(&self) -> Option<f64> {
        match self.t.len() {
            0 => Some(0.0),
            1 => {
                let (m, c) = self.t.iter().next().unwrap();
                if m.is_empty() {
                    Some(c.0)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn addin(&mut self, m: &Mono, c: f64, mag: f64) {
        let e = self.t.entry(m.clone()).or_insert((0.0, 0.0));
        // vanishing coefficients are dropped by `clean`, at the end of a sum, once its magnitude is known
        e.0 += c;
        e.1 += mag;
    }
    fn clean(&mut self) {
        self.t.retain(|_, e| e.0.abs() > TOL * e.1);
    }
    pub fn add(&self, o: &Poly, k: f64) -> Poly {
        let (mut r, small, kk, swap) = if self.t.len() >= o.t.len() { (self.clone(), o, k, false) } else { (o.clone(), self, 1.0, true) };
        if swap && k != 1.0 {
            for v in r.t.values_mut() {
                v.0 *= k;
                v.1 *= k.abs();
            }
        }
        for (m, c) in &small.t {
            r.addin(m, c.0 * kk, c.1 * kk.abs());
        }
        for m in small.t.keys() {
            if let Some(e) = r.t.get(m) {
                if e.0.abs() <= TOL * e.1 {
                    r.t.remove(m);
                }
            }
        }
        r
    }
    pub fn scale(&self, k: f64) -> Poly {
        if k == 0.0 {
            return Poly::zero();
        }
        let mut r = self.clone();
        for v in r.t.values_mut() {
            v.0 *= k;
            v.1 *= k.abs();
        }
        r
    }
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut r: Vec<(u32, i32)> = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    Rc::from(r.into_boxed_slice())
}

impl Norm {
    pub fn new() -> Norm {
        Norm { limit: 3_000_000, ..Default::default() }
    }

    pub fn start(&mut self, limit: u64) {
        self.work = 0;
        self.limit = limit;
        self.dead = false;
    }

    fn needs_reduce(&self, m: &Mono) -> bool {
        m.iter().any(|(a, e)| match self.atoms[*a as usize].kind {
            AKind::Plain => false,
            AKind::Sqrt => *e != 1,
            AKind::Abs => *e >= 2,
            AKind::Sin(_) => *e >= 2,
            AKind::Comp => *e > 0,
        })
    }

    /// c * m as a reduced polynomial, accumulated into `out`
    fn push_reduced(&mut self, out: &mut Poly, m: &Mono, c: f64, mag: f64) {
        if self.dead {
            return;
        }
        if !self.needs_reduce(m) {
            self.work += 1;
            if self.work > self.limit {
                self.dead = true;
                return;
            }
            out.addin(m, c, mag);
            return;
        }
        // pick the first reducible factor
        let k = m
            .iter()
            .position(|(a, e)| match self.atoms[*a as usize].kind {
                AKind::Plain => false,
                AKind::Sqrt => *e != 1,
                AKind::Abs => *e >= 2,
                AKind::Sin(_) => *e >= 2,
                AKind::Comp => *e > 0,
            })
            .unwrap();
        let (a, e) = m[k];
        let mut rest: Vec<(u32, i32)> = m.iter().cloned().collect();
        rest.remove(k);
        let mut repl: Poly = match self.atoms[a as usize].kind {
            AKind::Sqrt => {
                // s^e = s^(e mod 2) * P^(e div 2)
                let r = e.rem_euclid(2);
                let q = (e - r) / 2;
                if r == 1 {
                    let pos = rest.binary_search_by_key(&a, |x| x.0).unwrap_err();
                    rest.insert(pos, (a, 1));
                }
                let p = self.atoms[a as usize].args[0].clone();
                let node = self.atoms[a as usize].node;
                self.pow(&p, q, node, true)
            }
            AKind::Abs => {
                let r = e.rem_euclid(2);
                let q = e - r;
                if r == 1 {
                    let pos = rest.binary_search_by_key(&a, |x| x.0).unwrap_err();
                    rest.insert(pos, (a, 1));
                }
                let p = self.atoms[a as usize].args[0].clone();
                let node = self.atoms[a as usize].node;
                self.pow(&p, q, node, false)
            }
            AKind::Sin(cs) => {
                let r = e.rem_euclid(2);
                let q = (e - r) / 2;
                if r == 1 {
                    let pos = rest.binary_search_by_key(&a, |x| x.0).unwrap_err();
                    rest.insert(pos, (a, 1));
                }
                let mut p = Poly::konst(1.0);
                p.addin(&Rc::from(vec![(cs, 2)].into_boxed_slice()), -1.0, 1.0);
                let p = Rc::new(p);
                self.pow(&p, q, 0, false)
            }
            AKind::Comp => {
                let p = self.atoms[a as usize].args[0].clone();
                self.pow(&p, e, 0, false)
            }
            AKind::Plain => unreachable!(),
        };
        let rest: Mono = Rc::from(rest.into_boxed_slice());
        let terms: Vec<(Mono, (f64, f64))> = repl.t.drain().collect();
        for (m2, c2) in terms {
            let mm = mono_mul(&rest, &m2);
            self.push_reduced(out, &mm, c * c2.0, mag * c2.1);
        }
    }

    pub fn mul(&mut self, a: &Poly, b: &Poly) -> Poly {
        let mut out = Poly::default();
        if a.t.is_empty() || b.t.is_empty() {
            return out;
        }
        for (m1, c1) in &a.t {
            for (m2, c2) in &b.t {
                if self.dead {
                    return out;
                }
                let m = mono_mul(m1, m2);
                self.push_reduced(&mut out, &m, c1.0 * c2.0, c1.1 * c2.1);
            }
        }
        out.clean();
        out
    }

    fn pow(&mut self, p: &Rc<Poly>, n: i32, _node: Id, _sq: bool) -> Poly {
        if n == 0 {
            return Poly::konst(1.0);
        }
        let base: Poly = if n < 0 {
            match self.inverse(p) {
                Some(q) => q,
                None => {
                    self.dead = true;
                    return Poly::zero();
                }
            }
        } else {
            (**p).clone()
        };
        let mut r = base.clone();
        for _ in 1..n.unsigned_abs() {
            r = self.mul(&r, &base);
        }
        r
    }

    /// (content coefficient, common monomial) of p
    fn content(&self, p: &Poly) -> (f64, Vec<(u32, i32)>) {
        let mut it = p.t.keys();
        let first = it.next().unwrap();
        let mut g: HashMap<u32, i32> = first.iter().cloned().collect();
        // min exponent over all terms (absent = 0)
        for m in it {
            let mm: HashMap<u32, i32> = m.iter().cloned().collect();
            for (a, e) in g.iter_mut() {
                *e = (*e).min(*mm.get(a).unwrap_or(&0));
            }
            for (a, e) in &mm {
                if !g.contains_key(a) {
                    g.insert(*a, (*e).min(0));
                }
            }
        }
        let mut gm: Vec<(u32, i32)> = g.into_iter().filter(|x| x.1 != 0).collect();
        gm.sort();
        // leading coefficient: deterministic choice (largest monomial in lexicographic order)
        let lead = p.t.iter().max_by(|a, b| a.0.cmp(b.0)).unwrap();
        (lead.1 .0, gm)
    }

    fn div_mono(&mut self, p: &Poly, k: f64, m: &[(u32, i32)]) -> Poly {
        let inv: Mono = Rc::from(m.iter().map(|(a, e)| (*a, -*e)).collect::<Vec<_>>().into_boxed_slice());
        let mut out = Poly::default();
        for (mm, c) in &p.t {
            let m2 = mono_mul(mm, &inv);
            self.push_reduced(&mut out, &m2, c.0 / k, c.1 / k.abs());
        }
        out.clean();
        out
    }

    fn numeric(&self, p: &Poly, s: usize) -> f64 {
        let mut r = 0.0;
        for (m, c) in &p.t {
            let mut x = c.0;
            for (a, e) in m.iter() {
                x *= self.atoms[*a as usize].v[s].powi(*e);
            }
            r += x;
        }
        r
    }

    fn find_atom(&mut self, op: Op, tag: u8, args: &[Rc<Poly>], v: &[f64; S], allow_neg: bool) -> Option<(u32, bool)> {
        let cands = self.by_op.get(&(op, tag)).cloned().unwrap_or_default();
        for a in cands {
            let at = &self.atoms[a as usize];
            if at.args.len() != args.len() {
                continue;
            }
            // numeric prefilter on the value (|value| when sign symmetric)
            let mut ok = true;
            for s in 0..4 {
                let (x, y) = (at.v[s], v[s]);
                if x.is_nan() || y.is_nan() {
                    continue;
                }
                let (x, y) = if allow_neg { (x.abs(), y.abs()) } else { (x, y) };
                if (x - y).abs() > 1e-6 * (x.abs() + y.abs()) + 1e-9 {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            let at_args = at.args.clone();
            let mut same = true;
            for (x, y) in at_args.iter().zip(args) {
                let d = x.add(y, -1.0);
                if !self.is_zero(&d) {
                    same = false;
                    break;
                }
            }
            if same {
                return Some((a, false));
            }
            if allow_neg {
                let d = at_args[0].add(&args[0], 1.0);
                if self.is_zero(&d) {
                    return Some((a, true));
                }
            }
        }
        None
    }

    fn new_atom(&mut self, kind: AKind, op: Op, tag: u8, args: Vec<Rc<Poly>>, node: Id, nonneg: bool, v: [f64; S]) -> u32 {
        let id = self.atoms.len() as u32;
        self.atoms.push(Atom { kind, op, args, node, nonneg, v });
        self.by_op.entry((op, tag)).or_default().push(id);
        id
    }

    fn pvals(&self, p: &Poly) -> [f64; S] {
        let mut v = [0.0; S];
        for (s, x) in v.iter_mut().enumerate() {
            *x = self.numeric(p, s);
        }
        v
    }

    pub fn inverse(&mut self, p: &Rc<Poly>) -> Option<Poly> {
        if p.t.is_empty() {
            return None;
        }
        if p.t.len() == 1 {
            let (m, c) = p.t.iter().next().unwrap();
            let inv: Mono = Rc::from(m.iter().map(|(a, e)| (*a, -*e)).collect::<Vec<_>>().into_boxed_slice());
            let mut out = Poly::default();
            let k = 1.0 / c.0;
            self.push_reduced(&mut out, &inv, k, k.abs());
            out.clean();
            return Some(out);
        }
        let (k, gm) = self.content(p);
        let prim = Rc::new(self.div_mono(p, k, &gm));
        let v = self.pvals(&prim);
        // content() may leave relation atoms (sqrt) in the primitive part: fine
        let a = match self.find_atom(Op::Const, 9, &[prim.clone()], &v, false) {
            Some((a, _)) => a,
            None => self.new_atom(AKind::Comp, Op::Const, 9, vec![prim], 0, false, v),
        };
        let mut m: Vec<(u32, i32)> = gm.iter().map(|(x, e)| (*x, -*e)).collect();
        m.push((a, -1));
        m.sort();
        let mut out = Poly::default();
        let m: Mono = Rc::from(m.into_boxed_slice());
        self.push_reduced(&mut out, &m, 1.0 / k, (1.0 / k).abs());
        out.clean();
        Some(out)
    }

    /// Is the rational function identically zero (clearing all denominators)?
    pub fn is_zero(&mut self, p: &Poly) -> bool {
        let mut q = p.clone();
        for _round in 0..200 {
            if self.dead {
                return false;
            }
            if q.t.is_empty() {
                return true;
            }
            // quick numeric refutation
            let mut refuted = false;
            for s in 0..S {
                let mut r = 0.0;
                let mut mag = 0.0;
                for (m, c) in &q.t {
                    let mut x = c.0;
                    let mut y = c.1;
                    for (a, e) in m.iter() {
                        let f = self.atoms[*a as usize].v[s].powi(*e);
                        x *= f;
                        y *= f.abs();
                    }
                    r += x;
                    mag += y;
                }
                if r.is_finite() && mag.is_finite() && r.abs() > 1e-6 * mag {
                    refuted = true;
                    break;
                }
            }
            if refuted {
                return false;
            }
            // clear the largest composite / negative relation atom
            let mut worst: Option<(u32, i32)> = None;
            for m in q.t.keys() {
                for (a, e) in m.iter() {
                    if *e < 0 && self.atoms[*a as usize].kind != AKind::Plain {
                        match worst {
                            Some((b, f)) if (b, -f) > (*a, -*e) => {}
                            _ => worst = Some((*a, *e)),
                        }
                    }
                }
            }
            match worst {
                None => return false,
                Some((a, e)) => {
                    let f: Mono = Rc::from(vec![(a, -e)].into_boxed_slice());
                    let mut out = Poly::default();
                    let terms: Vec<(Mono, (f64, f64))> = q.t.drain().collect();
                    for (m, c) in terms {
                        let mm = mono_mul(&m, &f);
                        self.push_reduced(&mut out, &mm, c.0, c.1);
                    }
                    out.clean();
                    q = out;
                }
            }
        }
        false
    }

    fn nonneg_atom(&self, t: &Terms, a: u32) -> bool {
        let at = &self.atoms[a as usize];
        at.nonneg || (at.kind != AKind::Comp && t.n(at.node).lo >= 0.0 && at.node != 0)
    }

    /// normal form of a node
    pub fn poly(&mut self, t: &Terms, root: Id) -> Option<Rc<Poly>> {
        let mut stack = vec![root];
        while let Some(&i) = stack.last() {
            if self.memo.contains_key(&i) {
                stack.pop();
                continue;
            }
            let n = t.n(i);
            let mut ready = true;
            for a in n.args.iter() {
                if !self.memo.contains_key(a) {
                    stack.push(*a);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let args: Vec<Option<Rc<Poly>>> = n.args.iter().map(|a| self.memo[a].clone()).collect();
            let w0 = self.work;
            let r = self.node_poly(t, i, &args);
            if self.dead {
                // do not memoise a failure caused by the work limit of this query unless it alone is huge
                if self.work - w0 > self.limit / 2 {
                    self.memo.insert(i, None);
                }
                return None;
            }
            self.memo.insert(i, r.map(Rc::new));
            stack.pop();
        }
        self.memo[&root].clone()
    }

    fn node_poly(&mut self, t: &Terms, i: Id, args: &[Option<Rc<Poly>>]) -> Option<Poly> {
        let n = t.n(i);
        for a in args {
            if a.is_none() {
                return None;
            }
        }
        let p = |k: usize| args[k].as_ref().unwrap();
        Some(match n.op {
            Op::Const => Poly::konst(n.c),
            Op::Var => {
                let a = match self.var_atom.get(&i) {
                    Some(a) => *a,
                    None => {
                        let a = self.new_atom(AKind::Plain, Op::Var, 0, vec![], i, n.lo >= 0.0, n.v);
                        self.var_atom.insert(i, a);
                        a
                    }
                };
                Poly::atom(a)
            }
            Op::Add => p(0).add(p(1), 1.0),
            Op::Sub => p(0).add(p(1), -1.0),
            Op::Neg => p(0).scale(-1.0),
            Op::Mul => self.mul(p(0), p(1)),
            Op::Div => {
                if p(0).t.is_empty() {
                    return Some(Poly::zero());
                }
                let inv = self.inverse(p(1))?;
                self.mul(p(0), &inv)
            }
            Op::Sqrt => {
                let q = p(0).clone();
                if q.t.is_empty() {
                    return Some(Poly::zero());
                }
                if let Some(c) = q.is_const() {
                    return if c >= 0.0 { Some(Poly::konst(c.sqrt())) } else { None };
                }
                let (k, gm) = self.content(&q);
                let k = k.abs();
                // even part of the common monomial
                let mut ev: Vec<(u32, i32)> = vec![];
                let mut outside: Vec<(u32, i32, bool)> = vec![];
                for (a, e) in gm {
                    let kind = self.atoms[a as usize].kind;
                    if kind == AKind::Comp {
                        continue;
                    }
                    let h = e.div_euclid(2);
                    if h != 0 {
                        ev.push((a, 2 * h));
                        outside.push((a, h, self.nonneg_atom(t, a) || h % 2 == 0));
                    }
                }
                let prim = Rc::new(self.div_mono(&q, k, &ev));
                let mut outm = Poly::konst(k.sqrt());
                for (a, h, nn) in outside {
                    if nn {
                        let f = Poly { t: [(Rc::from(vec![(a, h)].into_boxed_slice()), (1.0, 1.0))].into_iter().collect() };
                        outm = self.mul(&outm, &f);
                    } else {
                        let ap = Rc::new(Poly::atom(a));
                        let ab = self.abs_atom(t, ap, 0);
                        let f = Poly { t: [(Rc::from(vec![(ab, h)].into_boxed_slice()), (1.0, 1.0))].into_iter().collect() };
                        outm = self.mul(&outm, &f);
                    }
                }
                if let Some(c) = prim.is_const() {
                    return if c >= 0.0 { Some(outm.scale(c.sqrt())) } else { None };
                }
                let mut v = self.pvals(&prim);
                for x in v.iter_mut() {
                    *x = x.sqrt();
                }
                let a = match self.find_atom(Op::Sqrt, 0, &[prim.clone()], &v, false) {
                    Some((a, _)) => a,
                    None => self.new_atom(AKind::Sqrt, Op::Sqrt, 0, vec![prim], i, true, v),
                };
                self.mul(&outm, &Poly::atom(a))
            }
            Op::Abs => {
                let q = p(0).clone();
                if let Some(c) = q.is_const() {
                    return Some(Poly::konst(c.abs()));
                }
                let (k, _) = self.content(&q);
                let prim = Rc::new(q.scale(1.0 / k));
                // |single monomial of nonneg atoms|
                if prim.t.len() == 1 {
                    let m = prim.t.keys().next().unwrap().clone();
                    if m.iter().all(|(a, e)| e % 2 == 0 || self.nonneg_atom(t, *a)) {
                        return Some(prim.scale(k.abs()));
                    }
                }
                let a = self.abs_atom(t, prim, i);
                Poly::atom(a).scale(k.abs())
            }
            Op::Sin | Op::Cos => {
                let q = p(0).clone();
                if q.t.is_empty() {
                    return Some(Poly::konst(if n.op == Op::Sin { 0.0 } else { 1.0 }));
                }
                // cos atoms are the base; each sin atom is paired
                let arg_v = self.pvals(&q);
                let mut cv = arg_v;
                for x in cv.iter_mut() {
                    *x = x.cos();
                }
                let mut sv = arg_v;
                for x in sv.iter_mut() {
                    *x = x.sin();
                }
                let (ca, neg) = match self.find_atom(Op::Cos, 0, &[q.clone()], &cv, true) {
                    Some((a, ng)) => (a, ng),
                    None => {
                        let ca = self.new_atom(AKind::Plain, Op::Cos, 0, vec![q.clone()], i, false, cv);
                        self.new_atom(AKind::Sin(ca), Op::Sin, 0, vec![q.clone()], i, false, sv);
                        (ca, false)
                    }
                };
                if n.op == Op::Cos {
                    Poly::atom(ca)
                } else {
                    // the sin atom is created right after its cos atom
                    let sa = ca + 1;
                    Poly::atom(sa).scale(if neg { -1.0 } else { 1.0 })
                }
            }
            // exp of a sum: the product of the exponentials of its terms, exp(-x) = exp(x)^-1
            Op::Exp if p(0).t.len() <= 6 => {
                let q = p(0).clone();
                let mut out = Poly::konst(1.0);
                let mut terms: Vec<_> = q.t.iter().map(|(m, c)| (m.clone(), *c)).collect();
                terms.sort_by(|a, b| a.0.cmp(&b.0));
                for (m, c) in terms {
                    if m.is_empty() {
                        out = out.scale(c.0.exp());
                        continue;
                    }
                    let mut one = Poly::default();
                    one.t.insert(m, (c.0.abs(), c.1));
                    let one = Rc::new(one);
                    let mut v = self.pvals(&one);
                    for x in v.iter_mut() {
                        *x = x.exp();
                    }
                    let a = match self.find_atom(Op::Exp, 0, &[one.clone()], &v, false) {
                        Some((a, _)) => a,
                        None => self.new_atom(AKind::Plain, Op::Exp, 0, vec![one], i, true, v),
                    };
                    let mut f = Poly::default();
                    f.t.insert(Rc::from(vec![(a, if c.0 < 0.0 { -1 } else { 1 })].into_boxed_slice()), (1.0, 1.0));
                    out = self.mul(&out, &f);
                }
                out
            }
            op => {
                let ar: Vec<Rc<Poly>> = args.iter().map(|x| x.clone().unwrap()).collect();
                let a = match self.find_atom(op, 0, &ar, &n.v, false) {
                    Some((a, _)) => a,
                    None => self.new_atom(AKind::Plain, op, 0, ar, i, n.lo >= 0.0, n.v),
                };
                Poly::atom(a)
            }
        })
    }

    fn abs_atom(&mut self, _t: &Terms, prim: Rc<Poly>, i: Id) -> u32 {
        let mut v = self.pvals(&prim);
        for x in v.iter_mut() {
            *x = x.abs();
        }
        match self.find_atom(Op::Abs, 0, &[prim.clone()], &v, true) {
            Some((a, _)) => a,
            None => self.new_atom(AKind::Abs, Op::Abs, 0, vec![prim], i, true, v),
        }
    }

    /// substitute atom := poly in p
    pub fn subst(&mut self, p: &Poly, atom: u32, by: &Poly) -> Poly {
        let by = Rc::new(by.clone());
        let mut out = Poly::default();
        for (m, c) in &p.t {
            match m.iter().find(|x| x.0 == atom) {
                None => {
                    out.addin(m, c.0, c.1);
                }
                Some((_, e)) => {
                    let rest: Mono = Rc::from(m.iter().filter(|x| x.0 != atom).cloned().collect::<Vec<_>>().into_boxed_slice());
                    let e = *e;
                    let pw = self.pow(&by, e, 0, false);
                    for (m2, c2) in pw.t.iter() {
                        let mm = mono_mul(&rest, m2);
                        self.push_reduced(&mut out, &mm, c.0 * c2.0, c.1 * c2.1);
                    }
                }
            }
        }
        out.clean();
        out
    }

    /// does atom occur inside other atoms' arguments of p (making substitution incomplete)?
    pub fn clear_memo(&mut self) {
        self.memo.clear();
    }
}
