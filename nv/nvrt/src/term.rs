//! Hash-consed term DAG over the reals.
use std::collections::HashMap;

pub type Id = u32;
pub const S: usize = 16; // number of random sample valuations carried by every node

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Sqrt,
    Abs,
    Sin,
    Cos,
    Tan,
    Asin,
    Acos,
    Atan,
    Atan2,
    Exp,
    Ln,
    Sinh,
    Cosh,
    Tanh,
    Asinh,
    Acosh,
    Atanh,
    Cbrt,
    Pow,
    Floor,
    Uf(u32),
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub args: Box<[Id]>,
    pub c: f64, // constant value
    pub lo: f64,
    pub hi: f64,
    pub v: [f64; S],
    pub e: [f64; S],
}

pub struct VarInfo {
    pub name: String,
    pub lo: f64,
    pub hi: f64,
    pub id: Id,
}

pub struct UfInfo {
    pub name: String,
    pub lo: f64,
    pub hi: f64,
}

#[derive(Default)]
pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<(Op, Box<[Id]>, u64), Id>,
    pub vars: Vec<VarInfo>,
    pub var_by_name: HashMap<String, usize>,
    pub ufs: Vec<UfInfo>,
    pub uf_by_name: HashMap<String, u32>,
    pub seed: u64,
}

pub fn hash64(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    hash64(h)
}
pub fn unit(h: u64) -> f64 {
    (h >> 11) as f64 / (1u64 << 53) as f64
}

/// Draw a value in [lo,hi] (possibly infinite bounds)
pub fn draw(lo: f64, hi: f64, h: u64) -> f64 {
    let u = unit(hash64(h ^ 0x1234));
    let kind = hash64(h ^ 0x77) % 8;
    if lo.is_finite() && hi.is_finite() {
        match kind {
            0 if lo > 0.0 && hi / lo > 100.0 => (lo.ln() + u * (hi.ln() - lo.ln())).exp().clamp(lo, hi),
            1 => {
                // concentrated around the centre
                let m = 0.5 * (lo + hi);
                m + (u - 0.5) * (hi - lo) * 0.05
            }
            _ => lo + u * (hi - lo),
        }
    } else if lo.is_finite() {
        lo + (u * 3.0 / (1.0 - 0.95 * u))
    } else if hi.is_finite() {
        hi - (u * 3.0 / (1.0 - 0.95 * u))
    } else {
        (u - 0.5) * if kind < 3 { 1.0 } else { 6.0 }
    }
}

/// smooth pseudo-random function used to give uninterpreted functions a concrete meaning
pub fn uf_eval(name_hash: u64, lo: f64, hi: f64, args: &[f64]) -> f64 {
    let mut ph = unit(hash64(name_hash ^ 0xABCD)) * 6.0;
    for (i, a) in args.iter().enumerate() {
        let w = 0.3 + unit(hash64(name_hash ^ (i as u64 + 1) * 7919));
        // squash so that large arguments (km, s) still vary smoothly
        let s = a / (1.0 + a.abs() * 0.02);
        ph += w * s;
    }
    let t = 0.5 + 0.5 * ph.sin();
    if lo.is_finite() && hi.is_finite() {
        lo + (hi - lo) * t
    } else if lo.is_finite() {
        lo + 2.0 * t
    } else if hi.is_finite() {
        hi - 2.0 * t
    } else {
        (t - 0.45) * 3.0
    }
}

fn widen(lo: f64, hi: f64) -> (f64, f64) {
    let l = if lo.is_nan() { f64::NEG_INFINITY } else { lo - lo.abs() * 1e-14 };
    let h = if hi.is_nan() { f64::INFINITY } else { hi + hi.abs() * 1e-14 };
    (l, h)
}

fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let m = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
    let p = [m(a.0, b.0), m(a.0, b.1), m(a.1, b.0), m(a.1, b.1)];
    let lo = p.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    (lo, hi)
}

impl Terms {
    pub fn n(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }

    pub fn konst(&mut self, c: f64) -> Id {
        let c = if c == 0.0 { 0.0 } else { c };
        let key = (Op::Const, Box::from([]), c.to_bits());
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { op: Op::Const, args: Box::from([]), c, lo: c, hi: c, v: [c; S], e: [0.0; S] });
        self.map.insert(key, id);
        id
    }

    pub fn var(&mut self, name: &str, lo: f64, hi: f64) -> Id {
        if let Some(k) = self.var_by_name.get(name) {
            return self.vars[*k].id;
        }
        let id = self.nodes.len() as Id;
        let h = hash_str(name) ^ hash64(self.seed);
        let mut v = [0.0; S];
        for (s, x) in v.iter_mut().enumerate() {
            *x = draw(lo, hi, h.wrapping_add(hash64(s as u64 + 17)));
        }
        self.nodes.push(Node { op: Op::Var, args: Box::from([]), c: 0.0, lo, hi, v, e: [0.0; S] });
        self.var_by_name.insert(name.to_string(), self.vars.len());
        self.vars.push(VarInfo { name: name.to_string(), lo, hi, id });
        id
    }

    pub fn uf(&mut self, name: &str, lo: f64, hi: f64) -> u32 {
        if let Some(k) = self.uf_by_name.get(name) {
            return *k;
        }
        let k = self.ufs.len() as u32;
        self.ufs.push(UfInfo { name: name.to_string(), lo, hi });
        self.uf_by_name.insert(name.to_string(), k);
        k
    }

    pub fn is_const(&self, i: Id) -> Option<f64> {
        let n = self.n(i);
        if n.op == Op::Const {
            Some(n.c)
        } else {
            None
        }
    }

    /// numeric evaluation of one operation
    pub fn eval_op(&self, op: Op, c: f64, a: &[f64]) -> f64 {
        match op {
            Op::Const => c,
            Op::Var => unreachable!(),
            Op::Add => a[0] + a[1],
            Op::Sub => a[0] - a[1],
            Op::Mul => a[0] * a[1],
            Op::Div => {
                if a[1] == 0.0 {
                    f64::NAN
                } else {
                    a[0] / a[1]
                }
            }
            Op::Neg => -a[0],
            Op::Sqrt => a[0].sqrt(),
            Op::Abs => a[0].abs(),
            Op::Sin => a[0].sin(),
            Op::Cos => a[0].cos(),
            Op::Tan => a[0].tan(),
            Op::Asin => a[0].asin(),
            Op::Acos => a[0].acos(),
            Op::Atan => a[0].atan(),
            Op::Atan2 => a[0].atan2(a[1]),
            Op::Exp => a[0].exp(),
            Op::Ln => a[0].ln(),
            Op::Sinh => a[0].sinh(),
            Op::Cosh => a[0].cosh(),
            Op::Tanh => a[0].tanh(),
            Op::Asinh => a[0].asinh(),
            Op::Acosh => a[0].acosh(),
            Op::Atanh => a[0].atanh(),
            Op::Cbrt => a[0].cbrt(),
            Op::Pow => a[0].powf(a[1]),
            Op::Floor => a[0].floor(),
            Op::Uf(k) => {
                let u = &self.ufs[k as usize];
                uf_eval(hash_str(&u.name), u.lo, u.hi, a)
            }
        }
    }

    fn eval_err(&self, op: Op, a: &[f64], e: &[f64], r: f64) -> f64 {
        const EPS: f64 = 2.3e-16;
        let base = EPS * r.abs();
        let d = match op {
            Op::Const | Op::Var => return 0.0,
            Op::Add | Op::Sub => e[0] + e[1],
            Op::Mul => a[0].abs() * e[1] + a[1].abs() * e[0],
            Op::Div => (e[0] + r.abs() * e[1]) / a[1].abs(),
            Op::Neg | Op::Abs => return e[0],
            Op::Sqrt => {
                if r > 0.0 {
                    (e[0] / (2.0 * r)).min(e[0].sqrt())
                } else {
                    e[0].sqrt()
                }
            }
            Op::Floor => 0.0,
            Op::Uf(k) => {
                let u = &self.ufs[k as usize];
                let span = if (u.hi - u.lo).is_finite() { u.hi - u.lo } else { 3.0 };
                e.iter().sum::<f64>() * 1.3 * span
            }
            Op::Sin | Op::Cos | Op::Atan | Op::Tanh => e[0] + EPS,
            _ => {
                // central finite perturbation
                let mut tot = 0.0;
                for i in 0..a.len() {
                    if e[i] > 0.0 {
                        let mut b = a.to_vec();
                        b[i] += e[i];
                        let r2 = self.eval_op(op, 0.0, &b);
                        b[i] = a[i] - e[i];
                        let r3 = self.eval_op(op, 0.0, &b);
                        let d2 = (r2 - r).abs();
                        let d3 = (r3 - r).abs();
                        tot += match (d2.is_nan(), d3.is_nan()) {
                            (false, false) => d2.max(d3),
                            (true, false) => d3,
                            (false, true) => d2,
                            _ => 0.0,
                        };
                    }
                }
                tot
            }
        };
        base + d
    }

    /// interval of a product, with equal factors of the flattened product paired as squares
    fn paired(&self, args: &[Id]) -> (f64, f64) {
        let mut f: Vec<Id> = vec![];
        let mut st: Vec<Id> = args.to_vec();
        let mut neg = false;
        while let Some(x) = st.pop() {
            let n = self.n(x);
            if n.op == Op::Mul && f.len() + st.len() < 12 {
                st.extend_from_slice(&n.args);
            } else if n.op == Op::Neg {
                neg = !neg;
                st.push(n.args[0]);
            } else {
                f.push(x);
            }
        }
        f.sort();
        let mut r = (1.0, 1.0);
        let mut i = 0;
        while i < f.len() {
            let n = self.n(f[i]);
            if i + 1 < f.len() && f[i] == f[i + 1] {
                let m = n.lo.abs().max(n.hi.abs());
                let lo = if n.lo <= 0.0 && n.hi >= 0.0 { 0.0 } else { n.lo.abs().min(n.hi.abs()) };
                r = imul(r, (lo * lo, m * m));
                i += 2;
            } else {
                r = imul(r, (n.lo, n.hi));
                i += 1;
            }
        }
        if neg {
            (-r.1, -r.0)
        } else {
            r
        }
    }

    fn interval(&self, op: Op, args: &[Id]) -> (f64, f64) {
        let inf = f64::INFINITY;
        let a = |k: usize| {
            let n = self.n(args[k]);
            (n.lo, n.hi)
        };
        let (lo, hi) = match op {
            Op::Add => (a(0).0 + a(1).0, a(0).1 + a(1).1),
            Op::Sub => (a(0).0 - a(1).1, a(0).1 - a(1).0),
            Op::Mul => {
                if args[0] == args[1] {
                    let (l, h) = a(0);
                    let m = l.abs().max(h.abs());
                    let lo = if l <= 0.0 && h >= 0.0 { 0.0 } else { l.abs().min(h.abs()) };
                    (lo * lo, m * m)
                } else {
                    let plain = imul(a(0), a(1));
                    if plain.0 < 0.0 && plain.1 > 0.0 {
                        // pair equal factors: a*(a*b) = a^2*b
                        let sq = self.paired(args);
                        (plain.0.max(sq.0), plain.1.min(sq.1))
                    } else {
                        plain
                    }
                }
            }
            Op::Div => {
                let (l, h) = a(1);
                if l > 0.0 || h < 0.0 {
                    imul(a(0), (1.0 / h, 1.0 / l))
                } else if l == 0.0 {
                    // divisor positive (definedness)
                    imul(a(0), (if h.is_finite() { 1.0 / h } else { 0.0 }, inf))
                } else {
                    (-inf, inf)
                }
            }
            Op::Neg => (-a(0).1, -a(0).0),
            Op::Sqrt => (a(0).0.max(0.0).sqrt(), a(0).1.max(0.0).sqrt()),
            Op::Abs => {
                let (l, h) = a(0);
                if l >= 0.0 {
                    (l, h)
                } else if h <= 0.0 {
                    (-h, -l)
                } else {
                    (0.0, (-l).max(h))
                }
            }
            Op::Sin | Op::Cos => return (-1.0, 1.0),
            Op::Asin | Op::Atan => return (-std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_2),
            Op::Acos => return (0.0, std::f64::consts::PI),
            Op::Atan2 => {
                let y = a(0);
                if y.0 >= 0.0 {
                    return (0.0, std::f64::consts::PI);
                }
                return (-std::f64::consts::PI, std::f64::consts::PI);
            }
            Op::Exp => (a(0).0.exp(), a(0).1.exp()),
            Op::Cosh => (1.0, inf),
            Op::Tanh => (-1.0, 1.0),
            Op::Pow => {
                if a(0).0 >= 0.0 {
                    (0.0, inf)
                } else {
                    (-inf, inf)
                }
            }
            Op::Floor => (a(0).0.floor(), a(0).1.floor()),
            Op::Uf(k) => {
                let u = &self.ufs[k as usize];
                return (u.lo, u.hi);
            }
            _ => (-inf, inf),
        };
        if matches!(op, Op::Floor | Op::Neg | Op::Abs) {
            return (lo, hi);
        }
        let (l, h) = widen(lo, hi);
        // keep exact zero bounds exact
        (if lo == 0.0 { 0.0 } else { l }, if hi == 0.0 { 0.0 } else { h })
    }

    pub fn mk(&mut self, op: Op, args: &[Id]) -> Id {
        // ordering for commutative ops
        let mut buf: Vec<Id> = args.to_vec();
        if matches!(op, Op::Add | Op::Mul) && buf[0] > buf[1] {
            buf.swap(0, 1);
        }
        let key = (op, buf.into_boxed_slice(), 0u64);
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let args = key.1.clone();
        let mut v = [0.0; S];
        let mut e = [0.0; S];
        let mut av = vec![0.0; args.len()];
        let mut ae = vec![0.0; args.len()];
        for s in 0..S {
            for (k, a) in args.iter().enumerate() {
                av[k] = self.n(*a).v[s];
                ae[k] = self.n(*a).e[s];
            }
            v[s] = self.eval_op(op, 0.0, &av);
            e[s] = self.eval_err(op, &av, &ae, v[s]);
        }
        let (lo, hi) = self.interval(op, &args);
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { op, args, c: 0.0, lo, hi, v, e });
        self.map.insert(key, id);
        id
    }

    // ---- smart constructors
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(x + y),
            (Some(x), _) if x == 0.0 => return b,
            (_, Some(y)) if y == 0.0 => return a,
            _ => {}
        }
        let nb = self.n(b);
        if nb.op == Op::Neg {
            let bb = nb.args[0];
            return self.sub(a, bb);
        }
        let na = self.n(a);
        if na.op == Op::Neg {
            let aa = na.args[0];
            return self.sub(b, aa);
        }
        // (x - y) + y
        if na.op == Op::Sub && na.args[1] == b {
            return na.args[0];
        }
        if nb.op == Op::Sub && nb.args[1] == a {
            return nb.args[0];
        }
        self.mk(Op::Add, &[a, b])
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(0.0);
        }
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(x - y),
            (Some(x), _) if x == 0.0 => return self.neg(b),
            (_, Some(y)) if y == 0.0 => return a,
            _ => {}
        }
        let nb = self.n(b);
        if nb.op == Op::Neg {
            let bb = nb.args[0];
            return self.add(a, bb);
        }
        let na = self.n(a);
        // (x + y) - y
        if na.op == Op::Add {
            if na.args[0] == b {
                return na.args[1];
            }
            if na.args[1] == b {
                return na.args[0];
            }
        }
        self.mk(Op::Sub, &[a, b])
    }
    pub fn neg(&mut self, a: Id) -> Id {
        if let Some(x) = self.is_const(a) {
            return self.konst(-x);
        }
        let n = self.n(a);
        if n.op == Op::Neg {
            return n.args[0];
        }
        if n.op == Op::Sub {
            let (x, y) = (n.args[0], n.args[1]);
            return self.mk(Op::Sub, &[y, x]);
        }
        self.mk(Op::Neg, &[a])
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(x * y),
            (Some(x), _) => {
                if x == 0.0 {
                    return a;
                } else if x == 1.0 {
                    return b;
                } else if x == -1.0 {
                    return self.neg(b);
                }
            }
            (_, Some(_)) => return self.mul(b, a),
            _ => {}
        }
        // c1 * (c2 * x): unit conversions there and back cancel (up to rounding)
        if let Some(x) = self.is_const(a) {
            let nb = self.n(b);
            if nb.op == Op::Mul {
                let (p, q) = (nb.args[0], nb.args[1]);
                for (p, q) in [(p, q), (q, p)] {
                    if let Some(y) = self.is_const(p) {
                        let z = x * y;
                        let z = if (z - 1.0).abs() < 1e-15 { 1.0 } else { z };
                        let k = self.konst(z);
                        return self.mul(k, q);
                    }
                }
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Neg && nb.op == Op::Neg {
            let (x, y) = (na.args[0], nb.args[0]);
            return self.mul(x, y);
        }
        if na.op == Op::Neg {
            let x = na.args[0];
            let m = self.mul(x, b);
            return self.neg(m);
        }
        if nb.op == Op::Neg {
            let y = nb.args[0];
            let m = self.mul(a, y);
            return self.neg(m);
        }
        if a == b && na.op == Op::Sqrt {
            return na.args[0];
        }
        if a == b && na.op == Op::Abs {
            let x = na.args[0];
            return self.mul(x, x);
        }
        self.mk(Op::Mul, &[a, b])
    }
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(1.0);
        }
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.konst(x / y),
            (Some(x), _) if x == 0.0 => return a,
            (_, Some(y)) => {
                if y == 1.0 {
                    return a;
                } else if y == -1.0 {
                    return self.neg(a);
                }
            }
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Neg && nb.op == Op::Neg {
            let (x, y) = (na.args[0], nb.args[0]);
            return self.div(x, y);
        }
        if na.op == Op::Neg {
            let x = na.args[0];
            let m = self.div(x, b);
            return self.neg(m);
        }
        if nb.op == Op::Neg {
            let y = nb.args[0];
            let m = self.div(a, y);
            return self.neg(m);
        }
        self.mk(Op::Div, &[a, b])
    }
    pub fn sqrt(&mut self, a: Id) -> Id {
        if let Some(x) = self.is_const(a) {
            return self.konst(x.sqrt());
        }
        let n = self.n(a);
        if n.op == Op::Mul && n.args[0] == n.args[1] {
            let x = n.args[0];
            return self.abs(x);
        }
        self.mk(Op::Sqrt, &[a])
    }
    pub fn abs(&mut self, a: Id) -> Id {
        if let Some(x) = self.is_const(a) {
            return self.konst(x.abs());
        }
        let n = self.n(a);
        if n.lo >= 0.0 {
            return a;
        }
        if n.hi <= 0.0 {
            return self.neg(a);
        }
        if n.op == Op::Neg {
            let x = n.args[0];
            return self.abs(x);
        }
        self.mk(Op::Abs, &[a])
    }
    pub fn powi(&mut self, a: Id, n: i32) -> Id {
        if n == 0 {
            return self.konst(1.0);
        }
        let mut k = n.unsigned_abs();
        let mut base = a;
        let mut acc: Option<Id> = None;
        while k > 0 {
            if k & 1 == 1 {
                acc = Some(match acc {
                    None => base,
                    Some(x) => self.mul(x, base),
                });
            }
            k >>= 1;
            if k > 0 {
                base = self.mul(base, base);
            }
        }
        let r = acc.unwrap();
        if n < 0 {
            let one = self.konst(1.0);
            self.div(one, r)
        } else {
            r
        }
    }
    /// rebuild a term after replacing some of its subterms
    pub fn rebuild(&mut self, i: Id, map: &mut HashMap<Id, Id>) -> Id {
        if let Some(r) = map.get(&i) {
            return *r;
        }
        let (op, args) = (self.n(i).op, self.n(i).args.clone());
        if args.is_empty() {
            map.insert(i, i);
            return i;
        }
        let mut na = Vec::with_capacity(args.len());
        for a in args.iter() {
            na.push(self.rebuild(*a, map));
        }
        let r = if na[..] == args[..] {
            i
        } else {
            match op {
                Op::Add => self.add(na[0], na[1]),
                Op::Sub => self.sub(na[0], na[1]),
                Op::Mul => self.mul(na[0], na[1]),
                Op::Div => self.div(na[0], na[1]),
                Op::Neg => self.neg(na[0]),
                Op::Sqrt => self.sqrt(na[0]),
                Op::Abs => self.abs(na[0]),
                Op::Sin | Op::Cos | Op::Exp | Op::Ln => self.un(op, na[0]),
                _ => i,
            }
        };
        map.insert(i, r);
        r
    }
    /// the |x| subterms of a term
    pub fn abs_terms(&self, i: Id, seen: &mut std::collections::HashSet<Id>, out: &mut Vec<Id>) {
        if !seen.insert(i) {
            return;
        }
        for a in self.n(i).args.iter() {
            self.abs_terms(*a, seen, out);
        }
        if self.n(i).op == Op::Abs {
            out.push(i);
        }
    }
    pub fn un(&mut self, op: Op, a: Id) -> Id {
        if let Some(x) = self.is_const(a) {
            let r = self.eval_op(op, 0.0, &[x]);
            return self.konst(r);
        }
        match op {
            Op::Sqrt => return self.sqrt(a),
            Op::Abs => return self.abs(a),
            Op::Neg => return self.neg(a),
            _ => {}
        }
        let n = self.n(a);
        match (op, n.op) {
            (Op::Sin, Op::Neg) | (Op::Tan, Op::Neg) | (Op::Asin, Op::Neg) | (Op::Atan, Op::Neg) => {
                let x = n.args[0];
                let r = self.un(op, x);
                return self.neg(r);
            }
            (Op::Cos, Op::Neg) => {
                let x = n.args[0];
                return self.un(op, x);
            }
            (Op::Sin, Op::Asin) | (Op::Cos, Op::Acos) | (Op::Exp, Op::Ln) | (Op::Ln, Op::Exp) | (Op::Tan, Op::Atan) => {
                return n.args[0]
            }
            (Op::Cos, Op::Asin) | (Op::Sin, Op::Acos) => {
                let x = n.args[0];
                let one = self.konst(1.0);
                let xx = self.mul(x, x);
                let d = self.sub(one, xx);
                return self.sqrt(d);
            }
            (Op::Sin, Op::Atan2) | (Op::Cos, Op::Atan2) => {
                // atan2(y,x): sin = y/h, cos = x/h with h = sqrt(x^2+y^2)  (h != 0: definedness)
                let (y, x) = (n.args[0], n.args[1]);
                let xx = self.mul(x, x);
                let yy = self.mul(y, y);
                let s = self.add(xx, yy);
                let h = self.sqrt(s);
                return self.div(if op == Op::Sin { y } else { x }, h);
            }
            (Op::Tan, _) => {
                let s = self.un(Op::Sin, a);
                let c = self.un(Op::Cos, a);
                return self.div(s, c);
            }
            _ => {}
        }
        self.mk(op, &[a])
    }

    /// Evaluate the whole DAG reachable from `roots` at the given variable values (by var index)
    pub fn eval_at(&self, vals: &[f64], cache: &mut HashMap<Id, f64>, root: Id) -> f64 {
        let mut stack = vec![root];
        while let Some(&i) = stack.last() {
            if cache.contains_key(&i) {
                stack.pop();
                continue;
            }
            let n = self.n(i);
            if n.op == Op::Var {
                let k = self.vars.iter().position(|v| v.id == i).unwrap();
                cache.insert(i, vals[k]);
                stack.pop();
                continue;
            }
            let mut ok = true;
            for a in n.args.iter() {
                if !cache.contains_key(a) {
                    stack.push(*a);
                    ok = false;
                }
            }
            if ok {
                let a: Vec<f64> = n.args.iter().map(|x| cache[x]).collect();
                let r = self.eval_op(n.op, n.c, &a);
                cache.insert(i, r);
                stack.pop();
            }
        }
        cache[&root]
    }

    /// symbolic derivative of `f` with respect to leaf `x` (a Var or any node treated as an independent leaf)
    pub fn diff(&mut self, f: Id, x: Id, memo: &mut HashMap<Id, Id>) -> Id {
        if f == x {
            return self.konst(1.0);
        }
        if let Some(r) = memo.get(&f) {
            return *r;
        }
        let n = self.n(f).clone();
        let zero = self.konst(0.0);
        let r = match n.op {
            Op::Const | Op::Var => zero,
            _ => {
                let d: Vec<Id> = n.args.iter().map(|a| self.diff(*a, x, memo)).collect();
                if d.iter().all(|k| *k == zero) {
                    zero
                } else {
                    let a = &n.args;
                    match n.op {
                        Op::Add => self.add(d[0], d[1]),
                        Op::Sub => self.sub(d[0], d[1]),
                        Op::Neg => self.neg(d[0]),
                        Op::Mul => {
                            let p = self.mul(d[0], a[1]);
                            let q = self.mul(a[0], d[1]);
                            self.add(p, q)
                        }
                        Op::Div => {
                            // (d0 - f d1)/a1
                            let p = self.mul(f, d[1]);
                            let q = self.sub(d[0], p);
                            self.div(q, a[1])
                        }
                        Op::Sqrt => {
                            let two = self.konst(2.0);
                            let t = self.mul(two, f);
                            self.div(d[0], t)
                        }
                        Op::Abs => {
                            let s = self.div(f, a[0]);
                            self.mul(s, d[0])
                        }
                        Op::Sin => {
                            let c = self.un(Op::Cos, a[0]);
                            self.mul(c, d[0])
                        }
                        Op::Cos => {
                            let c = self.un(Op::Sin, a[0]);
                            let m = self.mul(c, d[0]);
                            self.neg(m)
                        }
                        Op::Exp => self.mul(f, d[0]),
                        Op::Ln => self.div(d[0], a[0]),
                        Op::Asin | Op::Acos => {
                            let one = self.konst(1.0);
                            let xx = self.mul(a[0], a[0]);
                            let t = self.sub(one, xx);
                            let s = self.sqrt(t);
                            let r = self.div(d[0], s);
                            if n.op == Op::Asin {
                                r
                            } else {
                                self.neg(r)
                            }
                        }
                        Op::Atan => {
                            let one = self.konst(1.0);
                            let xx = self.mul(a[0], a[0]);
                            let t = self.add(one, xx);
                            self.div(d[0], t)
                        }
                        Op::Atan2 => {
                            // (x dy - y dx)/(x^2+y^2), a0=y a1=x
                            let p = self.mul(a[1], d[0]);
                            let q = self.mul(a[0], d[1]);
                            let num = self.sub(p, q);
                            let xx = self.mul(a[1], a[1]);
                            let yy = self.mul(a[0], a[0]);
                            let den = self.add(xx, yy);
                            self.div(num, den)
                        }
                        Op::Floor => zero,
                        _ => panic!("nvrt: derivative of {:?} not supported", n.op),
                    }
                }
            }
        };
        memo.insert(f, r);
        r
    }

    pub fn show(&self, i: Id, depth: usize) -> String {
        let n = self.n(i);
        match n.op {
            Op::Const => format!("{}", n.c),
            Op::Var => self.vars.iter().find(|v| v.id == i).map(|v| v.name.clone()).unwrap_or_default(),
            _ if depth == 0 => format!("#{i}"),
            Op::Add => format!("({} + {})", self.show(n.args[0], depth - 1), self.show(n.args[1], depth - 1)),
            Op::Sub => format!("({} - {})", self.show(n.args[0], depth - 1), self.show(n.args[1], depth - 1)),
            Op::Mul => format!("({} * {})", self.show(n.args[0], depth - 1), self.show(n.args[1], depth - 1)),
            Op::Div => format!("({} / {})", self.show(n.args[0], depth - 1), self.show(n.args[1], depth - 1)),
            Op::Neg => format!("-{}", self.show(n.args[0], depth - 1)),
            op => {
                let nm = match op {
                    Op::Uf(k) => self.ufs[k as usize].name.clone(),
                    o => format!("{o:?}").to_lowercase(),
                };
                let a: Vec<String> = n.args.iter().map(|x| self.show(*x, depth - 1)).collect();
                format!("{nm}({})", a.join(", "))
            }
        }
    }
}
