//! The f64 operations of rewritten code.
use crate::smt::Rel;
use crate::term::*;
use crate::{boxed, cx, fatal, mkbox, unbox};

fn bin(op: Op, a: f64, b: f64) -> f64 {
    let c = cx();
    let (x, y) = (c.id_of(a), c.id_of(b));
    let r = match op {
        Op::Add => c.t.add(x, y),
        Op::Sub => c.t.sub(x, y),
        Op::Mul => c.t.mul(x, y),
        Op::Div => c.t.div(x, y),
        o => c.t.mk(o, &[x, y]),
    };
    c.wrap(r)
}
fn un(op: Op, a: f64) -> f64 {
    let c = cx();
    let x = unbox(a);
    let r = c.t.un(op, x);
    c.wrap(r)
}
/// sign of a symbolic value: -1, 0, 1 (forks)
fn sgn(a: f64) -> i32 {
    let c = cx();
    let x = unbox(a);
    if c.decide(Rel::Lt, x) {
        -1
    } else if c.decide(Rel::Eq, x) {
        0
    } else {
        1
    }
}

macro_rules! bad {
    ($x:expr) => {
        !boxed($x) && !$x.is_finite()
    };
}

#[no_mangle]
pub extern "C" fn nv_fadd(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a + b;
    }
    if bad!(a) {
        return a;
    }
    if bad!(b) {
        return b;
    }
    bin(Op::Add, a, b)
}
#[no_mangle]
pub extern "C" fn nv_fsub(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a - b;
    }
    if bad!(a) {
        return a;
    }
    if bad!(b) {
        return -b;
    }
    bin(Op::Sub, a, b)
}
#[no_mangle]
pub extern "C" fn nv_fmul(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a * b;
    }
    for (p, q) in [(a, b), (b, a)] {
        if bad!(p) {
            if p.is_nan() {
                return p;
            }
            return match sgn(q) {
                0 => f64::NAN,
                s => p * s as f64,
            };
        }
    }
    bin(Op::Mul, a, b)
}
#[no_mangle]
pub extern "C" fn nv_fdiv(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a / b;
    }
    if bad!(a) {
        if a.is_nan() {
            return a;
        }
        return match sgn(b) {
            0 => a,
            s => a * s as f64,
        };
    }
    if bad!(b) {
        return if b.is_nan() { b } else { 0.0 };
    }
    if !boxed(b) && b == 0.0 {
        return match sgn(a) {
            0 => f64::NAN,
            s => s as f64 / b,
        };
    }
    if boxed(b) {
        let c = cx();
        let y = unbox(b);
        let n = c.t.n(y);
        if n.lo <= 0.0 && n.hi >= 0.0 {
            if c.opts.strict_div && c.decide(Rel::Eq, y) {
                if !boxed(a) {
                    return a / 0.0;
                }
                return match sgn(a) {
                    0 => f64::NAN,
                    s => s as f64 * f64::INFINITY,
                };
            }
            c.divs.insert(y);
        }
    }
    bin(Op::Div, a, b)
}
#[no_mangle]
pub extern "C" fn nv_frem(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a % b;
    }
    // a - b * trunc(a/b)
    let q = nv_fdiv(a, b);
    let t = nv_trunc(q);
    nv_fsub(a, nv_fmul(b, t))
}
#[no_mangle]
pub extern "C" fn nv_fneg(a: f64) -> f64 {
    if !boxed(a) {
        return -a;
    }
    un(Op::Neg, a)
}

// comparisons: r in {lt, le, eq}; symbolic values are (finite) reals
fn lt(a: f64, b: f64) -> Option<bool> {
    cmp(Rel::Lt, a, b)
}
fn le(a: f64, b: f64) -> Option<bool> {
    cmp(Rel::Le, a, b)
}
fn eq(a: f64, b: f64) -> Option<bool> {
    cmp(Rel::Eq, a, b)
}
/// None: unordered
fn cmp(rel: Rel, a: f64, b: f64) -> Option<bool> {
    for (p, first) in [(a, true), (b, false)] {
        if bad!(p) {
            if p.is_nan() {
                return None;
            }
            let pos = p > 0.0;
            return Some(match rel {
                Rel::Eq => false,
                _ => pos != first,
            });
        }
    }
    let c = cx();
    let (x, y) = (c.id_of(a), c.id_of(b));
    let d = c.t.sub(x, y);
    Some(c.decide(rel, d))
}
macro_rules! fcmp {
    ($name:ident, $nat:expr, $sym:expr) => {
        #[no_mangle]
        pub extern "C" fn $name(a: f64, b: f64) -> bool {
            if !boxed(a) && !boxed(b) {
                let f: fn(f64, f64) -> bool = $nat;
                return f(a, b);
            }
            let f: fn(f64, f64) -> bool = $sym;
            f(a, b)
        }
    };
}
fcmp!(nv_fcmp_oeq, |a, b| a == b, |a, b| eq(a, b).unwrap_or(false));
fcmp!(nv_fcmp_one, |a, b| a < b || a > b, |a, b| eq(a, b).map(|x| !x).unwrap_or(false));
fcmp!(nv_fcmp_olt, |a, b| a < b, |a, b| lt(a, b).unwrap_or(false));
fcmp!(nv_fcmp_ogt, |a, b| a > b, |a, b| lt(b, a).unwrap_or(false));
fcmp!(nv_fcmp_ole, |a, b| a <= b, |a, b| le(a, b).unwrap_or(false));
fcmp!(nv_fcmp_oge, |a, b| a >= b, |a, b| le(b, a).unwrap_or(false));
fcmp!(nv_fcmp_ord, |a, b| !a.is_nan() && !b.is_nan(), |a, b| (boxed(a) || !a.is_nan()) && (boxed(b) || !b.is_nan()));
fcmp!(nv_fcmp_uno, |a, b| a.is_nan() || b.is_nan(), |a, b| (!boxed(a) && a.is_nan()) || (!boxed(b) && b.is_nan()));
fcmp!(nv_fcmp_ueq, |a, b| !(a < b || a > b), |a, b| eq(a, b).unwrap_or(true));
fcmp!(nv_fcmp_une, |a, b| a != b, |a, b| eq(a, b).map(|x| !x).unwrap_or(true));
fcmp!(nv_fcmp_ult, |a, b| !(a >= b), |a, b| lt(a, b).unwrap_or(true));
fcmp!(nv_fcmp_ugt, |a, b| !(a <= b), |a, b| lt(b, a).unwrap_or(true));
fcmp!(nv_fcmp_ule, |a, b| !(a > b), |a, b| le(a, b).unwrap_or(true));
fcmp!(nv_fcmp_uge, |a, b| !(a < b), |a, b| le(b, a).unwrap_or(true));

macro_rules! un1 {
    ($name:ident, $nat:expr, $op:expr) => {
        #[no_mangle]
        pub extern "C" fn $name(a: f64) -> f64 {
            if !boxed(a) {
                let f: fn(f64) -> f64 = $nat;
                return f(a);
            }
            un($op, a)
        }
    };
}
un1!(nv_sqrt, |a| a.sqrt(), Op::Sqrt);
/// sine or cosine of a number: multiples of pi/2 (as the nearest doubles) count as exact
fn snap(x: f64, a: f64) -> f64 {
    if x.abs() < 1.3e-16 * a.abs().max(1.0) && a.abs() > 1.0 {
        0.0
    } else {
        x
    }
}
un1!(nv_sin, |a| snap(a.sin(), a), Op::Sin);
un1!(nv_cos, |a| snap(a.cos(), a), Op::Cos);
un1!(nv_tan, |a| a.tan(), Op::Tan);
un1!(nv_asin, |a| a.asin(), Op::Asin);
un1!(nv_acos, |a| a.acos(), Op::Acos);
un1!(nv_atan, |a| a.atan(), Op::Atan);
un1!(nv_sinh, |a| a.sinh(), Op::Sinh);
un1!(nv_cosh, |a| a.cosh(), Op::Cosh);
un1!(nv_tanh, |a| a.tanh(), Op::Tanh);
un1!(nv_asinh, |a| a.asinh(), Op::Asinh);
un1!(nv_acosh, |a| a.acosh(), Op::Acosh);
un1!(nv_atanh, |a| a.atanh(), Op::Atanh);
un1!(nv_exp, |a| a.exp(), Op::Exp);
un1!(nv_log, |a| a.ln(), Op::Ln);
un1!(nv_cbrt, |a| a.cbrt(), Op::Cbrt);
un1!(nv_floor, |a| a.floor(), Op::Floor);

#[no_mangle]
pub extern "C" fn nv_fabs(a: f64) -> f64 {
    if !boxed(a) {
        return a.abs();
    }
    let c = cx();
    let x = unbox(a);
    // use what the path already knows about the sign
    match c.known_sign(x) {
        Some(true) => return a,
        Some(false) => return nv_fneg(a),
        None => {}
    }
    un(Op::Abs, a)
}

impl crate::Cx {
    /// Some(true): >= 0, Some(false): <= 0
    pub fn known_sign(&mut self, x: Id) -> Option<bool> {
        let f = self.fact_of_pub(x);
        if f & 1 == 0 {
            Some(true)
        } else if f & 4 == 0 {
            Some(false)
        } else {
            None
        }
    }
}

#[no_mangle]
pub extern "C" fn nv_ceil(a: f64) -> f64 {
    if !boxed(a) {
        return a.ceil();
    }
    nv_fneg(nv_floor(nv_fneg(a)))
}
#[no_mangle]
pub extern "C" fn nv_trunc(a: f64) -> f64 {
    if !boxed(a) {
        return a.trunc();
    }
    if nv_fcmp_olt(a, 0.0) {
        nv_ceil(a)
    } else {
        nv_floor(a)
    }
}
#[no_mangle]
pub extern "C" fn nv_round(a: f64) -> f64 {
    if !boxed(a) {
        return a.round();
    }
    if nv_fcmp_olt(a, 0.0) {
        nv_fneg(nv_floor(nv_fadd(nv_fneg(a), 0.5)))
    } else {
        nv_floor(nv_fadd(a, 0.5))
    }
}
#[no_mangle]
pub extern "C" fn nv_rint(a: f64) -> f64 {
    if !boxed(a) {
        return a.round_ties_even();
    }
    nv_floor(nv_fadd(a, 0.5))
}
#[no_mangle]
pub extern "C" fn nv_nearbyint(a: f64) -> f64 {
    nv_rint(a)
}
#[no_mangle]
pub extern "C" fn nv_roundeven(a: f64) -> f64 {
    nv_rint(a)
}

macro_rules! unsup1 {
    ($name:ident, $nat:expr) => {
        #[no_mangle]
        pub extern "C" fn $name(a: f64) -> f64 {
            if boxed(a) {
                fatal(concat!("unsupported operation on symbolic value: ", stringify!($name)));
            }
            let f: fn(f64) -> f64 = $nat;
            f(a)
        }
    };
}
extern "C" {
    fn tgamma(x: f64) -> f64;
}
unsup1!(nv_tgamma, |a| unsafe { tgamma(a) });
unsup1!(nv_lgamma, |a| unsafe { tgamma(a).ln() });
#[no_mangle]
pub extern "C" fn nv_exp2(a: f64) -> f64 {
    if !boxed(a) {
        return a.exp2();
    }
    nv_exp(nv_fmul(a, std::f64::consts::LN_2))
}
#[no_mangle]
pub extern "C" fn nv_expm1(a: f64) -> f64 {
    if !boxed(a) {
        return a.exp_m1();
    }
    nv_fsub(nv_exp(a), 1.0)
}
#[no_mangle]
pub extern "C" fn nv_log1p(a: f64) -> f64 {
    if !boxed(a) {
        return a.ln_1p();
    }
    nv_log(nv_fadd(a, 1.0))
}
#[no_mangle]
pub extern "C" fn nv_log2(a: f64) -> f64 {
    if !boxed(a) {
        return a.log2();
    }
    nv_fdiv(nv_log(a), std::f64::consts::LN_2)
}
#[no_mangle]
pub extern "C" fn nv_log10(a: f64) -> f64 {
    if !boxed(a) {
        return a.log10();
    }
    nv_fdiv(nv_log(a), std::f64::consts::LN_10)
}
#[no_mangle]
pub extern "C" fn nv_atan2(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a.atan2(b);
    }
    bin(Op::Atan2, a, b)
}
#[no_mangle]
pub extern "C" fn nv_hypot(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a.hypot(b);
    }
    nv_sqrt(nv_fadd(nv_fmul(a, a), nv_fmul(b, b)))
}
#[no_mangle]
pub extern "C" fn nv_fmod(a: f64, b: f64) -> f64 {
    nv_frem(a, b)
}
#[no_mangle]
pub extern "C" fn nv_powi(a: f64, n: i32) -> f64 {
    if !boxed(a) {
        return a.powi(n);
    }
    let c = cx();
    let r = c.t.powi(unbox(a), n);
    c.wrap(r)
}
#[no_mangle]
pub extern "C" fn nv_pow(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a.powf(b);
    }
    if !boxed(b) {
        if b == b.trunc() && b.abs() < 64.0 {
            return nv_powi(a, b as i32);
        }
        let h = 2.0 * b;
        if h == h.trunc() && h.abs() < 64.0 {
            let s = nv_sqrt(a);
            return nv_powi(s, h as i32);
        }
    }
    bin(Op::Pow, a, b)
}
#[no_mangle]
pub extern "C" fn nv_fma(a: f64, b: f64, c: f64) -> f64 {
    if !boxed(a) && !boxed(b) && !boxed(c) {
        return a.mul_add(b, c);
    }
    nv_fadd(nv_fmul(a, b), c)
}
#[no_mangle]
pub extern "C" fn nv_fmuladd(a: f64, b: f64, c: f64) -> f64 {
    nv_fma(a, b, c)
}
#[no_mangle]
pub extern "C" fn nv_maxnum(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a.max(b);
    }
    if bad!(a) && a.is_nan() {
        return b;
    }
    if bad!(b) && b.is_nan() {
        return a;
    }
    if nv_fcmp_olt(a, b) {
        b
    } else {
        a
    }
}
#[no_mangle]
pub extern "C" fn nv_minnum(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a.min(b);
    }
    if bad!(a) && a.is_nan() {
        return b;
    }
    if bad!(b) && b.is_nan() {
        return a;
    }
    if nv_fcmp_olt(b, a) {
        b
    } else {
        a
    }
}
#[no_mangle]
pub extern "C" fn nv_maximumnum(a: f64, b: f64) -> f64 {
    nv_maxnum(a, b)
}
#[no_mangle]
pub extern "C" fn nv_minimumnum(a: f64, b: f64) -> f64 {
    nv_minnum(a, b)
}
#[no_mangle]
pub extern "C" fn nv_fmax(a: f64, b: f64) -> f64 {
    nv_maxnum(a, b)
}
#[no_mangle]
pub extern "C" fn nv_fmin(a: f64, b: f64) -> f64 {
    nv_minnum(a, b)
}
#[no_mangle]
pub extern "C" fn nv_maximum(a: f64, b: f64) -> f64 {
    nv_maxnum(a, b)
}
#[no_mangle]
pub extern "C" fn nv_minimum(a: f64, b: f64) -> f64 {
    nv_minnum(a, b)
}
#[no_mangle]
pub extern "C" fn nv_fdim(a: f64, b: f64) -> f64 {
    nv_maxnum(nv_fsub(a, b), 0.0)
}
#[no_mangle]
pub extern "C" fn nv_copysign(a: f64, b: f64) -> f64 {
    if !boxed(a) && !boxed(b) {
        return a.copysign(b);
    }
    let m = nv_fabs(a);
    // +0.0 and -0.0 are the same real: zero takes the positive sign
    if nv_is_sign_negative(b) {
        nv_fneg(m)
    } else {
        m
    }
}

// ---- functions of core that look at the bits
#[no_mangle]
pub extern "C" fn nv_is_sign_negative(a: f64) -> bool {
    if !boxed(a) {
        return a.is_sign_negative();
    }
    nv_fcmp_olt(a, 0.0)
}
#[no_mangle]
pub extern "C" fn nv_is_sign_positive(a: f64) -> bool {
    !nv_is_sign_negative(a)
}
#[no_mangle]
pub extern "C" fn nv_is_normal(a: f64) -> bool {
    if !boxed(a) {
        return a.is_normal();
    }
    !nv_fcmp_oeq(a, 0.0)
}
#[no_mangle]
pub extern "C" fn nv_is_subnormal(a: f64) -> bool {
    if !boxed(a) {
        return a.is_subnormal();
    }
    false
}
#[no_mangle]
pub extern "C" fn nv_classify(a: f64) -> i8 {
    // FpCategory: Nan 0, Infinite 1, Zero 2, Subnormal 3, Normal 4
    if !boxed(a) {
        return a.classify() as i8;
    }
    if nv_fcmp_oeq(a, 0.0) {
        2
    } else {
        4
    }
}
#[no_mangle]
pub extern "C" fn nv_total_cmp(a: f64, b: f64) -> i8 {
    if !boxed(a) && !boxed(b) {
        return a.total_cmp(&b) as i8;
    }
    for (p, first) in [(a, true), (b, false)] {
        if bad!(p) {
            let pos = p.is_sign_positive();
            return if pos == first { 1 } else { -1 };
        }
    }
    if nv_fcmp_olt(a, b) {
        -1
    } else if nv_fcmp_oeq(a, b) {
        0
    } else {
        1
    }
}
#[no_mangle]
pub extern "C" fn nv_to_bits(a: f64) -> u64 {
    if boxed(a) && !cx().allow_bits {
        fatal(&format!("bit pattern of a symbolic value requested\n{}", std::backtrace::Backtrace::force_capture()));
    }
    a.to_bits()
}
#[no_mangle]
pub extern "C" fn nv_raw_bits(a: f64) -> u64 {
    a.to_bits()
}
#[no_mangle]
pub extern "C" fn nv_boxed(a: f64) -> bool {
    boxed(a)
}
#[no_mangle]
pub extern "C" fn nv_fptrunc(a: f64) -> f32 {
    if boxed(a) {
        fatal("f64 -> f32 of a symbolic value");
    }
    a as f32
}

/// integer value of a symbolic real (truncation): enumerated within its interval
fn concretise(a: f64, lo: f64, hi: f64) -> f64 {
    let c = cx();
    let x = unbox(a);
    let n = c.t.n(x);
    let l = n.lo.max(lo);
    let h = n.hi.min(hi);
    if !(h - l <= 4096.0) {
        fatal(&format!("integer conversion of an unbounded symbolic value: {}\n{}", c.t.show(x, 6), std::backtrace::Backtrace::force_capture()));
    }
    let mut k = l.trunc();
    let end = h.trunc();
    while k < end {
        // trunc(x) == k  <=>  k<=x<k+1 for k>0 ; -1<x<1 for 0 ; k-1<x<=k for k<0
        let is = if k >= 0.0 { nv_fcmp_olt(a, k + 1.0) } else { nv_fcmp_ole(a, k) };
        if is {
            return k;
        }
        k += 1.0;
    }
    end
}
macro_rules! toint {
    ($n1:ident, $n2:ident, $t:ty) => {
        #[no_mangle]
        pub extern "C" fn $n1(a: f64) -> $t {
            if boxed(a) {
                return concretise(a, <$t>::MIN as f64, <$t>::MAX as f64) as $t;
            }
            a as $t
        }
        #[no_mangle]
        pub extern "C" fn $n2(a: f64) -> $t {
            $n1(a)
        }
    };
}
toint!(nv_fptosi_i8, nv_fptosi_sat_i8, i8);
toint!(nv_fptosi_i16, nv_fptosi_sat_i16, i16);
toint!(nv_fptosi_i32, nv_fptosi_sat_i32, i32);
toint!(nv_fptosi_i64, nv_fptosi_sat_i64, i64);
toint!(nv_fptoui_i8, nv_fptoui_sat_i8, u8);
toint!(nv_fptoui_i16, nv_fptoui_sat_i16, u16);
toint!(nv_fptoui_i32, nv_fptoui_sat_i32, u32);
toint!(nv_fptoui_i64, nv_fptoui_sat_i64, u64);
toint!(nv_fptosi_i128, nv_fptosi_sat_i128, i128);
toint!(nv_fptoui_i128, nv_fptoui_sat_i128, u128);

/// deterministic "randomness" for hash maps, so that paths can be re-executed
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) };
    }
    len as isize
}

#[no_mangle]
pub extern "C" fn nv_unsupported(p: *const u8, n: usize) -> ! {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    fatal(&String::from_utf8_lossy(s))
}

/// keep the symbols alive and give rust users a name
pub fn touch() -> f64 {
    let _ = mkbox(0);
    nv_fadd(0.0, 0.0)
}
