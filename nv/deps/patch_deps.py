#!/usr/bin/env python3
"""Copies the pinned dependency crates from the offline cargo registry and inserts, at named functions,
the branch that handles symbolic values (assumed contracts of the dependencies).  On ordinary values
the inserted branches are never taken, so the dependency behaves exactly as published.

usage: patch_deps.py OUTDIR"""
import glob, os, re, shutil, sys

OUT = sys.argv[1]
REG = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/"))[0]


def copy(name):
    dst = os.path.join(OUT, name.rsplit("-", 1)[0])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(REG, name), dst, ignore=shutil.ignore_patterns("tests", "benches", "examples", ".cargo-ok", "*.pca", "*.bsp"))
    t = os.path.join(dst, "Cargo.toml")
    s = open(t).read()
    # drop targets whose files are not copied
    s = re.sub(r"\[\[(test|bench|example|bin)\]\]\n(?:[^\[\n][^\n]*\n|\n)*", "", s)
    s = re.sub(r"\[dev-dependencies[^\]]*\]\n(?:[^\[\n][^\n]*\n|\n)*", "", s)
    s += "\n[workspace]\n"
    open(t, "w").write(s)
    return dst


class File:
    def __init__(self, path):
        self.path = path
        self.s = open(path).read()

    def sub(self, old, new, count=1):
        n = self.s.count(old)
        assert n >= 1, (self.path, old)
        assert count is None or n == count, (self.path, old, n)
        self.s = self.s.replace(old, new)

    def after(self, anchor, text, nth=0, count=None):
        """insert text after the (nth) occurrence of anchor"""
        idx = -1
        for _ in range(nth + 1):
            idx = self.s.index(anchor, idx + 1)
        p = idx + len(anchor)
        self.s = self.s[:p] + text + self.s[p:]

    def save(self):
        open(self.path, "w").write(self.s)


def hifitime():
    d = copy("hifitime-4.3.0") + "/src/"
    f = File(d + "duration/mod.rs")
    f.sub("#[derive(Clone, Copy, Debug, PartialOrd, Eq, Ord)]\n#[repr(C)]", "#[derive(Clone, Copy, Debug, Eq)]\n#[repr(C)]")
    f.sub(
        "impl PartialEq for Duration {",
        '''
/// Symbolic durations: `centuries` holds a sentinel and `nanoseconds` the bits of a symbolic number of seconds.
pub(crate) const NV_SENT: i16 = -31_999;
pub(crate) union NvBits {
    pub f: f64,
    pub u: u64,
}
pub(crate) const fn nv_is_box(x: f64) -> bool {
    let u = unsafe { NvBits { f: x }.u };
    (u & 0xFFFF_0000_0000_0000) == 0xFFFB_0000_0000_0000
}
extern "C" {
    pub(crate) fn nv_unsupported(p: *const u8, n: usize) -> !;
}
impl Duration {
    pub const fn nv_sym(&self) -> bool {
        self.centuries == NV_SENT
    }
    /// duration of `s` (possibly symbolic) seconds
    pub const fn nv_from_s(s: f64) -> Self {
        if nv_is_box(s) {
            Self { centuries: NV_SENT, nanoseconds: unsafe { NvBits { f: s }.u } }
        } else {
            Unit::Second.const_multiply(s)
        }
    }
    /// number of seconds (possibly symbolic)
    pub fn nv_s(&self) -> f64 {
        if self.nv_sym() {
            unsafe { NvBits { u: self.nanoseconds }.f }
        } else {
            self.to_seconds()
        }
    }
}
impl PartialOrd for Duration {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for Duration {
    fn cmp(&self, other: &Self) -> Ordering {
        if self.nv_sym() || other.nv_sym() {
            let (a, b) = (self.nv_s(), other.nv_s());
            return if a < b {
                Ordering::Less
            } else if a == b {
                Ordering::Equal
            } else {
                Ordering::Greater
            };
        }
        (self.centuries, self.nanoseconds).cmp(&(other.centuries, other.nanoseconds))
    }
    // the comparison operators ask a single question of a symbolic duration
    fn max(self, other: Self) -> Self {
        if self > other { self } else { other }
    }
    fn min(self, other: Self) -> Self {
        if self < other { self } else { other }
    }
}

impl PartialEq for Duration {''',
    )
    f.sub(
        "    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        Some(self.cmp(other))\n    }\n}\nimpl Ord for Duration",
        '''    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
    fn lt(&self, other: &Self) -> bool {
        if self.nv_sym() || other.nv_sym() {
            return self.nv_s() < other.nv_s();
        }
        self.cmp(other) == Ordering::Less
    }
    fn le(&self, other: &Self) -> bool {
        if self.nv_sym() || other.nv_sym() {
            return self.nv_s() <= other.nv_s();
        }
        self.cmp(other) != Ordering::Greater
    }
    fn gt(&self, other: &Self) -> bool {
        if self.nv_sym() || other.nv_sym() {
            return self.nv_s() > other.nv_s();
        }
        self.cmp(other) == Ordering::Greater
    }
    fn ge(&self, other: &Self) -> bool {
        if self.nv_sym() || other.nv_sym() {
            return self.nv_s() >= other.nv_s();
        }
        self.cmp(other) != Ordering::Less
    }
}
impl Ord for Duration''',
    )
    f.after("    fn eq(&self, other: &Self) -> bool {\n", "        if self.nv_sym() || other.nv_sym() {\n            return self.nv_s() == other.nv_s();\n        }\n")
    f.after("    fn hash<H: Hasher>(&self, hasher: &mut H) {\n", "        if self.nv_sym() {\n            return;\n        }\n")
    f.after("    const fn as_normalized(self) -> Self {\n", "        if self.nv_sym() {\n            return self;\n        }\n")
    uns = lambda m: '        if self.nv_sym() {\n            let m = b"hifitime: %s of a symbolic duration";\n            unsafe { nv_unsupported(m.as_ptr(), m.len()) }\n        }\n' % m
    f.after("    pub fn total_nanoseconds(&self) -> i128 {\n", uns("total_nanoseconds"))
    f.sub("    pub const fn to_parts(&self) -> (i16, u64) {\n", "    pub const fn to_parts(&self) -> (i16, u64) {\n")
    f.after("    pub fn to_seconds(&self) -> f64 {\n", "        if self.nv_sym() {\n            return self.nv_s();\n        }\n")
    f.after("    pub fn abs(&self) -> Self {\n", "        if self.nv_sym() {\n            return Self::nv_from_s(self.nv_s().abs());\n        }\n")
    f.sub("    pub const fn signum(&self) -> i8 {\n", "    pub fn signum(&self) -> i8 {\n        if self.nv_sym() {\n            return if self.nv_s() < 0.0 { -1 } else { 1 };\n        }\n")
    f.sub("    pub const fn is_negative(&self) -> bool {\n", "    pub fn is_negative(&self) -> bool {\n        if self.nv_sym() {\n            return self.nv_s() < 0.0;\n        }\n")
    f.after("    pub fn decompose(&self) -> (i8, u64, u64, u64, u64, u64, u64, u64) {\n", uns("decompose"))
    f.after("    pub fn floor(&self, duration: Self) -> Self {\n", "        if self.nv_sym() || duration.nv_sym() {\n            let (a, b) = (self.nv_s(), duration.nv_s());\n            return Self::nv_from_s(b * (a / b).trunc());\n        }\n")
    f.after("    pub fn ceil(&self, duration: Self) -> Self {\n", "        if self.nv_sym() || duration.nv_sym() {\n            return self.floor(duration) + duration.abs();\n        }\n")
    f.after("impl fmt::Display for Duration {\n    // Prints this duration with automatic selection of the units, i.e. everything that isn't zero is ignored\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n", '        if self.nv_sym() {\n            return write!(f, "<symbolic duration>");\n        }\n')
    f.after("impl fmt::LowerExp for Duration {\n    // Prints the duration with appropriate units\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n", '        if self.nv_sym() {\n            return write!(f, "<symbolic duration>");\n        }\n')
    f.save()

    f = File(d + "duration/ops.rs")
    f.after("            fn div(self, q: $type) -> Self::Output {\n", "                if self.nv_sym() || super::nv_is_box(q as f64) {\n                    return Duration::nv_from_s(self.nv_s() / (q as f64));\n                }\n")
    f.after("    fn mul(self, q: i64) -> Self::Output {\n", "        if self.nv_sym() {\n            return Duration::nv_from_s(self.nv_s() * (q as f64));\n        }\n")
    f.after("    fn mul(self, q: f64) -> Self::Output {\n", "        if self.nv_sym() || super::nv_is_box(q) {\n            return Duration::nv_from_s(self.nv_s() * q);\n        }\n")
    f.after("    fn add(mut self, mut rhs: Self) -> Duration {\n", "        if self.nv_sym() || rhs.nv_sym() {\n            return Duration::nv_from_s(self.nv_s() + rhs.nv_s());\n        }\n")
    f.after("    fn sub(mut self, mut rhs: Self) -> Self {\n", "        if self.nv_sym() || rhs.nv_sym() {\n            return Duration::nv_from_s(self.nv_s() - rhs.nv_s());\n        }\n")
    f.after("    fn neg(self) -> Self::Output {\n", "        if self.nv_sym() {\n            return Duration::nv_from_s(-self.nv_s());\n        }\n")
    f.save()

    f = File(d + "timeunits.rs")
    f.after("    pub(crate) const fn const_multiply(self, q: f64) -> Duration {\n", '''        if crate::duration::nv_is_box(q) {
            let k: f64 = match self {
                Unit::Century => 3_155_760_000.0,
                Unit::Week => 604_800.0,
                Unit::Day => 86_400.0,
                Unit::Hour => 3_600.0,
                Unit::Minute => 60.0,
                Unit::Second => 1.0,
                Unit::Millisecond => 1e-3,
                Unit::Microsecond => 1e-6,
                Unit::Nanosecond => 1e-9,
            };
            return Duration::nv_from_s(q * k);
        }
''')
    f.save()

    f = File(d + "epoch/ops.rs")
    f.after("impl PartialEq for Epoch {\n    fn eq(&self, other: &Self) -> bool {\n", '''        if self.duration.nv_sym() || other.duration.nv_sym() {
            return if self.time_scale == other.time_scale {
                self.duration == other.duration
            } else {
                self.to_tai_duration() == other.to_tai_duration()
            };
        }
''')
    f.sub("    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        Some(self.cmp(other))\n    }\n", '''    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
    fn lt(&self, other: &Self) -> bool {
        let (a, b) = Self::nv_pair(self, other);
        a < b
    }
    fn le(&self, other: &Self) -> bool {
        let (a, b) = Self::nv_pair(self, other);
        a <= b
    }
    fn gt(&self, other: &Self) -> bool {
        let (a, b) = Self::nv_pair(self, other);
        a > b
    }
    fn ge(&self, other: &Self) -> bool {
        let (a, b) = Self::nv_pair(self, other);
        a >= b
    }
''')
    f.sub("impl PartialOrd for Epoch {", '''impl Epoch {
    fn nv_pair(a: &Self, b: &Self) -> (Duration, Duration) {
        if (a.duration.nv_sym() || b.duration.nv_sym()) && a.time_scale == b.time_scale {
            (a.duration, b.duration)
        } else {
            (a.to_tai_duration(), b.to_tai_duration())
        }
    }
}

impl PartialOrd for Epoch {''')
    f.after("impl Ord for Epoch {\n    fn cmp(&self, other: &Self) -> Ordering {\n", '''        if self.duration.nv_sym() || other.duration.nv_sym() {
            let (a, b) = Self::nv_pair(self, other);
            return a.cmp(&b);
        }
''')
    f.save()

    f = File(d + "epoch/formatting.rs")
    s = f.s
    # every formatter prints a placeholder for a symbolic epoch
    s, n = re.subn(r"(impl fmt::\w+ for Epoch \{\n(?:\s*///?[^\n]*\n)*\s*fn fmt\(&self, f: &mut fmt::Formatter[^\)]*\) -> fmt::Result \{\n)", r'\1        if self.duration.nv_sym() {\n            return write!(f, "<symbolic epoch>");\n        }\n', s)
    assert n >= 6, n
    f.s = s
    f.save()


def anise():
    """Query hooks: a harness may install, for the duration of one symbolic path, an assumed contract for
    an almanac query (e.g. "some rotation", "some position").  With no hook installed the published code runs."""
    d = copy("anise-0.10.4") + "/src/"
    open(d + "nvhook.rs", "w").write(NVHOOK)
    f = File(d + "lib.rs")
    f.s += "\npub mod nvhook;\n"
    f.save()

    def hook(path, sig, body):
        f = File(d + path)
        i = f.s.index(sig)
        j = f.s.index("{\n", f.s.index("->", i)) + 2
        f.s = f.s[:j] + "        " + body + "\n" + f.s[j:]
        f.save()

    def q(name, args):
        return "if let Some(r) = crate::nvhook::get(|h| h.%s.clone()).and_then(|h| h(%s)) { return Ok(r); }" % (name, args)

    hook("almanac/transform.rs", "    pub fn transform(\n", q("transform", "target_frame, observer_frame, epoch"))
    hook("almanac/transform.rs", "    pub fn transform_to(\n", q("transform_to", "state, observer_frame"))
    hook("orientations/rotations.rs", "    pub fn rotate(\n", q("rotate", "from_frame, to_frame, epoch"))
    hook("ephemerides/translations.rs", "    pub fn translate(\n", q("translate", "target_frame, observer_frame, epoch"))
    f = File(d + "almanac/planetary.rs")
    i = f.s.index("    pub fn frame_info<")
    k = f.s.index("let uid = uid.into();\n", i) + len("let uid = uid.into();\n")
    f.s = f.s[:k] + "        " + q("frame_info", "uid") + "\n" + f.s[k:]
    f.save()
    hook("analysis/utils.rs", "pub fn brent_solver<F>(\n", q("brent", "&evaluator, start_epoch, end_epoch"))
    hook("almanac/eclipse.rs", "    pub fn line_of_sight_obstructed(\n", q("los", "observer, observed, obstructing_body"))
    hook("almanac/eclipse.rs", "    pub fn solar_eclipsing(\n", q("eclipse", "eclipsing_frame, observer"))
    hook("almanac/aer.rs", "    pub fn azimuth_elevation_range_sez(\n", q("aer", "rx, tx, obstructing_body, ab_corr.is_some()"))
    hook("almanac/aer.rs", "    pub fn azimuth_elevation_range_sez_from_location(\n", q("aer_loc", "rx, location.clone(), obstructing_body, ab_corr.is_some()"))
    hook("almanac/spk.rs", "    pub fn spk_domain(&self", q("spk_domain", "id"))
    hook("analysis/search.rs", "    pub fn report_visibility_arcs<", q("vis", "self, location_id, start_epoch, end_epoch, sample_rate, obstructing_body"))
    # the identifier of a local frame depends on the epoch: any identifier will do for a symbolic one
    hook("lib.rs", "    pub(crate) fn uuid_from_epoch(", "if epoch.duration.nv_sym() { return id; }")
    for el in ["ecc", "sma_km", "ta_deg", "aop_deg", "ea_deg", "inc_deg", "raan_deg"]:
        hook("astro/orbit.rs", "    pub fn %s(&self)" % el, q("elem", '*self, "%s"' % el))
    hook("astro/orbit.rs", "    pub fn at_epoch(&self, new_epoch: Epoch)", "if let Some(h) = crate::nvhook::get(|h| h.at_epoch.clone()) { return h(*self, new_epoch).ok_or(PhysicsError::Unreachable); }")


NVHOOK = '''//! Assumed contracts for almanac queries, installed per thread by a verification harness.
use crate::math::cartesian::CartesianState;
use crate::math::rotation::DCM;
use crate::astro::{AzElRange, Location, Occultation};
use crate::frames::{Frame, FrameUid};
use crate::prelude::Orbit;
use hifitime::Epoch;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Hooks {
    pub transform: Option<Rc<dyn Fn(Frame, Frame, Epoch) -> Option<CartesianState>>>,
    pub transform_to: Option<Rc<dyn Fn(CartesianState, Frame) -> Option<CartesianState>>>,
    pub rotate: Option<Rc<dyn Fn(Frame, Frame, Epoch) -> Option<DCM>>>,
    pub translate: Option<Rc<dyn Fn(Frame, Frame, Epoch) -> Option<CartesianState>>>,
    pub frame_info: Option<Rc<dyn Fn(FrameUid) -> Option<Frame>>>,
    pub los: Option<Rc<dyn Fn(Orbit, Orbit, Frame) -> Option<bool>>>,
    pub eclipse: Option<Rc<dyn Fn(Frame, Orbit) -> Option<Occultation>>>,
    pub spk_domain: Option<Rc<dyn Fn(i32) -> Option<(Epoch, Epoch)>>>,
    pub brent: Option<Rc<dyn Fn(&dyn Fn(Epoch) -> Result<f64, crate::analysis::AnalysisError>, Epoch, Epoch) -> Option<Epoch>>>,
    pub aer: Option<Rc<dyn Fn(Orbit, Orbit, Option<Frame>, bool) -> Option<AzElRange>>>,
    pub at_epoch: Option<Rc<dyn Fn(Orbit, Epoch) -> Option<Orbit>>>,
    pub elem: Option<Rc<dyn Fn(Orbit, &str) -> Option<f64>>>,
    pub vis: Option<Rc<dyn Fn(&crate::almanac::Almanac, i32, Epoch, Epoch, hifitime::Duration, Option<Frame>) -> Option<Vec<crate::analysis::event::VisibilityArc>>>>,
    pub aer_loc: Option<Rc<dyn Fn(Orbit, Location, Option<Frame>, bool) -> Option<AzElRange>>>,
}
thread_local! {
    static HOOKS: RefCell<Hooks> = RefCell::new(Hooks::default());
}
pub fn get<T>(f: impl Fn(&Hooks) -> Option<T>) -> Option<T> {
    HOOKS.with(|h| f(&h.borrow()))
}
pub fn install(f: impl FnOnce(&mut Hooks)) {
    HOOKS.with(|h| f(&mut h.borrow_mut()))
}
'''

os.makedirs(OUT, exist_ok=True)
hifitime()
anise()
