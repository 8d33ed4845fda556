//! nvw: rustc wrapper + LLVM-IR rewriter.
//!
//! Used as RUSTC_WRAPPER by the verification build.  Selected crates are compiled by the very
//! same rustc, from the very same source, but their object code is produced as LLVM bitcode.
//! Each bitcode member is disassembled and every *double precision floating point operation*
//! (arithmetic, comparison, libm/intrinsic call, float<->int and float<->bits conversion) is
//! replaced by a call to the `nv_*` runtime, which performs the native operation when all operands are
//! ordinary numbers and builds a symbolic term when one of them is symbolic.  Nothing else of the
//! code is changed: control flow, memory, integers, calls, generics are those rustc generated.
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

const LIBM1: &[&str] = &[
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2",
    "expm1", "log", "log2", "log10", "log1p", "cbrt", "floor", "ceil", "trunc", "round", "rint", "sqrt", "fabs",
    "tgamma", "lgamma", "nearbyint", "roundeven",
];
const LIBM2: &[&str] = &["atan2", "hypot", "fmod", "pow", "fdim", "fmin", "fmax", "copysign"];

fn tool(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("NV_LLVM_BIN").expect("NV_LLVM_BIN")).join(name)
}

fn die(msg: &str) -> ! {
    eprintln!("nvw: {msg}");
    exit(101)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 4 && args[1] == "--rewrite" {
        // stand-alone: nvw --rewrite in.ll out.ll
        rewrite_file(Path::new(&args[2]), Path::new(&args[3]));
        return;
    }
    let rustc = &args[1];
    let rest = &args[2..];
    let get = |flag: &str| -> Option<&String> {
        rest.iter().position(|a| a == flag).and_then(|p| rest.get(p + 1))
    };
    let crate_name = get("--crate-name").cloned().unwrap_or_default();
    let is_target = rest.iter().any(|a| a == "--target");
    let list = std::env::var("NV_CRATES").unwrap_or_default();
    let selected = is_target && list.split(',').any(|c| c == crate_name);
    let is_lib = rest
        .windows(2)
        .any(|w| w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "rlib"));
    if !(selected && is_lib) {
        let st = Command::new(rustc).args(rest).status().unwrap_or_else(|e| die(&e.to_string()));
        exit(st.code().unwrap_or(101));
    }
    let mut cmd = Command::new(rustc);
    cmd.args(rest);
    cmd.env("RUSTC_BOOTSTRAP", "1");
    cmd.args([
        "-C", "linker-plugin-lto", "-C", "opt-level=0", "-C", "debug-assertions=off", "-C", "overflow-checks=off",
        "-Z", "share-generics=no", "-C", "symbol-mangling-version=v0", "-C", "embed-bitcode=yes",
        "-C", "debuginfo=0", "--cap-lints", "allow",
    ]);
    let cgus = std::env::var("NV_CGUS").unwrap_or("16".into());
    cmd.args(["-C".to_string(), format!("codegen-units={cgus}")]);
    let st = cmd.status().unwrap_or_else(|e| die(&e.to_string()));
    if !st.success() {
        exit(st.code().unwrap_or(101));
    }
    // Locate the produced rlib
    let out_dir = get("--out-dir").cloned().unwrap_or_else(|| ".".into());
    let extra = rest
        .windows(2)
        .find_map(|w| if w[0] == "-C" { w[1].strip_prefix("extra-filename=") } else { None })
        .unwrap_or("")
        .to_string();
    let emits = rest.iter().find(|a| a.starts_with("--emit")).cloned().unwrap_or_default();
    if !emits.contains("link") {
        exit(0);
    }
    let rlib = Path::new(&out_dir).join(format!("lib{crate_name}{extra}.rlib"));
    if !rlib.exists() {
        die(&format!("rlib {} not found", rlib.display()));
    }
    process_rlib(&rlib, &crate_name);
}

fn run(cmd: &mut Command) {
    let out = cmd.output().unwrap_or_else(|e| die(&format!("{cmd:?}: {e}")));
    if !out.status.success() {
        die(&format!("{cmd:?} failed:\n{}", String::from_utf8_lossy(&out.stderr)));
    }
}

fn process_rlib(rlib: &Path, crate_name: &str) {
    let tmp = rlib.with_extension("nvtmp");
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&tmp).unwrap();
    run(Command::new(tool("llvm-ar")).arg("x").arg(rlib).current_dir(&tmp));
    let mut members = vec![];
    for e in std::fs::read_dir(&tmp).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x == "o").unwrap_or(false) {
            let b = std::fs::read(&p).unwrap();
            if b.starts_with(b"BC\xC0\xDE") || b.starts_with(&[0xDE, 0xC0, 0x17, 0x0B]) {
                members.push((b.len(), p));
            }
        }
    }
    members.sort();
    members.reverse();
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<PathBuf>> = Mutex::new(vec![]);
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= members.len() {
                    break;
                }
                let p = &members[i].1;
                let ll = p.with_extension("ll");
                let ll2 = p.with_extension("nv.ll");
                run(Command::new(tool("llvm-dis")).arg(p).arg("-o").arg(&ll));
                rewrite_file(&ll, &ll2);
                run(Command::new(tool("llc"))
                    .args(["-O0", "-filetype=obj", "-relocation-model=pic", "-function-sections", "-data-sections"])
                    .arg(&ll2)
                    .arg("-o")
                    .arg(p));
                if std::env::var("NV_KEEP_LL").is_err() {
                    let _ = std::fs::remove_file(&ll);
                    let _ = std::fs::remove_file(&ll2);
                }
                done.lock().unwrap().push(p.clone());
            });
        }
    });
    let files = done.into_inner().unwrap();
    if files.is_empty() {
        eprintln!("nvw: note: no bitcode member in {crate_name}");
    } else {
        let mut c = Command::new(tool("llvm-ar"));
        c.arg("r").arg(rlib.canonicalize().unwrap());
        for f in &files {
            c.arg(f.file_name().unwrap());
        }
        c.current_dir(&tmp);
        run(&mut c);
    }
    if std::env::var("NV_KEEP_LL").is_err() {
        let _ = std::fs::remove_dir_all(&tmp);
    }
}

/// Core functions whose bodies inspect the bit pattern of an f64: (mangled-name fragments, runtime function, signature)
/// The body is replaced by a call to the runtime (same meaning on ordinary numbers).
fn intercept(name: &str) -> Option<&'static str> {
    // name is the v0 symbol, e.g. _RNvMNtCsXXX_4core3f64d9is_normalCsYYY_...
    if !name.starts_with("_RNvM") || !name.contains("_4core") {
        return None;
    }
    for (frag, f) in [
        ("3f64d9is_normal", "nv_is_normal"),
        ("3f64d8classify", "nv_classify"),
        ("3f64d16is_sign_negative", "nv_is_sign_negative"),
        ("3f64d16is_sign_positive", "nv_is_sign_positive"),
        ("3f64d9total_cmp", "nv_total_cmp"),
        ("3f64d12is_subnormal", "nv_is_subnormal"),
    ] {
        if name.contains(frag) {
            return Some(f);
        }
    }
    None
}

fn rewrite_file(inp: &Path, out: &Path) {
    let f = std::fs::File::open(inp).unwrap_or_else(|e| die(&format!("{}: {e}", inp.display())));
    let mut rd = BufReader::with_capacity(1 << 20, f);
    let mut w = BufWriter::with_capacity(1 << 20, std::fs::File::create(out).unwrap());
    let mut decls: BTreeSet<String> = BTreeSet::new();
    let mut declared: BTreeSet<String> = BTreeSet::new();
    let mut line = String::new();
    let mut skip_body = false;
    loop {
        line.clear();
        if rd.read_line(&mut line).unwrap() == 0 {
            break;
        }
        if skip_body {
            if line.starts_with('}') {
                skip_body = false;
            }
            continue;
        }
        if line.starts_with("define ") {
            if let Some(at) = line.find('@') {
                let nm: String =
                    line[at + 1..].chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.' || *c == '$').collect();
                if let Some(f) = intercept(&nm) {
                    // keep header, synthesise body
                    let (ret, body) = synth(f, &line, &mut decls);
                    w.write_all(line.as_bytes()).unwrap();
                    w.write_all(body.as_bytes()).unwrap();
                    let _ = ret;
                    skip_body = true;
                    continue;
                }
            }
            w.write_all(line.as_bytes()).unwrap();
            continue;
        }
        if line.starts_with("declare ") {
            let l = rename_calls(&line, &mut declared);
            w.write_all(l.as_bytes()).unwrap();
            continue;
        }
        if !line.starts_with("  ") {
            w.write_all(line.as_bytes()).unwrap();
            continue;
        }
        match rewrite_inst(&line, &mut decls) {
            Some(l) => w.write_all(l.as_bytes()).unwrap(),
            None => {
                if line.contains("double") && line.contains('@') {
                    let l = rename_calls(&line, &mut declared);
                    w.write_all(l.as_bytes()).unwrap();
                } else {
                    w.write_all(line.as_bytes()).unwrap();
                }
            }
        }
    }
    for d in decls {
        writeln!(w, "{d}").unwrap();
    }
    w.flush().unwrap();
}

fn synth(f: &str, header: &str, decls: &mut BTreeSet<String>) -> (String, String) {
    // ret type: word right before '@'
    let at = header.find('@').unwrap();
    let ret = header[..at].split_whitespace().last().unwrap().to_string();
    let open = at + header[at..].find('(').unwrap();
    let close = header.rfind(')').unwrap_or(header.len());
    // crude parameter split; parameters for these functions are `double %self` or `ptr ... %self`
    let params = &header[open + 1..close];
    let mut args = vec![];
    let mut body = String::from("start:\n");
    let mut k = 0;
    let mut depth = 0;
    let mut cur = String::new();
    let mut parts = vec![];
    for c in params.chars() {
        match c {
            '(' => depth += 1,
            ')' => {
                if depth == 0 {
                    break;
                }
                depth -= 1
            }
            ',' if depth == 0 => {
                parts.push(cur.clone());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        parts.push(cur);
    }
    for p in parts {
        let p = p.trim().to_string();
        let ty = p.split_whitespace().next().unwrap().to_string();
        let nm = p.split_whitespace().last().unwrap().to_string();
        if ty == "double" {
            args.push(format!("double {nm}"));
        } else if ty == "ptr" {
            body.push_str(&format!("  %nvl{k} = load double, ptr {nm}, align 8\n"));
            args.push(format!("double %nvl{k}"));
        } else {
            die(&format!("intercept: unexpected signature {header}"));
        }
        k += 1;
    }
    // the runtime returns the same scalar type; i1 functions return i1
    let rt = match ret.as_str() {
        "i1" => "i1",
        "i8" => "i8",
        "i32" => "i32",
        "i64" => "i64",
        _ => die(&format!("intercept: unexpected return type in {header}")),
    };
    let tys = args.iter().map(|_| "double").collect::<Vec<_>>().join(", ");
    decls.insert(format!("declare {rt} @{f}({tys})"));
    body.push_str(&format!("  %nvr = call {rt} @{f}({})\n  ret {rt} %nvr\n}}\n", args.join(", ")));
    (ret, body)
}

/// `  %x = fadd double %a, %b` and friends
fn rewrite_inst(line: &str, decls: &mut BTreeSet<String>) -> Option<String> {
    let t = line.trim_start();
    if !t.starts_with('%') {
        return None;
    }
    let eq = t.find(" = ")?;
    let dst = &t[..eq];
    let rhs = t[eq + 3..].trim_end();
    let (rhs, tail) = match rhs.find(", !") {
        Some(p) => (&rhs[..p], &rhs[p..]),
        None => (rhs, ""),
    };
    let _ = tail;
    for op in ["fadd", "fsub", "fmul", "fdiv", "frem"] {
        if let Some(r) = rhs.strip_prefix(op) {
            let r = r.trim_start();
            if let Some(ops) = r.strip_prefix("double ") {
                let (a, b) = ops.split_once(", ")?;
                decls.insert(format!("declare double @nv_{op}(double, double)"));
                return Some(format!("  {dst} = call double @nv_{op}(double {a}, double {b})\n"));
            }
            if r.contains("x double>") {
                die(&format!("vector float op: {line}"));
            }
            return None;
        }
    }
    if let Some(r) = rhs.strip_prefix("fneg ") {
        if let Some(a) = r.strip_prefix("double ") {
            decls.insert("declare double @nv_fneg(double)".into());
            return Some(format!("  {dst} = call double @nv_fneg(double {a})\n"));
        }
        return None;
    }
    if let Some(r) = rhs.strip_prefix("fcmp ") {
        let (pred, r) = r.split_once(' ')?;
        if let Some(ops) = r.strip_prefix("double ") {
            let (a, b) = ops.split_once(", ")?;
            decls.insert(format!("declare i1 @nv_fcmp_{pred}(double, double)"));
            return Some(format!("  {dst} = call i1 @nv_fcmp_{pred}(double {a}, double {b})\n"));
        }
        return None;
    }
    if let Some(r) = rhs.strip_prefix("bitcast double ") {
        let (a, ty) = r.split_once(" to ")?;
        if ty == "i64" {
            decls.insert("declare i64 @nv_to_bits(double)".into());
            return Some(format!("  {dst} = call i64 @nv_to_bits(double {a})\n"));
        }
        return None;
    }
    for (op, f) in [("fptosi", "nv_fptosi"), ("fptoui", "nv_fptoui")] {
        if let Some(r) = rhs.strip_prefix(op) {
            if let Some(r) = r.trim_start().strip_prefix("double ") {
                let (a, ty) = r.split_once(" to ")?;
                decls.insert(format!("declare {ty} @{f}_{ty}(double)"));
                return Some(format!("  {dst} = call {ty} @{f}_{ty}(double {a})\n"));
            }
        }
    }
    if let Some(r) = rhs.strip_prefix("fptrunc double ") {
        let (a, ty) = r.split_once(" to ")?;
        if ty == "float" {
            decls.insert("declare float @nv_fptrunc(double)".into());
            return Some(format!("  {dst} = call float @nv_fptrunc(double {a})\n"));
        }
    }
    None
}

fn rename_calls(line: &str, declared: &mut BTreeSet<String>) -> String {
    let mut out = String::with_capacity(line.len() + 16);
    let mut i = 0;
    while let Some(p) = line[i..].find('@') {
        let s = i + p + 1;
        out.push_str(&line[i..s]);
        let nm: String =
            line[s..].chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.' || *c == '$').collect();
        let mut rep: Option<String> = None;
        if let Some(r) = nm.strip_prefix("llvm.") {
            if let Some(base) = r.strip_suffix(".f64") {
                let b = base.replace('.', "_");
                match b.as_str() {
                    "fabs" | "sqrt" | "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log2" | "log10" | "floor"
                    | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "pow" | "fma" | "fmuladd" | "minnum" | "maxnum"
                    | "minimum" | "maximum" | "minimumnum" | "maximumnum" | "copysign" | "asin" | "acos" | "atan"
                    | "sinh" | "cosh" | "tanh" | "atan2" => rep = Some(format!("nv_{b}")),
                    "fptoui_sat_i8" | "fptoui_sat_i16" | "fptoui_sat_i32" | "fptoui_sat_i64" | "fptosi_sat_i8"
                    | "fptosi_sat_i16" | "fptosi_sat_i32" | "fptosi_sat_i64" | "fptosi_sat_i128" | "fptoui_sat_i128" => {
                        rep = Some(format!("nv_{b}"))
                    }
                    _ => die(&format!("unhandled float intrinsic {nm}")),
                }
            } else if r.starts_with("powi.f64") {
                rep = Some("nv_powi".into());
            } else if r.starts_with("is.fpclass.f64") || r.contains("v2f64") || r.contains("v4f64") {
                die(&format!("unhandled float intrinsic {nm}"));
            }
        } else if LIBM1.contains(&nm.as_str()) || LIBM2.contains(&nm.as_str()) {
            rep = Some(format!("nv_{nm}"));
        }
        match rep {
            Some(r) => {
                if line.starts_with("declare") && !declared.insert(r.clone()) {
                    return String::new();
                }
                out.push_str(&r);
            }
            None => out.push_str(&nm),
        }
        i = s + nm.len();
    }
    out.push_str(&line[i..]);
    if line.starts_with("declare") && out != line {
        // strip attribute groups of intrinsics (speculatable, memory(none), ...): the runtime is stateful
        if let Some(h) = out.rfind(" #") {
            out.truncate(h);
            out.push('\n');
        }
        out = out.replace(" nocallback", "").replace("immarg", "");
    }
    out
}
