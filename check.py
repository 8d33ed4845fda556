#!/usr/bin/env python3
"""Runs every contract harness of one property against /repo's current tree.
usage: check.py <PROPERTY> [quick|thorough]
exit 0: every obligation discharged; exit 1: VIOLATION line(s); exit 2: error of the check itself."""
import concurrent.futures as cf, json, os, subprocess, sys, time

START = time.time()
V = os.path.dirname(os.path.abspath(__file__))
NVH = os.path.join(V, "build", "nvh")
TRUSTED = [
    "f64 arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and NaN propagation are not modelled; a NaN or infinity that appears as a literal result fails the obligation it reaches)",
    "rustc/LLVM front end (opt-level 0 MIR lowering) and the IR rewriter nv/nvw (f64 operations -> term constructors)",
    "nv runtime: term builder, ring normaliser (coefficients compared with relative tolerance 1e-11), path explorer, SMT encoding",
    "z3-new / cvc5 / z3 answers 'unsat'",
    "divisors and arguments of sqrt/acos/ln are assumed to be in their domain (number of distinct divisors is reported)",
    "matrixmultiply replaced by a textbook gemm (assumed contract: C = alpha*A*B + beta*C)",
    "hifitime durations/epochs carrying symbolic values behave as exact real seconds (nanosecond rounding and range saturation not modelled)",
]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    b = subprocess.run(["bash", os.path.join(V, "nv", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-4000:])
        print("ERROR: the harness does not build against the current tree")
        sys.exit(2)
    build_s = time.time() - t0
    hs = []
    for l in subprocess.run([NVH, "list"], capture_output=True, text=True, check=True).stdout.splitlines():
        p, n, f = l.split("\t")
        if p == prop:
            hs.append(n)
    if not hs:
        print("ERROR: no harness for", prop)
        sys.exit(2)
    budget = 600 - build_s if tier == "quick" else 3000

    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop]

    def run(n):
        out = os.path.join(V, "evidence", "replay", f"{prop}.{n}.json")
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.Popen([NVH, "run", n, out, str(seed), str(int(budget - 60))], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        end = time.time() + budget
        while True:
            try:
                err = p.communicate(timeout=2)[1]
                rc = p.returncode
                break
            except subprocess.TimeoutExpired:
                over = time.time() > end
                if over or found and time.time() > found[0] + 60:
                    p.kill()
                    p.communicate()
                    if not over:
                        return {"harness": n, "stopped": True}
                    rc, err = -1, "time limit of the check"
                    break
        if rc != 0 or not os.path.exists(out):
            return {"harness": n, "fatal": f"exit {rc}: " + err[-3000:]}
        d = json.load(open(out))
        os.remove(out)
        # a violation with its input is known: the other harnesses have a minute to report theirs
        if not any(k["harness"] == n for k in known) and any(f["witness"] for f in d["failures"]):
            found.append(time.time())
        return d

    found = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(run, hs))
    violations, knownhits, errors = [], [], []
    for d in res:
        n = d["harness"]
        if "stopped" in d:
            continue
        if "fatal" in d:
            violations.append(replay(prop, n, {"label": "obligations can be generated", "kind": "undecided", "detail": d["fatal"], "witness": None}, seed))
            continue
        for f in d["failures"]:
            k = [x for x in known if x["harness"] == n and x["label"] == f["label"]]
            if k:
                knownhits.append(k[0])
                continue
            violations.append(replay(prop, n, f, seed))
        if not d["complete"]:
            violations.append(replay(prop, n, {"label": "all paths explored", "kind": "undecided", "detail": d["why"], "witness": None}, seed))
        elif not d["failures"]:
            if sum(o["n"] for o in d["obligations"].values()) == 0 or d["paths"] == 0:
                errors.append(f"{n}: no obligations were generated")
            miss = [c for c, v in d["covers"].items() if not v]
            if miss:
                errors.append(f"{n}: precondition not known to be satisfiable at {miss}")
    rnd = {}
    if tier == "thorough" and not violations:
        for d in res:
            r = subprocess.run([NVH, "random", d["harness"], "300", str(seed)], capture_output=True, text=True, errors="replace")
            rnd[d["harness"]] = r.stdout.strip().splitlines()[-1:] if r.stdout else r.stderr[-200:]
    # evidence
    by, ob, dis, bob, bdis, divs, sms, calls, paths = {}, 0, 0, 0, 0, 0, 0, 0, 0
    funs, assumptions, samples = set(), set(), []
    for d in res:
        if "fatal" in d or "stopped" in d:
            continue
        bnd = d["bounded"] is not None
        for l, o in d["obligations"].items():
            bad = o.get("FAILED", 0)
            if bnd:
                bob += o["n"]
                bdis += o["n"] - bad
            else:
                ob += o["n"]
                dis += o["n"] - bad
            for k, v in o.items():
                if k not in ("n", "FAILED"):
                    by[k] = by.get(k, 0) + v
        divs += d["divisors_assumed_nonzero"]
        sms += d["solver_ms"]
        calls += d["solver_calls"]
        paths += d["paths"]
        funs |= set(d["functions"])
        assumptions |= set(d["assumptions"])
        samples.append({"harness": d["harness"], "paths": d["paths"], "pruned": d["pruned"], "wall_s": d["wall_s"], "bounded": d["bounded"], "obligations": {k: v["n"] for k, v in d["obligations"].items()}, "covers": d["covers"]})
    bounds = [f"{s['harness']}: {s['bounded']}" for s in samples if s["bounded"]]
    lvl = "proof"
    try:
        lvl = [c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"] if c["property"] == prop][0]["level"]
    except Exception:
        pass
    ev = {
        "property": prop,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": seed,
        "level": lvl,
        "coverage": {
            "obligations": ob,
            "discharged": dis,
            "bounded_obligations": bob,
            "bounded_discharged": bdis,
            "bounds": bounds,
            "checker_cmd": f"python3 check.py {prop} {tier}",
            "explanation": "contracts on the named functions of /repo, checked on the compiled IR of the current tree for all symbolic inputs; obligations counted per path",
            "discharged_by": by,
            "solver_ms": sms,
            "solver_calls": calls,
            "paths": paths,
            "divisors_assumed_nonzero": divs,
            "functions_under_contract": sorted(funs),
            "harnesses": samples,
            "concrete_random_runs": rnd,
            "trusted_base": TRUSTED + sorted(assumptions),
        },
        "assumptions": TRUSTED + sorted(assumptions) + ["bounded (not counted as proved): " + b for b in bounds],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in knownhits}:
        print(f"KNOWN-FINDING: property={prop} {json.loads(k)['what']}")
    if violations:
        for path, found in sorted(violations, key=lambda v: not v[1])[:10]:
            print(f"VIOLATION property={prop} replay={path}" + ("" if found else " no-failing-input-found"))
        sys.exit(1)
    if errors:
        print("ERROR:", "; ".join(errors))
        sys.exit(2)
    print(f"{prop}: {ob} obligations discharged ({bob} bounded) on {paths} paths, {len(hs)} harnesses, {ev['wall_s']} s")


def replay(prop, n, f, seed):
    """writes the replay file; runs the real code on the counterexample with ordinary numbers"""
    safe = "".join(c if c.isalnum() else "_" for c in f["label"])[:60]
    base = os.path.join(V, "evidence", "replay", f"{prop}.{n}.{safe}")
    out = base + ".txt"
    found, txt = False, ""

    def conc(tsv):
        r = subprocess.run([NVH, "concrete", n, tsv], capture_output=True, text=True, errors="replace", timeout=left(120))
        return r.returncode == 1, r.stdout + r.stderr

    left = lambda most: max(1.0, min(most, 800 - (time.time() - START)))
    try:
        if f["witness"]:
            tsv = base + ".tsv"
            open(tsv, "w").write("".join(f"{k}\t{v}\n" for k, v in f["witness"].items()))
            found, txt = conc(tsv)
            txt = f"inputs: {tsv}\nreplay: {NVH} concrete {n} {tsv}\n" + txt
        if not found:
            r = subprocess.run([NVH, "random", n, "200", str(seed)], capture_output=True, text=True, errors="replace", timeout=left(120))
            if r.returncode == 1:
                found = True
                txt += f"\nreplay: {NVH} random {n} 200 {seed}\n" + r.stdout
    except subprocess.TimeoutExpired:
        try:
            # the code under contract may not terminate: a single run with ordinary numbers takes milliseconds
            lim = left(60)
            subprocess.run([NVH, "random", n, "1", str(seed)], capture_output=True, timeout=lim)
        except subprocess.TimeoutExpired:
            if lim > 30:
                found = True
                txt += f"\nreplay: {NVH} random {n} 1 {seed}\none run with ordinary numbers does not terminate within {lim:.0f} s\n"
    open(out, "w").write(
        f"property {prop}\nharness {n}\nfailed obligation: {f['label']}\nkind: {f['kind']}\n\n{f['detail']}\n\n" + (txt if found else "no failing input found\n" + txt)
    )
    return out, found


main()
