#!/usr/bin/env python3
"""Builds a property's harnesses against /repo's current source, executes them symbolically, replays what
the solver found on the natively compiled code, writes evidence/<id>.json and decides the exit code."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("SX_REPO", "/repo")
TGT = os.path.join(ROOT, "target")
VERSIONS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): ENV.pop(k, None)

class Broken(Exception): pass

def sh(cmd, cwd=None, env=None, what="", timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0: raise Broken(f"{what or cmd[0]} failed ({p.returncode}):\n{p.stdout[-6000:]}")
    return p.stdout

class Lock:
    def __init__(self, name):
        os.makedirs(TGT, exist_ok=True); self.p = os.path.join(TGT, name + ".lock")
    def __enter__(self): self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def build_symex():
    d = os.path.join(ROOT, "symex"); out = os.path.join(TGT, "symex")
    with Lock("symex"):
        sh(["cargo", "build", "--release", "--offline", "-q", "--manifest-path", os.path.join(d, "Cargo.toml"), "--target-dir", out], cwd=d, what="building symex")
    return os.path.join(out, "release", "symex")

def build_deps():
    d = os.path.join(ROOT, "harness", "deps"); out = os.path.join(TGT, "deps")
    with Lock("deps"):
        sh(["cargo", "build", "--release", "--offline", "-q", "--locked", "--manifest-path", os.path.join(d, "Cargo.toml"), "--target-dir", out], cwd=d, env=dict(ENV, RUSTFLAGS="-Cembed-bitcode=yes"), what="building serde/serde_json")
    dd = os.path.join(out, "release", "deps")
    def one(n):
        c = sorted(glob.glob(os.path.join(dd, f"lib{n}-*.rlib")), key=os.path.getmtime)
        if not c: raise Broken(f"no rlib for {n}")
        return c[-1]
    return dd, one("serde"), one("serde_json")

def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    return "\n".join(l for l in (re.sub(r"^\s*//.*", "", x) for x in t.split("\n")) if l.strip())

def draft_is_copy():
    """draft and 2026_07_28 differ in comments only"""
    g = os.path.join(REPO, "src/generated_schema")
    try:
        for f in ("mcp_schema.rs", "schema_utils.rs", "validators.rs"):
            if strip_comments(open(f"{g}/draft/{f}").read()) != strip_comments(open(f"{g}/2026_07_28/{f}").read()): return False
        return True
    except OSError: return False

RUSTC = ["rustc", "--edition", "2021", "-Copt-level=0", "-Cpanic=abort", "-Ccodegen-units=1", "-Cdebug-assertions=off", "-Awarnings"]

def repo_sources():
    r = []
    for dp, dn, fn in os.walk(os.path.join(REPO, "src")): r += [os.path.join(dp, f) for f in fn]
    return r

def build_version(ver, prop, source, deps):
    """rlib of the crate with this version's feature, then the harness library (IR + native .so)"""
    dd, serde, sj = deps
    h = file_hash(repo_sources(), ver + " ".join(RUSTC))
    rl = os.path.join(TGT, "rlib", f"{ver}-{h}")
    lib = os.path.join(rl, "librust_mcp_schema.rlib")
    with Lock("rlib-" + ver):
        if not os.path.exists(lib):
            for old in glob.glob(os.path.join(TGT, "rlib", ver + "-*")): shutil.rmtree(old, ignore_errors=True)
            tmp = rl + ".tmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            sh(RUSTC + ["--crate-type", "rlib", "--crate-name", "rust_mcp_schema", os.path.join(REPO, "src/rust-mcp-schema.rs"), "--cfg", 'feature="schema_utils"', "--cfg", f'feature="{ver}"', "-Cembed-bitcode=yes",
                "--extern", f"serde={serde}", "--extern", f"serde_json={sj}", "-L", f"dependency={dd}", "--out-dir", tmp], what=f"compiling the crate with feature {ver}")
            os.rename(tmp, rl)
    out = os.path.join(TGT, "h", f"{prop}-{ver}")
    with Lock(f"h-{prop}-{ver}"):
        os.makedirs(out, exist_ok=True)
        src = os.path.join(out, "lib.rs")
        key = file_hash(glob.glob(os.path.join(ROOT, "harness", "*.rs")), h + source)
        stamp = os.path.join(out, "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            if os.path.exists(stamp): os.remove(stamp)
            open(src, "w").write(source)
            sh(RUSTC + ["--crate-type", "cdylib", "--crate-name", "h", src, "-Clto=fat", "--emit=llvm-ir,link", "--extern", f"rust_mcp_schema={lib}", "--extern", f"serde={serde}", "--extern", f"serde_json={sj}", "-L", f"dependency={dd}", "--out-dir", out], what=f"compiling the {prop} harnesses for {ver}")
            open(stamp, "w").write(key)
    return os.path.join(out, "h.ll"), os.path.join(out, "libh.so")

def job(h, t): return h + "|" + ";".join(",".join(str(x) for x in i[2]) for i in t["inputs"])

def native(symex, so, jobs, tag):
    """runs recorded inputs through the natively compiled harness; one result dict per job"""
    if not jobs: return []
    jf, of = so + f".{tag}.jobs", so + f".{tag}.out"
    open(jf, "w").write("\n".join(jobs) + "\n")
    sh([symex, "native", so, jf, of], what="native replay", timeout=300)
    res = []
    for l in open(of, errors="replace").read().split("\n"):
        if l.startswith("J "): res.append(dict(obs=[], fail=[], dead=False, bad=None, end=None))
        elif l.startswith("O "): n, v = l[2:].rsplit(" ", 1); res[-1]["obs"].append([n, False, [int(v)]])
        elif l.startswith("B "): n, v = l[2:].rsplit(" ", 1); res[-1]["obs"].append([n, True, list(bytes.fromhex(v))])
        elif l.startswith("F "): res[-1]["fail"].append(l[2:])
        elif l.startswith("D "): res[-1]["dead"] = True
        elif l.startswith("X "): res[-1]["bad"] = l[2:]
        elif l.startswith("E "): res[-1]["end"] = l[2:]
    if len(res) != len(jobs): raise Broken("native replay lost jobs")
    return res

def show_inputs(t):
    o = []
    for n, asc, v in t["inputs"]:
        o.append([n, "".join(map(chr, v)) if asc else v[0]])
    return o

def run_check(prop, gen, tier, seed, level_note=None, versions=None, opts=None, bounds=None, assumptions=None, draft="auto"):
    """gen(version, tier) -> Rust source of the harness crate (or None when the property has nothing there)"""
    t0 = time.time(); opts = opts or {}
    versions = versions or VERSIONS
    if os.environ.get("SX_VERSIONS"): versions = [v for v in versions if v in os.environ["SX_VERSIONS"].split(",")]
    copy = draft_is_copy()
    todo = [v for v in versions if not (v == "draft" and copy and "2026_07_28" in versions)]
    with ThreadPoolExecutor(8) as ex:
        fs, fd = ex.submit(build_symex), ex.submit(build_deps)
        symex, deps = fs.result(), fd.result()
        srcs = {v: gen(v, tier) for v in todo}
        todo = [v for v in todo if srcs[v]]
        built = dict(zip(todo, ex.map(lambda v: build_version(v, prop, srcs[v], deps), todo)))
    t_build = time.time() - t0
    tot = dict(paths=0, infeasible=0, forks=0, instructions=0, queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, solver_ms=0.0)
    maxq = 0.0; per_version = {}; violations = []; problems = []; incomplete = []; stubs = {}; validated = 0; mismatches = []
    asserts = {}; samples = []; fn_total = 0; nh = 0; fsamples = []
    budget = opts.get("total", 400 if tier == "quick" else 7200)
    for v in todo:
        ll, so = built[v]
        out = os.path.join(os.path.dirname(ll), "out.json")
        left = max(20, budget - (time.time() - t0 - t_build))
        cmd = [symex, "run", ll, out, "--threads", "8", "--time", str(opts.get("time", 120 if tier == "quick" else 1800)), "--total", str(int(left)), "--samples", str(opts.get("samples", 2)), "--seed", str(seed), "--fuel", str(opts.get("fuel", 100_000_000))]
        sh(cmd, what=f"symbolic execution ({v})", timeout=left + 400)
        d = json.load(open(out))
        if not d["harnesses"]: raise Broken(f"no harness in {v}")
        jobs, meta = [], []
        pv = dict(harnesses=len(d["harnesses"]), functions_executed=d["functions_executed"], functions_of_crate=d["functions_of_crate"], ir_bytes=d["ir_bytes"], paths=0, instructions=0, queries=0, solver_ms=0.0, engine_wall_s=d["wall_s"])
        fn_total += d["functions_of_crate"]; nh += len(d["harnesses"])
        fsamples = fsamples or d["function_samples"][:4]
        for h in d["harnesses"]:
            for k in tot: tot[k] += h[k]
            maxq = max(maxq, h["max_query_ms"])
            for k in ("paths", "instructions", "queries", "solver_ms"): pv[k] += h[k]
            for k, n in h["stubs"].items(): stubs[k] = stubs.get(k, 0) + n
            for u in h["undecided"]: problems.append(f"{v}/{h['harness']}: {u[:500]}")
            if h["incomplete"]: incomplete.append(f"{v}/{h['harness']}")
            ev = 0
            for a, (n, syn, slv, bad) in h["asserts"].items():
                e = asserts.setdefault(re.sub(r"\[.*", "", a), [0, 0, 0, 0]); ev += n
                for i, x in enumerate((n, syn, slv, bad)): e[i] += x
            if ev == 0 and not h["incomplete"]: problems.append(f"{v}/{h['harness']}: vacuous, no assertion was evaluated")
            for t in h["violations"]: jobs.append(job(h["harness"], t)); meta.append(("V", h["harness"], t))
            for t in h["samples"]: jobs.append(job(h["harness"], t)); meta.append(("S", h["harness"], t))
        for (kind, h, t), r in zip(meta, native(symex, so, jobs, "run")):
            panicked = r["end"].startswith("signal")
            if r["bad"] or r["dead"]: mismatches.append(f"{v}/{h}: native run left the recorded path ({r['bad'] or 'assumption'})"); continue
            if kind == "S":
                if r["fail"] or panicked or r["obs"] != t["obs"]: mismatches.append(f"{v}/{h}: encoding and native run differ: fail={r['fail']} end={r['end']} obs={r['obs'][:3]} vs {t['obs'][:3]} inputs={show_inputs(t)}")
                else:
                    validated += 1
                    if len(samples) < 6 and t["inputs"]: samples.append(dict(version=v, harness=h, inputs=show_inputs(t)[:30]))
            else:
                want_panic = t["id"].startswith("panic:")
                if (want_panic and panicked) or (not want_panic and t["id"] in r["fail"]):
                    violations.append(dict(version=v, harness=h, id=t["id"], inputs=show_inputs(t), job=job(h, t), obs=t["obs"]))
                else: mismatches.append(f"{v}/{h}: counterexample for {t['id']} does not reproduce natively: {r} inputs={show_inputs(t)}")
        pv["solver_ms"] = round(pv["solver_ms"], 1); per_version[v] = pv
    # known findings
    kf = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p): kf = [k for k in json.load(open(p))["findings"] if k["property"] == prop]
    fresh, known = [], {}
    for x in violations:
        hit = None
        for i, k in enumerate(kf):
            if x["version"] in k["versions"] and re.fullmatch(k["harness"], x["harness"]) and re.fullmatch(k["id"], x["id"]): hit = i; break
        if hit is None: fresh.append(x)
        else: known.setdefault(hit, []).append(x)
    rdir = os.path.join(ROOT, "replay"); os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*.json")): os.remove(old)
    lines = []
    for i, x in enumerate(fresh):
        rp = os.path.join(rdir, f"{prop}-{i}.json")
        json.dump(dict(property=prop, **x, how=f"python3 {ROOT}/tools/check.py --replay {rp}"), open(rp, "w"), indent=1)
        if i < 20: lines.append(f"VIOLATION property={prop} replay={rp}  # {x['version']} {x['harness']}: {x['id']} with {str(x['inputs'])[:300]}")
    for i in sorted(known): print(f"KNOWN-FINDING: property={prop} {kf[i]['what']} ({', '.join(sorted({x['version'] for x in known[i]}))})")
    for i, k in enumerate(kf):
        if i not in known: print(f"note: known finding not observed in this run: {k['what']}")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=len(fresh),
        coverage=dict(states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated, samples=samples or [dict(note="no sample")],
            states_are="complete execution paths, each for all values of its symbolic inputs", transitions_are="LLVM IR instructions executed symbolically",
            harnesses=nh, functions_of_crate_executed=fn_total, function_samples=fsamples, infeasible_branches=tot["infeasible"], forks=tot["forks"],
            solver=dict(name="Z3 " + d["z3"], queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], answered_from_cache=tot["cache_hits"], time_ms=round(tot["solver_ms"], 1), longest_query_ms=round(maxq, 1)),
            assertions={k: dict(evaluated=n, closed_by_term_rewriting=s, decided_by_z3=q, violated=b) for k, (n, s, q, b) in sorted(asserts.items())},
            per_version=per_version, draft="covered by 2026_07_28 (sources identical apart from comments)" if copy and "draft" in versions and "draft" not in todo else ("own run" if "draft" in todo else "not applicable"),
            stubs=stubs, incomplete=incomplete[:50], incomplete_count=len(incomplete), undecided=problems[:50], encoder_mismatches=mismatches[:20], bounds=bounds or [], build_s=round(t_build, 1),
            known_findings=[kf[i]["what"] for i in sorted(known)], violating=[dict(version=x["version"], harness=x["harness"], id=x["id"]) for x in fresh[:20]]),
        assumptions=assumptions or [])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {nh} harnesses, {tot['paths']} paths, {tot['instructions']} instructions, {tot['queries']} queries ({tot['solver_ms'] / 1e3:.1f} s), {validated} traces replayed natively, {len(fresh)} violations, build {t_build:.0f} s, total {time.time() - t0:.0f} s")
    for l in lines: print(l)
    if fresh: return 1
    if mismatches or problems:
        print("ERROR: the check could not decide:"); [print("  " + x) for x in (mismatches + problems)[:20]]
        return 2
    if incomplete: print(f"note: time budget reached in {len(incomplete)} harnesses; they were explored only in part: {', '.join(incomplete[:8])}")
    return 0

def replay(path):
    x = json.load(open(path))
    import props
    symex, deps = build_symex(), build_deps()
    tier = os.environ.get("VERIF_TIER", "quick")
    ll, so = build_version(x["version"], x["property"], props.PROPS[x["property"]]["gen"](x["version"], tier), deps)
    r = native(symex, so, [x["job"]], "replay")[0]
    print(json.dumps(r, indent=1))
    ok = x["id"] in r["fail"] or (x["id"].startswith("panic:") and r["end"].startswith("signal"))
    print("reproduced" if ok else "not reproduced"); return 0 if ok else 1
