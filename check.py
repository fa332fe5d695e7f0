#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution.

Builds the executor, the whole-program LLVM IR of the property's harness binary (std, /repo's
current source and the harness) and the same harness natively; runs every harness function
symbolically; replays each counterexample, and a sample of the completed paths, natively
against the real code; writes evidence/<id>.json.
exit 0 held on everything explored (INCOMPLETE lines name what was not) / 1 violation / 2 no verdict."""
import json, os, subprocess, sys, tempfile, time, shutil, hashlib, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
REPO = "/repo"
sys.path.insert(0, HERE)
from props import PROPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def die(msg, code=2):
    print("NO-VERDICT: " + msg, flush=True); sys.exit(code)

def tree_digest():
    """content of /repo as checked (tracked and untracked, without ignored files)"""
    fs = sh(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard"]).stdout.split("\n")
    h = hashlib.sha256()
    for f in sorted(x for x in fs if x.endswith((".rs", ".toml"))):
        try: h.update(f.encode() + b"\0" + open(os.path.join(REPO, f), "rb").read())
        except OSError: pass
    return h.hexdigest()[:16]

def build_engine():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, "sx"))
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "sx"), env=env)
    if r.returncode: die("executor does not build:\n" + r.stderr[-3000:])
    return os.path.join(WORK, "sx", "release", "sx")

def build_ir(p):
    r = sh(["bash", os.path.join(HERE, "harness", "ir.sh"), p["bin"], p.get("crate", os.path.join(HERE, "harness"))], env=dict(os.environ, SX_WORK=WORK, SX_CFG=p.get("cfg", "")))
    if r.returncode: return None, r.stderr[-3000:]
    ll = [l for l in r.stdout.split("\n") if l.endswith(".ll")]
    return (ll[-1], "") if ll else (None, "no IR produced")

def build_native(p):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, "native"), RUSTFLAGS="--cfg rustix_use_libc" + (" --cfg " + p["cfg"] if p.get("cfg") else ""))
    r = sh(["cargo", "build", "--offline", "-q", "--bin", p["bin"]], cwd=p.get("crate", os.path.join(HERE, "harness")), env=env)
    if r.returncode: return None, r.stderr[-3000:]
    return os.path.join(WORK, "native", "debug", p["bin"]), ""

def build_shim():
    out = os.path.join(WORK, "shim.so")
    r = sh(["gcc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(HERE, "harness", "shim.c"), "-ldl"])
    return out if r.returncode == 0 else None

def replay(native, shim, harness, inputs, keep=None):
    """runs the native harness on recorded inputs; returns (exit code, output)"""
    d = tempfile.mkdtemp(prefix="sxr.")
    try:
        f = keep or os.path.join(d, "inputs.txt")
        with open(f, "w") as o:
            for n, h in inputs: o.write(n + " " + h + "\n")
        s = os.path.join(d, "scratch"); os.mkdir(s)
        env = dict(os.environ, RUST_BACKTRACE="0", RUST_LOG="off", TMPDIR=s)
        if shim: env["LD_PRELOAD"] = shim
        cmd = "ulimit -v 12000000; exec \"$@\""
        try: r = subprocess.run(["bash", "-c", cmd, "-", native, harness, f, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60, cwd=s)
        except subprocess.TimeoutExpired: return 124, "timeout (60 s)"
        return r.returncode, r.stdout.decode("utf8", "replace")
    finally: shutil.rmtree(d, ignore_errors=True)

def run_one(sx, ll, h, fix, tier, seed, solver=None):
    out = os.path.join(WORK, "out", h["name"] + ("." + fix if fix else "") + ".json"); os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out): os.remove(out)
    t = h.get("secs", 240) if tier == "quick" else h.get("thorough_secs", 3000)
    cmd = [sx, "--ir", ll, "--entry", h["name"], "--out", out, "--max-secs", str(t), "--query-ms", str(h.get("query_ms", 60000)), "--witnesses", str(h.get("witnesses", 10)), "--seed", str(seed)]
    if fix: cmd += ["--fix", fix]
    try: r = sh(["bash", "-c", "ulimit -v 24000000; exec \"$@\"", "-"] + cmd, timeout=t + 40)
    except subprocess.TimeoutExpired: return {"entry": h["name"], "fix": fix, "crashed": "executor stopped after %d s" % (t + 40)}
    try: d = json.load(open(out))
    except Exception: return {"entry": h["name"], "fix": fix, "crashed": "executor exit %d: %s" % (r.returncode, r.stderr[-400:])}
    d["fix"] = fix
    return d

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    p = PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    hs = [h for h in p["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    only = os.environ.get("SX_ONLY")
    if only: hs = [h for h in hs if h["name"] in only.split(",")]
    if p.get("prepare"): p["prepare"](WORK, HERE)
    with cf.ThreadPoolExecutor(4) as ex:
        fe, fi, fn, fs = ex.submit(build_engine), ex.submit(build_ir, p), ex.submit(build_native, p), ex.submit(build_shim)
        (ll, e1), (native, e2), sx, shim = fi.result(), fn.result(), fe.result(), fs.result()
    if not ll: die("the harness does not compile against /repo:\n" + e1)
    if not native: die("the native harness does not compile against /repo:\n" + e2)
    tb = time.time() - t0
    jobs = [(h, f) for h in hs for f in (h.get("shards") or [""])]
    jobs.sort(key=lambda j: -j[0].get("cost", 1))
    res = []
    with cf.ThreadPoolExecutor(8) as ex:
        for h, r in zip([j[0] for j in jobs], ex.map(lambda j: run_one(sx, ll, j[0], j[1], tier, seed), jobs)): res.append((h, r))
    problems, viols, known, wit_ok, wit_bad = [], [], [], 0, []
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    tot = dict(paths=0, infeasible=0, forks=0, instructions=0, asserts=0, asserts_by_rewriting=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, symbolic_bytes=0)
    funcs = set(); covers = {}
    for h, r in res:
        if "crashed" in r: problems.append("%s: %s" % (r["entry"], r["crashed"])); continue
        for k in tot: tot[k] += r[k]
        funcs |= set(r["functions"]); covers.setdefault(h["name"], set()).update(r["covers"])
        for k, n in r["problems"].items(): problems.append("%s: %s (%d)" % (r["entry"], k, n))
        for k, n in r["bounded"].items():
            if k not in h.get("bounds_ok", []): problems.append("%s: exploration cut at bound %s (%d)" % (r["entry"], k, n))
        for i, v in enumerate(r["violations"]):
            f = os.path.join(rdir, "%s-%s-%d.txt" % (pid, h["name"] + (("." + r["fix"]) if r["fix"] else ""), i))
            rc, out = replay(native, shim, h["name"], v["inputs"], keep=f)
            with open(f, "a") as o:
                o.write("# property %s harness %s\n# %s: %s\n# native exit %d\n" % (pid, h["name"], v["kind"], v["msg"].replace("\n", " "), rc))
                o.write("# stack " + " < ".join(v["stack"][:6]) + "\n")
                for l in out.strip().split("\n")[:12]: o.write("# | " + l + "\n")
            rep = rc not in (0, 77, 78, 79, 80)
            m = [k for k in kf if k["property"] == pid and k["harness"] == h["name"] and k["kind"] == v["kind"] and k["msg"] in v["msg"]]
            if not rep: problems.append("%s: counterexample '%s' does not reproduce natively (exit %d), %s" % (h["name"], v["msg"], rc, f))
            elif m: known.append((m[0], f))
            else: viols.append((h, v, f, rc, out))
        if not r["violations"]:
            for w in r["witnesses"]:
                rc, out = replay(native, shim, h["name"], w)
                if rc == 0: wit_ok += 1
                else:
                    wit_bad.append((h, rc, w, out[-300:]))
    # a completed path whose assertion fails when the real code runs it natively is a violation as well
    for h, rc, w, out in wit_bad:
        if rc in (77, 78, 79, 80): problems.append("%s: native run of a completed path does not follow it (exit %d)" % (h["name"], rc)); continue
        f = os.path.join(rdir, "%s-%s-native-%d.txt" % (pid, h["name"], len(viols)))
        with open(f, "w") as o:
            for n, x in w: o.write(n + " " + x + "\n")
            o.write("# property %s harness %s\n# native run, exit %d\n# %s\n" % (pid, h["name"], rc, out.replace("\n", "\n# ")))
        viols.append((h, {"kind": "native", "msg": out.strip().replace("\n", " | ")}, f, rc, out))
    if not viols:
        for h in hs:
            for c in h.get("covers", []):
                if c not in covers.get(h["name"], set()): problems.append("%s: case '%s' was never reached" % (h["name"], c))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["instructions"], "traces_validated_against_impl": wit_ok + len(viols) + len(known),
                       "samples": [json.dumps({"harness": h["name"], "inputs": r["witnesses"][0]})[:600] for h, r in res if r.get("witnesses")][:8] or ["none"],
                       "functions_encoded": sorted(funcs), "bounds": p["bounds"], "outside": p.get("outside", ""),
                       "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2),
                       "assertions": tot["asserts"], "assertions_closed_by_rewriting": tot["asserts_by_rewriting"], "forks": tot["forks"], "symbolic_bytes": tot["symbolic_bytes"],
                       "harnesses": [{"name": h["name"], "shard": r.get("fix", ""), "paths": r.get("paths"), "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "covers": r.get("covers")} for h, r in res],
                       "repo_tree": tree_digest(), "build_s": round(tb, 1)},
          "assumptions": p.get("assumptions", []) + ["LLVM IR of rustc nightly (riscv64, panic=abort, overflow checks on) has the meaning of the executor's interpreter; a sample of paths is re-run natively", "operating-system calls behave as the executor's in-memory file system", "z3 answers correctly"],
          "violations": len(viols), "wall_s": round(time.time() - t0, 1)}
    if problems: ev["coverage"]["problems"] = problems[:40]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    seen = set()
    for k, f in known:
        if k["id"] not in seen: seen.add(k["id"]); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d harness runs, %d paths, %d instructions, %d assertions (%d by rewriting), %d queries %.1fs solver, %d native validations, build %.0fs, total %.0fs" % (pid, tier, len(res), tot["paths"], tot["instructions"], tot["asserts"], tot["asserts_by_rewriting"], tot["queries"], tot["solver_s"], wit_ok, tb, time.time() - t0))
    for q in problems[:20]: print("INCOMPLETE: " + q)
    for h, v, f, rc, out in viols[:6]:
        print("  %s: %s: %s (native exit %d)" % (h["name"], v["kind"], v["msg"], rc))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    sys.stdout.flush()
    if viols: sys.exit(1)
    # held on everything explored; what was not explored is listed above and in the evidence
    if tot["paths"] == 0 or (problems and os.environ.get("SX_STRICT")): sys.exit(2)
    sys.exit(0)
main()
