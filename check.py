#!/usr/bin/env python3
"""Decide one property: python3 check.py Cxx [--tier quick|thorough]

Rebuilds everything from /repo's working tree, runs the symbolic executor on
every registered (harness entry, configuration) instance of the property,
replays counterexamples and sample paths natively, writes evidence/<id>.json.
exit 0 held / 1 violated (VIOLATION line) / 2 no answer."""
import sys, os, json, subprocess, time, shutil, hashlib, re, threading, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks import CHECKS, BUILDS, COMMON_ASSUMPTIONS
WORK = os.path.join(ROOT, ".work")
REPO = "/repo"
EV = os.path.join(ROOT, "evidence")
NCPU = os.cpu_count() or 4
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
HOSTONLY = re.compile(r"^(syn|quote|proc_macro2?|serde_derive|thiserror_impl|virtue|bincode_derive|paste|autocfg|unicode_ident|build_script|num_traits_build|rustversion|derive_|convert_case|semver|rustc_version|heck|version_check|cc|find_msvc|shlex|replay)")

class NoAnswer(Exception): pass

def sh(cmd, env=ENV, cwd=ROOT, what=""):
    r = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True)
    if r.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what or cmd[0], (r.stderr or r.stdout)[-4000:]))
    return r.stdout

def src_hash():
    h = hashlib.sha256()
    for base, pats in ((REPO, ("src", "Cargo.toml", "build.rs")), (ROOT, ("harness", "models"))):
        for p in pats:
            full = os.path.join(base, p)
            fs = [full] if os.path.isfile(full) else sorted(os.path.join(d, f) for d, ds, fl in os.walk(full) for f in fl if "/target" not in d)
            for f in fs:
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build_engine():
    sh(["cargo", "build", "--release", "--quiet"], env=dict(ENV, CARGO_TARGET_DIR=WORK + "/engine"), cwd=ROOT + "/engine", what="engine build")

def build_std():
    d = WORK + "/std"
    os.makedirs(d, exist_ok=True)
    sysroot = sh(["rustc", "--print", "sysroot"]).strip()
    stamp = sh(["rustc", "-vV"])
    if os.path.exists(d + "/stamp") and open(d + "/stamp").read() == stamp: return
    lib = sysroot + "/lib/rustlib/x86_64-unknown-linux-gnu/lib"
    bin_ = sysroot + "/lib/rustlib/x86_64-unknown-linux-gnu/bin"
    def one(n):
        r = [f for f in os.listdir(lib) if re.match(r"lib%s-[0-9a-f]+\.rlib$" % n, f)][0]
        t = d + "/x_" + n
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        sh([bin_ + "/llvm-ar", "x", lib + "/" + r], cwd=t)
        objs = sorted(f for f in os.listdir(t) if f.endswith(".o"))
        outs = []
        for i, o in enumerate(objs):
            bc = t + "/%d.bc" % i
            subprocess.run([bin_ + "/llvm-objcopy", "--dump-section=.llvmbc=" + bc, o, "/dev/null"], cwd=t, capture_output=True)
            if os.path.exists(bc) and os.path.getsize(bc) > 0:
                ll = d + "/%s%s.ll" % (n, "" if not outs else str(i))
                sh([bin_ + "/llvm-dis", bc, "-o", ll]); outs.append(ll)
        shutil.rmtree(t, ignore_errors=True)
        if not outs: raise NoAnswer("no bitcode in " + r)
    with cf.ThreadPoolExecutor(3) as ex: list(ex.map(one, ["core", "alloc", "std"]))
    open(d + "/stamp", "w").write(stamp)

def build_harness(name):
    feats = BUILDS[name]
    t = WORK + "/h_" + name
    os.makedirs(t, exist_ok=True)
    hs = src_hash()
    st = t + "/stamp"
    env = dict(ENV, CARGO_TARGET_DIR=t, RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp")
    hd = ROOT + "/harness"
    if os.path.exists(st) and open(st).read() != hs:
        os.remove(st)
        subprocess.run(["cargo", "clean", "--release", "-p", "globalsearch", "-p", "harness"], cwd=hd, env=env, capture_output=True)
    out = sh(["cargo", "build", "--release", "--message-format=json", "--features", feats], env=env, cwd=hd, what="harness build (%s)" % name)
    open(st, "w").write(hs)
    lls = []
    for l in out.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get("reason") != "compiler-artifact" or "proc-macro" in j["target"]["kind"] or "custom-build" in j["target"]["kind"]: continue
        for f in j["filenames"]:
            m = re.match(r".*/lib([^/]+)\.r(lib|meta)$", f)
            if m and f.endswith(".rlib"):
                p = t + "/release/deps/" + m.group(1) + ".ll"
                if not re.search(r"-[0-9a-f]{16}$", m.group(1)):
                    g = [x for x in os.listdir(t + "/release/deps") if re.match(re.escape(m.group(1)) + r"-[0-9a-f]{16}\.ll$", x)]
                    p = max((t + "/release/deps/" + x for x in g), key=os.path.getmtime, default=p)
                if not HOSTONLY.match(m.group(1)) and os.path.exists(p): lls.append(p)
    return lls, t + "/release/replay"

def replay(binp, entry, cfg, vals, path):
    with open(path, "w") as f:
        for v in vals: f.write("%s %s %s\n" % (v["kind"], v["bits"], v["tag"]))
    try: r = subprocess.run([binp, entry, str(cfg), path], capture_output=True, text=True, timeout=60, errors="replace")
    except subprocess.TimeoutExpired: return 99, "timeout"
    return r.returncode, r.stdout

def native_log(out):
    l = []
    for x in out.splitlines():
        if x.startswith("LOG "):
            _, v, tag = (x.split(" ", 2) + [""])[:3]
            l.append([tag, v])
    return l

def main():
    if sys.argv[1] == "--setup":
        os.makedirs(WORK, exist_ok=True)
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(build_engine), ex.submit(build_std)] + [ex.submit(build_harness, b) for b in BUILDS]: f.result()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = CHECKS[prop]
    os.makedirs(WORK, exist_ok=True); os.makedirs(EV, exist_ok=True)
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    else: only = None
    inst = [i for i in c["instances"] if tier == "thorough" or not i.get("thorough")]
    if only: inst = [i for i in inst if "%s:%s" % (i["entry"], i["cfg"]) == only or i["entry"] == only]
    builds = sorted({i.get("build", "full") for i in inst})
    lls, bins = {}, {}
    import fcntl
    lock = open(WORK + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    with cf.ThreadPoolExecutor(8) as ex:
        fe, fs = ex.submit(build_engine), ex.submit(build_std)
        fh = {b: ex.submit(build_harness, b) for b in builds}
        for b in builds: lls[b], bins[b] = fh[b].result()
        fe.result(); fs.result()
    fcntl.flock(lock, fcntl.LOCK_UN)
    t_build = time.time() - t0
    stds = [WORK + "/std/" + f for f in sorted(os.listdir(WORK + "/std")) if f.endswith(".ll")]
    run_dir = WORK + "/run_" + prop
    shutil.rmtree(run_dir, ignore_errors=True); os.makedirs(run_dir)
    eng = WORK + "/engine/release/engine"
    def run(i):
        b = i.get("build", "full")
        tag = "%s_%s_%s" % (i["entry"], i["cfg"], b)
        o = run_dir + "/" + tag + ".json"
        budget = i.get("time", 150) if tier == "quick" else i.get("thorough_time", max(i.get("time", 150) * 6, 900))
        cmd = [eng] + lls[b] + stds + ["--entry", i["entry"], "--arg", str(i["cfg"]), "--out", o, "--time", str(budget),
               "--samples", str(i.get("samples", 4)), "--seed", str(seed), "--max-violations", str(i.get("maxviol", 1)), "--solver-ms", str(i.get("solver_ms", 20000) if tier == "quick" else 120000), "--crosscheck", str(i.get("crosscheck", 400))]
        try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 120)
        except subprocess.TimeoutExpired: return i, None, "engine timeout"
        if r.returncode not in (0, 1) or not os.path.exists(o): return i, None, "engine: " + r.stderr[-800:]
        j = json.load(open(o))
        j["_b"] = b; j["_tag"] = tag
        return i, j, ""
    inst.sort(key=lambda i: -i.get("weight", i.get("time", 150)))
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for x in ex.map(run, inst): results.append(x)
    known = [l.split("\t") for l in open(ROOT + "/known_findings.txt").read().splitlines() if l.startswith("known:")] if os.path.exists(ROOT + "/known_findings.txt") else []
    problems, viols, knownhits, validated, samples, per = [], [], [], 0, [], []
    funcs = set()
    for i, j, err in results:
        if j is None: problems.append("%s(%s): %s" % (i["entry"], i["cfg"], err)); continue
        b = j["_b"]
        for k, v in enumerate(j["violations"]):
            p = EV + "/replay_%s_%s_%d.values" % (prop, j["_tag"], k)
            rc, out = replay(bins[b], i["entry"], i["cfg"], v["values"], p)
            if rc == 1 or (rc < 0):
                kf = [x for x in known if len(x) >= 4 and x[1] == prop and x[2] == "%s:%s" % (i["entry"], i["cfg"]) and x[3] in v["msg"]]
                if kf: knownhits.append((v["msg"], p)); continue
                with open(p.replace(".values", ".txt"), "w") as f:
                    f.write("property %s\nharness %s cfg %s (build %s)\nviolation: %s\nreplay: %s %s %s %s\nsymbolic inputs:\n" % (prop, i["entry"], i["cfg"], b, v["msg"], bins[b], i["entry"], i["cfg"], p))
                    for x in v["values"]: f.write("  %s = %s\n" % (x["tag"], x["shown"]))
                    f.write("native replay output:\n" + out)
                viols.append((v["msg"], p.replace(".values", ".txt"), v["values"]))
            else:
                problems.append("%s(%s): counterexample '%s' does not reproduce natively (rc %d: %s)" % (i["entry"], i["cfg"], v["msg"], rc, out[-300:]))
        for k, s in enumerate(j["samples"]):
            rc, out = replay(bins[b], i["entry"], i["cfg"], s["values"], run_dir + "/s_%s_%d.values" % (j["_tag"], k))
            if rc != 0 or native_log(out) != s["log"]:
                nl = native_log(out)
                d = next((n for n, (a, bb) in enumerate(zip(nl, s["log"])) if a != bb), min(len(nl), len(s["log"])))
                problems.append("%s(%s): sample path %d behaves differently natively (rc %d, log %d: %s vs %s; %s)" % (i["entry"], i["cfg"], k, rc, d, nl[d:d+1], s["log"][d:d+1], out[-200:] if rc else ""))
            else: validated += 1
        if j["samples"]:
            s = j["samples"][0]
            samples.append({"harness": i["entry"], "cfg": i["cfg"], "inputs": {x["tag"]: x["shown"] for x in s["values"][:40]}, "log": s["log"][:30]})
        miss = [x for x in i.get("covers", []) if x not in j["covers"]]
        if miss and not j["violations"] and not j["complete"]: print("note: %s(%s) stopped before reaching %s" % (i["entry"], i["cfg"], miss))
        elif miss and not j["violations"]: problems.append("%s(%s): reachability witness missing: %s" % (i["entry"], i["cfg"], miss))
        if j["errors"]: problems.append("%s(%s): solver errors %s" % (i["entry"], i["cfg"], j["errors"][:2]))
        if j["unsupported"]: print("note: %s(%s) unsupported: %s" % (i["entry"], i["cfg"], j["unsupported"]))
        funcs |= {re.sub(r"::h[0-9a-f]{16}$", "", f) for f in j["functions"]}
        per.append({"harness": i["entry"], "cfg": i["cfg"], "build": BUILDS[b], "what": i.get("what", ""), "bounds": i.get("bounds", ""), "complete": j["complete"], **{k: j[k] for k in ("paths", "completed", "assume_pruned", "allowed_panics", "budget_cut", "asserts", "asserts_concrete", "asserts_symbolic", "steps", "queries", "sat", "unsat", "unknown", "fp_queries", "cache_hits", "model_hits", "crosschecked", "solver_s", "wall_s", "variables", "covers", "unsupported")}})
        print("%-14s cfg %-6s %-5s paths %6d asserts %7d queries %6d (sat %d unsat %d) solver %.1fs wall %.1fs %s" % (i["entry"], i["cfg"], b, j["paths"], j["asserts"], j["queries"], j["sat"], j["unsat"], j["solver_s"], j["wall_s"], "complete" if j["complete"] else "PARTIAL"))
    tot = lambda k: sum(p[k] for p in per)
    flt = shutil.which("llvm-cxxfilt-18") or shutil.which("c++filt")
    if flt: funcs = {re.sub(r"\[[0-9a-f]{15,16}\]", "", f) for f in subprocess.run([flt], input="\n".join(sorted(funcs)), capture_output=True, text=True).stdout.splitlines()}
    gs = sorted(f for f in funcs if f.startswith("globalsearch::") or f.startswith("<globalsearch::"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"),
          "coverage": {"states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated,
                       "rule": "states: symbolic path end states, each standing for every input satisfying its path condition; transitions: LLVM IR instructions executed symbolically; traces validated: sample paths replayed on the native build with identical observable log",
                       "samples": samples[:12], "exhaustive": bool(per) and not problems and all(p["complete"] for p in per),
                       "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
                       "crosschecked_with_cvc5": tot("crosschecked"), "assertions_checked": tot("asserts"), "assertions_decided_by_solver": tot("asserts_symbolic"),
                       "functions_encoded": gs, "functions_encoded_total": len(funcs), "functions_note": "out-of-line functions of the optimised IR; inlined callees are part of their callers",
                       "instances": per, "build_s": round(t_build, 1)},
          "assumptions": COMMON_ASSUMPTIONS + c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    json.dump(ev, open(EV + "/%s.json" % prop, "w"), indent=1)
    for m, p in knownhits: print("KNOWN-FINDING: property=%s %s" % (prop, m))
    print("%s: build %.0fs total %.0fs" % (prop, t_build, time.time() - t0))
    for m, p, vals in viols:
        print("violated: %s" % m)
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for x in problems: print("PROBLEM " + x)
    if viols: return 1
    return 2 if problems else 0

if __name__ == "__main__":
    try: rc = main()
    except NoAnswer as e:
        print("NO-ANSWER " + str(e)); rc = 2
    sys.exit(rc)
