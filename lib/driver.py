#!/usr/bin/env python3
"""driver.py PROPERTY : decide one property on /repo's current source.

1. proof    extract the functions under contract from /repo/src and let Verus
            discharge every obligation (contracts/units/*.bp).
2. stand-in run the bounded scenarios of the property on the real code; they
            also look for a failing input when an obligation fails.
Exit 0 / 1 as the interface asks.  See DESIGN.md.
"""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import config

REPO = os.environ.get("BP_REPO", "/repo")
BUILD = os.environ.get("BP_BUILD", os.path.join(VERIF, ".build"))
EVID = os.environ.get("BP_EVIDENCE", os.path.join(VERIF, "evidence"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LOG = []


def log(*a):
    s = " ".join(str(x) for x in a)
    LOG.append(s)
    print("# " + s, flush=True)


def cargo_env(target):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    e.pop("RUSTFLAGS", None)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(d.encode()); h.update(open(d, "rb").read()); continue
        for r, ds, fs in sorted(os.walk(d)):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


# ---------------------------------------------------------------- proof
def build_extractor():
    with Lock("extract"):
        t = os.path.join(BUILD, "extract")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "tools/extract"),
                           env=cargo_env(t), capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("extractor build failed: " + r.stderr[-2000:])
        return os.path.join(t, "debug/bpextract")


def verus_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/opt/veriftools/bin"
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def fn_ranges(text):
    """line ranges of generated functions: [(start, end, name)]"""
    out = []
    cur = None
    for n, l in enumerate(text.split("\n"), 1):
        if l.startswith("// ---- fn "):
            if cur:
                out.append((cur[0], n - 1, cur[1]))
            cur = (n, l[len("// ---- fn "):].strip())
        elif l.startswith("// ---- ") or l.startswith("// ======== "):
            if cur:
                out.append((cur[0], n - 1, cur[1]))
            cur = None
    if cur:
        out.append((cur[0], 10**9, cur[1]))
    return out


def scan_trusted(text):
    """mechanical scan of the generated unit for everything Verus does not check"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if "external_body" in l or "assume_specification" in l or re.search(r"\b(assume|admit)\s*\(", l):
            m = None
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", lines[k])
                if m:
                    break
            out.append((m.group(1) if m else l.strip()[:60]))
        m = re.search(r"\baxiom fn (\w+)", l)
        if m:
            out.append("axiom " + m.group(1))
    return sorted(set(out))


def run_unit(unit, bpx, src=None, timeout=420):
    """-> dict(status, verified, errors, failures=[{fn,msg,line,rendered}], degraded=reason)"""
    src = src or os.path.join(REPO, "src")
    d = os.path.join(BUILD, "vx", "%s-%d" % (unit, os.getpid()))
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "unit_%s.rs" % unit)
    rep = os.path.join(d, unit + ".json")
    res = {"unit": unit, "status": "degraded", "verified": 0, "errors": 0, "failures": [], "degraded": None,
           "functions": [], "trusted": [], "smt_ms": 0, "total_ms": 0, "per_fn": {}}
    try:
        r = subprocess.run([bpx, os.path.join(VERIF, "contracts/units", unit + ".bp"), src,
                            os.path.join(VERIF, "contracts/prelude"), out, rep], capture_output=True, text=True, timeout=60)
        try:
            res["functions"] = json.load(open(rep)).get("functions", [])
        except Exception:
            pass
        if r.returncode != 0:
            res["degraded"] = (r.stderr.strip() or "extraction failed")[-1500:]
            return res
        text = open(out).read()
        res["trusted"] = scan_trusted(text)
        ranges = fn_ranges(text)
        extra = config.UNIT_ARGS.get(unit, [])
        r = subprocess.run(["verus", out, "--output-json", "--time-expanded", "--error-format=json", "--rlimit", "60", "--num-threads", "4"] + extra,
                           capture_output=True, text=True, timeout=timeout, cwd=d, env=verus_env())
        try:
            j = json.loads(r.stdout)
            vr = j.get("verification-results", {})
            res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
            tm = j.get("times-ms", {})
            res["total_ms"] = tm.get("total", 0)
            smt = tm.get("smt", {})
            res["smt_ms"] = smt.get("smt-run", 0)
            for m in smt.get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    res["per_fn"][f["function"].split("::", 1)[1]] = {"ms": f["time-micros"] / 1000.0, "ok": f["success"]}
            ok = vr.get("success", False) and r.returncode == 0
            vir = vr.get("encountered-vir-error", False)
        except Exception:
            ok, vir = False, True
        hard = None
        fails = []
        for l in r.stderr.split("\n"):
            if not l.startswith("{"):
                continue
            try:
                m = json.loads(l)
            except Exception:
                continue
            if m.get("level") != "error":
                continue
            msg = m.get("message", "")
            if msg.startswith("aborting due to") or not m.get("spans"):
                if "rlimit" not in msg.lower():
                    continue
            fn = None
            for s in m.get("spans", []):
                for (a, b, name) in ranges:
                    if a <= s["line_start"] <= b and os.path.basename(s["file_name"]) == os.path.basename(out):
                        fn = name
            low = msg.lower()
            if "rlimit" in low or "resource limit" in low or "timeout" in low:
                fails.append({"fn": fn, "msg": msg, "kind": "unknown", "rendered": m.get("rendered", "")[:4000]})
            elif any(k in low for k in OBLIG):
                fails.append({"fn": fn, "msg": msg, "kind": "failed", "rendered": m.get("rendered", "")[:4000],
                              "line": m["spans"][0]["line_start"] if m.get("spans") else 0})
            else:
                hard = (m.get("rendered") or msg)[:1500]
        if ok:
            res["status"] = "proved"
        elif hard or vir or not fails:
            res["degraded"] = "not expressible after the change: " + (hard or r.stderr[-800:])
            res["verified"] = 0
        else:
            res["status"] = "failed"
            res["failures"] = fails
        return res
    except subprocess.TimeoutExpired:
        res["degraded"] = "verifier timeout"
        res["status"] = "degraded"
        return res
    finally:
        if not os.environ.get("BP_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


OBLIG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
         "possible arithmetic", "possible division", "decreases not satisfied", "unreachable", "recommendation not met",
         "index out of", "possible bit shift", "loop ensures", "constructed value may fail", "failed this", "could not prove")


# ---------------------------------------------------------------- harness
def target_dir():
    t = os.path.join(REPO, "target")
    if os.path.isdir(os.path.join(t, "debug", "deps")):
        return t
    return os.path.join(BUILD, "target")


def build_harness(names):
    """build the real binary and the scenario binaries -> dict(bin=..., scen={name: path or None}, err)"""
    with Lock("harness"):
        t = target_dir()
        h = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness"))
        copies = os.path.join(BUILD, "bin-" + h[:16])
        out = {"bin": None, "scen": {}, "err": None}
        if not os.path.isdir(copies):
            for n in os.listdir(BUILD):
                if n.startswith("bin-"):
                    shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
            # modification times decide what cargo rebuilds; make sure the current source counts
            fp = os.path.join(t, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("backpak-") or n.startswith("bpharness-"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            os.makedirs(copies)
        env = cargo_env(t)
        bp = os.path.join(copies, "backpak")
        if not os.path.exists(bp):
            r1 = subprocess.run(["cargo", "build", "--offline", "--bin", "backpak"], cwd=REPO, env=env, capture_output=True, text=True)
            if r1.returncode != 0:
                out["err"] = "the code does not build: " + r1.stderr[-3000:]
            else:
                shutil.copy2(os.path.join(t, "debug", "backpak"), bp)
        if os.path.exists(bp):
            out["bin"] = bp
        need = [n for n in names if not os.path.exists(os.path.join(copies, "bph_" + n))]
        if need:
            # a changed library interface may leave one scenario binary uncompilable; the others still run
            for n in need:
                try:
                    os.remove(os.path.join(t, "debug", "bph_" + n))
                except OSError:
                    pass
            r2 = subprocess.run(["cargo", "build", "--offline", "--keep-going"] + [x for n in need for x in ("--bin", "bph_" + n)],
                                cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
            if r2.returncode != 0:
                out["err"] = (out["err"] or "") + "harness does not build: " + r2.stderr[-3000:]
            for n in need:
                src = os.path.join(t, "debug", "bph_" + n)
                if os.path.exists(src):
                    shutil.copy2(src, os.path.join(copies, "bph_" + n))
        for n in names:
            p = os.path.join(copies, "bph_" + n)
            out["scen"][n] = p if os.path.exists(p) else None
        return out


UID = 54321


def have_setpriv():
    try:
        r = subprocess.run(["setpriv", "--reuid", str(UID), "--regid", str(UID), "--clear-groups", "true"], capture_output=True)
        return r.returncode == 0
    except Exception:
        return False


def run_scenario(name, opts, built, budget):
    """run one scenario, in several processes of different seeds if it is a slow one; -> merged result"""
    n = config.WORKERS.get(name, 1)
    if n == 1:
        return run_one(name, opts, built, budget, SEED)
    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda k: run_one(name, opts, built, budget, SEED if k == 0 else SEED * 1000 + k), range(n)))
    out = rs[0]
    st = dict(out["stats"])
    for r in rs[1:]:
        out["violations"] = out["violations"] + r["violations"]
        out["note"] = out["note"] or r["note"]
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                st[k] = st.get(k, 0) + v
            elif isinstance(v, dict):
                d = dict(st.get(k, {}))
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b if isinstance(b, (int, float)) else b
                st[k] = d
            else:
                st.setdefault(k, v)
    st["processes"] = n
    out["stats"] = st
    oks = [r["ok"] for r in rs]
    out["ok"] = False if out["violations"] else (True if True in oks else None)
    return out


def run_one(name, opts, built, budget, seed):
    """-> dict(ok, violation(text) , stats)"""
    import tempfile
    res = {"name": name, "ok": None, "violations": [], "stats": {}, "note": None, "known": []}
    if not built.get("scen", {}).get(name) or not built.get("bin"):
        res["note"] = "not run: " + (built.get("err") or "no harness")[:600]
        return res
    d = tempfile.mkdtemp(prefix="bpv-", dir="/tmp")
    try:
        os.chmod(d, 0o755)
        os.makedirs(d + "/bin"); os.makedirs(d + "/work"); os.makedirs(d + "/home")
        for p in (built["bin"], built["scen"][name]):
            shutil.copy2(p, d + "/bin/" + os.path.basename(p))
        cmd = [d + "/bin/bph_" + name, name, "--seed", str(seed), "--tier", TIER, "--bin", d + "/bin/backpak", "--work", d + "/work",
               "--out", d + "/work/result.json", "--budget", str(budget)] + list(opts)
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d + "/home", "RUST_BACKTRACE": "0", "TMPDIR": d + "/work", "LC_ALL": "C.UTF-8", "TZ": "UTC"}
        if os.geteuid() == 0 and have_setpriv():
            for p in ("/work", "/home"):
                os.chown(d + p, UID, UID)
            cmd = ["setpriv", "--reuid", str(UID), "--regid", str(UID), "--clear-groups"] + cmd
            res["uid"] = UID
        else:
            res["uid"] = os.geteuid()
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=d + "/work", env=env, capture_output=True, text=True, errors="replace", timeout=budget * 3 + 60, stdin=subprocess.DEVNULL)
            rc, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = -999, "", "scenario timeout"
        res["wall_s"] = round(time.time() - t0, 2)
        try:
            j = json.load(open(d + "/work/result.json"))
            res["stats"] = j.get("stats", {})
            res["violations"] = j.get("violations", [])
            res["ok"] = not res["violations"]
        except Exception:
            res["note"] = "harness ended with %s and no result: %s" % (rc, (se or so)[-1500:])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- main
def known_findings():
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def wanted(want, *names):
    """is this function one of those that decide the property? (glob patterns on the name, with or without its module)"""
    import fnmatch
    return want == "*" or any(fnmatch.fnmatchcase(n, w) or fnmatch.fnmatchcase(n.split("::", 1)[-1], w) for n in names for w in want)


def main():
    prop = sys.argv[1]
    cfg = config.PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    units = cfg.get("units", {})
    scen = cfg.get("scenarios", [])
    with cf.ThreadPoolExecutor(16) as ex:
        fx = ex.submit(build_extractor) if units else None
        fh = ex.submit(build_harness, sorted({x if isinstance(x, str) else x[0] for x in scen})) if scen else None
        results = []
        if units:
            try:
                bpx = fx.result()
                futs = [ex.submit(run_unit, u, bpx) for u in units]
                results = [f.result() for f in futs]
            except RuntimeError as e:
                results = [{"unit": u, "status": "degraded", "degraded": str(e), "verified": 0, "errors": 0, "failures": [],
                            "functions": [], "trusted": [], "smt_ms": 0, "total_ms": 0, "per_fn": {}} for u in units]
        built = fh.result() if fh else {}
        total_budget = cfg.get("budget", {}).get(TIER, 30 if TIER == "quick" else 400)
        futs = []
        for s in scen:
            name, opts = (s, []) if isinstance(s, str) else (s[0], s[1])
            futs.append(ex.submit(run_scenario, name, ["--prop", prop] + list(opts), built, total_budget))
        sres = [f.result() for f in futs]

    # ---- obligations
    failed, unknown, degraded = [], [], []
    oblig = disch = 0
    fns, trusted = [], set()
    smt = 0
    for r in results:
        want = units[r["unit"]]
        log("unit %s: %s (verified %d, errors %d, %d ms)" % (r["unit"], r["status"], r["verified"], r["errors"], r["total_ms"]))
        smt += r["smt_ms"]
        trusted.update(r["trusted"])
        oblig += r["verified"] + r["errors"]
        disch += r["verified"]
        for f in r["functions"]:
            fns.append({"fn": f["fn"], "unit": r["unit"], "loops": f.get("loops", 0), "dropped": f.get("dropped", []),
                        "rewrites": f.get("rewrites", []), "inlined": f.get("inlined", []),
                        "decides": wanted(want, f["as"], f["fn"])})
        if r["status"] == "degraded":
            degraded.append((r["unit"], r["degraded"]))
            log("  degraded: " + (r["degraded"] or "")[:300].replace("\n", " "))
        for f in r["failures"]:
            alias = [g["as"] for g in r["functions"] if g["fn"] == f["fn"]]
            mine = f["fn"] is None or wanted(want, f["fn"], *alias)
            if not mine:
                log("  (obligation of another property fails in %s: %s)" % (f["fn"], f["msg"]))
                continue
            (failed if f["kind"] == "failed" else unknown).append((r["unit"], f))
    # ---- stand-ins
    viol = []
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    known_hit = set()
    for s in sres:
        log("scenario %s: %s %s" % (s["name"], "ok" if s["ok"] else ("VIOLATED" if s["ok"] is False else "no answer"), json.dumps(s["stats"])[:300]))
        if s["note"]:
            log("  " + s["note"][:500])
        for v in s["violations"]:
            if v.get("prop") not in (None, prop):
                log("  (violation of %s: %s)" % (v.get("prop"), v.get("what", "")[:200]))
                continue
            k = next((k for k in known if k["signature"] == v.get("signature")), None)
            if k:
                known_hit.add(k["signature"])
                continue
            viol.append((s["name"], v))
    for k in known:
        # listed findings are re-examined by the scenarios; the line is printed for each listed one
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    nviol = 0
    if viol:
        rc, nviol = 1, len(viol)
        name, v = viol[0]
        p = os.path.join(EVID, "replays", "%s-%s.json" % (prop, name))
        json.dump({"property": prop, "scenario": name, "violation": v, "others": [x[1] for x in viol[1:6]],
                   "seed": SEED, "tier": TIER, "failed_obligations": [f[1] for f in failed],
                   "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/lib/driver.py %s" % (SEED, TIER, prop)}, open(p, "w"), indent=1)
        log("violation: " + v.get("what", "")[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, p))
    elif failed:
        rc, nviol = 1, len(failed)
        p = os.path.join(EVID, "replays", "%s-obligation.json" % prop)
        json.dump({"property": prop, "failed_obligations": [dict(f[1], unit=f[0]) for f in failed],
                   "searched": [{"scenario": s["name"], "stats": s["stats"], "note": s["note"]} for s in sres],
                   "rerun": "python3 /verif/lib/driver.py %s" % prop}, open(p, "w"), indent=1)
        for u, f in failed[:6]:
            log("failed obligation in %s: %s" % (f["fn"], f["msg"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    if unknown:
        log("undecided obligations (solver limit): %s" % [(u, f["fn"]) for u, f in unknown])
    # ---- evidence
    evals = sum(int(s["stats"].get("evaluations", 0)) for s in sres)
    distinct = sum(int(s["stats"].get("distinct_nontrivial", 0)) for s in sres)
    level = cfg["level"]
    cov = {
        "obligations": oblig, "discharged": disch,
        "checker_cmd": "bpextract contracts/units/{%s}.bp /repo/src -> verus --rlimit 60 (Verus 0.2026.09.13, Z3 back end)" % ",".join(units),
        "trusted_base": sorted(trusted),
        "functions_under_contract": fns,
        "unit_status": {r["unit"]: r["status"] for r in results},
        "degraded": [{"unit": u, "reason": x} for u, x in degraded],
        "undecided": [{"unit": u, "fn": f["fn"]} for u, f in unknown],
        "solver_ms": smt,
        "per_function_ms": {r["unit"] + "::" + k: round(v["ms"], 1) for r in results for k, v in r["per_fn"].items()},
        "bounded_standins": [{"scenario": s["name"], "bounded": True, "stats": s["stats"], "note": s["note"], "uid": s.get("uid"), "wall_s": s.get("wall_s")} for s in sres],
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "bounded stand-ins on the real code; " + "; ".join(sorted({s["stats"].get("rule", "") for s in sres if s["stats"].get("rule")})),
        "samples": [x for s in sres for x in s["stats"].get("samples", [])][:6],
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + config.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    log("%s: %d/%d obligations discharged, %d bounded evaluations, %.1f s" % (prop, disch, oblig, evals, time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
