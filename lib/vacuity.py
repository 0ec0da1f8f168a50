#!/usr/bin/env python3
"""vacuity.py [UNIT...] : are the contracts satisfiable where they are used?

Extracts each unit with a probe `assert(!bp_probe(k))` (an uninterpreted
predicate, so never provable from consistent facts) at the start and the end of
every function and at the start of every loop body.  A probe the verifier
*accepts* sits at a point its assumptions make unreachable.  Prints those.
"""
import json, os, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def probe(unit, bpx, src, timeout=900):
    import driver
    d = tempfile.mkdtemp(prefix="bpvac-")
    try:
        out = d + "/unit.rs"
        e = dict(os.environ, BP_PROBE="1")
        r = subprocess.run([bpx, VERIF + "/contracts/units/%s.bp" % unit, src, VERIF + "/contracts/prelude", out, d + "/r.json"], capture_output=True, text=True, env=e)
        if r.returncode:
            return {"unit": unit, "note": "not extracted: " + r.stderr[-300:]}
        text = open(out).read().split("\n")
        ranges = driver.fn_ranges("\n".join(text))
        at = {}
        for n, l in enumerate(text, 1):
            m = re.search(r"assert\(!bp_probe\((\d+)\)\)", l)
            if m:
                at[n] = m.group(1)
        r = subprocess.run(["verus", out, "--error-format=json", "--multiple-errors", "60", "--rlimit", "60", "--num-threads", "4"], capture_output=True, text=True, timeout=timeout, cwd=d, env=driver.verus_env())
        hit = set()
        for l in r.stderr.split("\n"):
            if l.startswith("{"):
                for s in json.loads(l).get("spans", []):
                    for n in range(s["line_start"], s["line_end"] + 1):
                        if n in at:
                            hit.add(n)
        name = lambda n: next((x for a, b, x in ranges if a <= n <= b), "?")
        dead = ["%s@%s" % (name(n), {"999": "end", "1000": "start"}.get(k, "loop " + k)) for n, k in sorted(at.items()) if n not in hit]
        return {"unit": unit, "probes": len(at), "refuted": len(hit), "unreachable": dead}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bpx = os.environ.get("BPX", VERIF + "/tools/extract/target/release/bpextract")
    us = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(VERIF + "/contracts/units"))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda u: probe(u, bpx, "/repo/src"), us):
            print(json.dumps(r))
