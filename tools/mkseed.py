#!/usr/bin/env python3
"""mkseed.py ID PROP < json {"edits":[[file,old,new]..], "needs":..., "what":..., "demo":...}
writes /verif/seeded/ID and tests it in a scratch copy of /repo."""
import sys, json, os, subprocess, shutil
SR = "/tmp/seedrepo"
def sh(c, cwd=SR, t=900):
    return subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=t)
def sync():
    if not os.path.isdir(SR):
        sh("cp -a /repo " + SR, cwd="/")
    r = sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    if r.returncode: sys.exit(r.stderr)
def build():
    return sh("sed 's#cd /repo#cd " + SR + "#' /opt/vp/build.sh | bash")
def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))
    s = open('/opt/vp/test.sh').read().replace('/repo', SR)
    open('/tmp/seedtest.sh', 'w').write(s)
    sh("bash /tmp/seedtest.sh /tmp/seed.json")
    o = json.load(open('/tmp/seed.json'))
    b = set(base.get('passing') or base.get('passed') or base['stable'])
    return sorted(b - set(o.get('passed') or []))
def demo(d):
    try:
        r = sh("bash %s/demo.sh" % d, t=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def main():
    ident = sys.argv[1]
    d = "/verif/seeded/" + ident
    if len(sys.argv) > 2:
        j = json.load(sys.stdin)
        sync()
        for f, a, b in j["edits"]:
            p = SR + "/" + f
            s = open(p).read()
            if s.count(a) != 1: sys.exit("%s: %d matches of %r" % (f, s.count(a), a[:80]))
            open(p, "w").write(s.replace(a, b))
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        json.dump({"property": sys.argv[2], "needs": j["needs"], "what_it_breaks": j["what"]}, open(d + "/meta.json", "w"), indent=1)
        if j.get("demo"):
            open(d + "/demo.sh", "w").write(j["demo"])
    sync()
    build()
    c, o = demo(d)
    print("clean demo:", c, "" if c == 0 else o)
    r = sh("git apply %s/patch.diff" % d)
    if r.returncode: sys.exit("apply: " + r.stderr)
    b = build()
    if b.returncode: sys.exit("build: " + b.stderr[-2500:])
    print("missing stable:", stable())
    c, o = demo(d)
    print("patched demo:", c, o)
    sh("git checkout -q -- .")
main()
