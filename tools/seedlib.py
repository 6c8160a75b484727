"""Helpers to write and confirm planted bugs (development tool, not used by any check).

   seed(id, property, needs, breaks, edits, demo, srcs)   writes seeded/<id>/
   python3 tools/seedlib.py confirm ID...                 confirms in the scratch copy /tmp/sc/repo:
        patch applies, builds, stable tests pass, demo 0 without / nonzero with the patch
   python3 tools/seedlib.py check ID...                   runs the property's quick check against the patched copy
The scratch copy: cp -a /repo /tmp/sc/repo, plus /tmp/sc/build.sh and test.sh made from /opt/vp by sed."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("SC", "/tmp/sc")
R = SC + "/repo"

DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O0 -g %s -I include "$here/demo.cpp" %s -o "$tmp/demo" -lpthread %s || exit 3
cd "$tmp" && timeout 120 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def seed(id, prop, needs, breaks, edits, demo, srcs="", flags="", libs="", subst=False):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    sh("git -C %s checkout -q -- ." % R)
    for f, old, new in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit("%s: %d matches in %s for %r" % (id, n, f, old[:80]))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % R).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (flags, srcs, libs))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -q -- ." % R)


def demo(id):
    return subprocess.run(["bash", os.path.join(V, "seeded", id, "demo.sh")], cwd=R, capture_output=True, text=True)


def confirm(id):
    sh("git -C %s checkout -q -- ." % R)
    a = demo(id)
    if a.returncode != 0:
        return "DEMO FAILS UNPATCHED rc=%d %s" % (a.returncode, (a.stdout + a.stderr)[-600:])
    if sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, id)).returncode:
        return "DOES NOT APPLY"
    try:
        b = demo(id)
        if b.returncode == 0:
            return "DEMO PASSES PATCHED"
        if b.returncode == 3:
            return "DEMO DOES NOT COMPILE PATCHED " + b.stderr[-500:]
        r = sh("bash %s/test.sh %s/o.json" % (SC, SC))
        base = json.load(open("/opt/vp/BASELINE.json"))
        o = json.load(open(SC + "/o.json"))
        miss = [x for x in base["stable"] if x not in set(o["passed"])]
        if miss:
            return "TESTS FAIL: %s %s" % (miss[:4], r.stderr[-300:] if len(miss) > 300 else "")
        return "confirmed (demo: %s)" % (b.stdout + b.stderr).strip().replace("\n", " ")[:120]
    finally:
        sh("git -C %s checkout -q -- ." % R)


def check(id, pid=None):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, id)))
    sh("git -C %s checkout -q -- ." % R)
    if sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, id)).returncode:
        return "DOES NOT APPLY"
    try:
        pid = pid or m["property"]
        r = sh("VERIF_REPO=%s python3 %s/run.py %s quick" % (R, V, pid))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if v:
            rep = v[0].split("replay=")[1]
            msg = ""
            try:
                msg = json.load(open(rep))["message"][:200].replace("\n", " ")
                os.unlink(rep)
            except Exception:
                pass
            return "%s caught rc=%d: %s" % (pid, r.returncode, msg)
        return "%s MISSED rc=%d %s" % (pid, r.returncode, (r.stdout + r.stderr)[-300:])
    finally:
        sh("git -C %s checkout -q -- ." % R)


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        if ":" in i:
            i, pid = i.split(":")
        else:
            pid = None
        if sys.argv[1] in ("confirm", "all"):
            c = confirm(i)
            print(i, c, flush=True)
            if not c.startswith("confirmed"):
                continue
        if sys.argv[1] in ("check", "all"):
            print(i, check(i, pid), flush=True)
