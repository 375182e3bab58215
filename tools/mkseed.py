#!/usr/bin/env python3
"""Create and confirm planted bugs.   mkseed.py make DEFS.py   |   mkseed.py try ID... | mkseed.py tryall

DEFS.py defines BUGS: list of dicts {id, property, edits: [(file, old, new)], demo, needs, what_it_breaks,
std (c++17), flags}.  demo is the text of a C++ program: exit 0 on the unchanged tree, nonzero with the patch.
`try` confirms in a scratch copy (bind-mounted over /repo in a private mount namespace): the patch applies, builds,
passes the stable tests, the demo separates the two trees; then runs the property's quick check on the copy."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")

DEMO = '''#!/bin/bash
# Exit 0 when the property holds in this demonstration, nonzero otherwise.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
g++ -std=%s -w -I include %s "$here/demo.cpp" -o "$out/demo" -pthread || exit 2
cd "$out" && timeout 120 ./demo
'''

def make(defs):
    g = {}
    exec(open(defs).read(), g)
    for b in g["BUGS"]:
        d = os.path.join(SEED, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with tempfile.TemporaryDirectory() as t:
            subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
            for f, old, new in b["edits"]:
                p = os.path.join(t, "r", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print("%s: %d matches in %s of %r" % (b["id"], s.count(old), f, old)); break
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % (b.get("std", "c++17"), b.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(d + "/meta.json", "w"), indent=1)

def ns(copy, cmd, timeout=1800, env=None):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)

def names(x):
    if isinstance(x, dict):
        for k in ("passed", "pass", "stable", "tests"):
            if k in x: return names(x[k])
        return set(k for k, v in x.items() if v in ("pass", "passed", True))
    return set(x)

def try_(i, check=True):
    d = os.path.join(SEED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    c = "/tmp/mk/" + i
    shutil.rmtree(c, ignore_errors=True); os.makedirs("/tmp/mk", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    try:
        r = ns(c, "bash %s/demo.sh" % d)
        if r.returncode != 0: return "%s: DEMO FAILS ON UNCHANGED TREE\n%s" % (i, r.stdout[-1500:])
        r = ns(c, "git apply %s/patch.diff" % d)
        if r.returncode != 0: return "%s: PATCH DOES NOT APPLY\n%s" % (i, r.stdout[-1500:])
        r = ns(c, "bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mk/%s.json" % i)
        try:
            o = names(json.load(open("/tmp/mk/%s.json" % i))); os.remove("/tmp/mk/%s.json" % i)
        except Exception: return "%s: BUILD FAILS\n%s" % (i, r.stdout[-3000:])
        b = names(json.load(open("/opt/vp/BASELINE.json")))
        if b - o: return "%s: %d STABLE TESTS FAIL: %s" % (i, len(b - o), sorted(b - o)[:4])
        r = ns(c, "bash %s/demo.sh" % d)
        if r.returncode == 0: return "%s: DEMO PASSES WITH THE PATCH" % i
        how = "demo rc %d" % r.returncode
        if r.returncode == 2: how += " (COMPILE?) " + r.stdout[-800:]
        if not check: return "%s: ok, %s" % (i, how)
        e = dict(os.environ, VERIF_REPO=c, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run([sys.executable, os.path.join(V, "bin/check.py"), prop, "quick"], cwd=V, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return "%s (%s): %s; check rc %d %s%s" % (i, prop, how, r.returncode, "CAUGHT" if v and r.returncode == 1 else "MISSED",
                                              "" if v else "\n" + r.stdout[-1500:])
    finally:
        shutil.rmtree(c, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    elif sys.argv[1] in ("try", "trynocheck"):
        for i in sys.argv[2:]: print(try_(i, sys.argv[1] == "try"), flush=True)
    elif sys.argv[1] == "tryall":
        for i in sorted(os.listdir(SEED)): print(try_(i), flush=True)
