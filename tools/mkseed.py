#!/usr/bin/env python3
"""mkseed.py SEEDS.py [ID...]: makes and confirms planted bugs in a private bind-mounted copy of /repo.
SEEDS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, [kind='cxx'|'py'], [srcs])].
Run under: unshare -m (the script re-executes itself so)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("MKSEED_NS") != "1":
    sr = os.environ.get("MKSEED_COPY", "/tmp/sr")
    subprocess.run("rsync -a --delete /repo/ %s/ 2>/dev/null || (cp -a /repo/. %s/)" % (sr, sr), shell=True)
    os.makedirs(sr, exist_ok=True)
    # the checks run from a snapshot, so that editing may go on
    vs = os.environ["MKSEED_VS"] = sr + "-verif"
    subprocess.run("mkdir -p %s; rsync -a --delete --exclude=.git --exclude=seeded --exclude=replay %s/ %s/" % (vs, V, vs), shell=True)
    if not os.path.isdir(sr + "/.git"): subprocess.run(["cp", "-a", "/repo/.git", sr + "/.git"])
    os.execvpe("unshare", ["unshare", "-m", "sh", "-c", 'mount --bind "$0" /repo && exec python3 "$@"', sr] + [os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, MKSEED_NS="1"))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CXX = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -O1 -g -std=c++14 -w %s -I/repo -I/repo/_build -I/repo/thirdparty/ThreadPool -I/repo/thirdparty/least-squares-cpp/include -isystem /usr/include/eigen3 -isystem /usr/include/python3.12 "$D/demo.cpp" -o "$T/demo" -L/repo/_build/lib/stempy -lstem -Wl,-rpath,/repo/_build/lib/stempy -lpthread -l:libpython3.12.so.1.0 || exit 3
cd "$T" && timeout 120 "$T/demo"
'''
PY = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/_build/lib timeout 120 /opt/stempy-venv/bin/python "$D/demo.py"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    kind = s.get("kind", "cxx")
    open(d + "/demo." + ("cpp" if kind == "cxx" else "py"), "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(CXX % s.get("flags", "") if kind == "cxx" else PY); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C /repo checkout -q -- .")
    ok = True
    for f, old, new in s["edits"]:
        t = open("/repo/" + f).read()
        if t.count(old) != 1: print(s["id"], "EDIT MATCHES", t.count(old), old[:50]); ok = False; break
        open("/repo/" + f, "w").write(t.replace(old, new))
    if not ok: continue
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r = sh("bash /opt/vp/test.sh /tmp/mk.json")
    got = json.load(open("/tmp/mk.json"))
    if not stable <= set(got["passed"]): print(s["id"], "TESTS FAIL", r.stdout[-1500:]); continue
    a = sh("cd /repo && bash " + d + "/demo.sh")
    c = sh("cd %s && python3 check.py %s" % (os.environ["MKSEED_VS"], s["property"])) if os.environ.get("NOCHECK") != "1" else None
    sh("git -C /repo checkout -q -- .")
    if os.environ.get("NOCLEAN") != "1":
        b = sh("bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash " + d + "/demo.sh")
    else: b = None
    print(s["id"], s["property"], "patched rc", a.returncode, "clean rc", b.returncode if b else "-", "| check", c.returncode if c else "-", flush=True)
    if a.returncode == 0 or a.returncode == 3 or (b and b.returncode): print(" demo problem:", a.stdout[-600:], b and b.stdout[-600:])
    if c: print("   ", "\n    ".join(l[:220] for l in c.stdout.splitlines() if l.startswith(("VIOL", "UNDEC", "ERROR", "  config", "KNOWN")))[:900], flush=True)
