"""Runs the Python engine: one process per configuration, in the interpreter that has the package's numpy."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
from build import VERIF, BUILD
import runner

PY = "/opt/stempy-venv/bin/python"
Z3SRC = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def z3path():
    d = os.path.join(BUILD, "z3path")
    os.makedirs(d, exist_ok=True)
    for n in ("z3",):
        l = os.path.join(d, n)
        if not os.path.lexists(l):
            try: os.symlink(os.path.join(Z3SRC, n), l)
            except FileExistsError: pass
    return d


def one(prop, cfg, work, left):
    if runner.STOP.is_set(): return dict(stopped=True)
    out = os.path.join(work, cfg["name"] + ".json")
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"): env[k] = "1"
    with open(out + ".log", "w+") as lf:
        p = subprocess.Popen([PY, os.path.join(VERIF, "pysym", "main.py"), prop, json.dumps(cfg), out, str(left)], stdout=lf, stderr=subprocess.STDOUT, env=env)
        t = time.time()
        while True:
            try:
                p.wait(0.2); break
            except subprocess.TimeoutExpired:
                if runner.STOP.is_set() or time.time() - t > left + 60:
                    p.kill(); p.wait()
                    return dict(stopped=True) if runner.STOP.is_set() else dict(error="timeout")
        lf.seek(0)
        txt = lf.read()
    try:
        return json.load(open(out))
    except Exception:
        return dict(error="rc=%s %s" % (p.returncode, txt[-2500:]))


def main(prop, chk, tier, only):
    t0 = time.time()
    budget = int(os.environ.get("SX_BUDGET", chk.get("budget", {}).get(tier, 780 if tier == "quick" else 7200)))
    z3path()
    work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=BUILD)
    try:
        return go(prop, chk, tier, only, work, t0, t0 + budget)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(prop, chk, tier, only, work, t0, deadline):
    cfgs = []
    for c in chk["configs"]:
        if tier not in c.get("tiers", ("quick", "thorough")): continue
        c = dict(c)
        c["name"] = re.sub(r"[^A-Za-z0-9_.-]", "_", c["name"])
        if only and not re.fullmatch(only, c["name"]): continue
        cfgs.append(c)
    ks = runner.known(prop)
    res = {}
    def match(n, v):
        for k in ks:
            if k.get("config") and not re.fullmatch(k["config"], n): continue
            if re.search(k["msg"], v["msg"]) and (not k.get("where") or re.search(k["where"], v.get("detail", "") + v.get("tb", ""))): return k
    with ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(one, prop, {k: v for k, v in c.items() if k != "tiers"}, work, max(5, deadline - time.time())): c for c in sorted(cfgs, key=lambda c: -c.get("cost", 1))}
        for f in as_completed(fs):
            n = fs[f]["name"]
            r = res[n] = f.result()
            if "SX_NOSTOP" not in os.environ and any(v.get("confirmed") and not match(n, v) for v in r.get("violations", [])): runner.STOP.set()
    tot = dict(paths=0, cut=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, assert_queries=0, solver_s=0.0, vars=0)
    asserts, files, per, samples, und, kn = {}, set(), [], [], [], {}
    nviol = val = 0
    for c in cfgs:
        n, r = c["name"], res[c["name"]]
        if "stopped" in r: und.append(n + ": stopped after a violation was confirmed"); continue
        if "error" in r: und.append(n + ": " + r["error"]); continue
        for k in tot: tot[k] += r["stats"].get(k, 0)
        for k, v in r["asserts"].items(): asserts[k] = asserts.get(k, 0) + v
        files.update(r["files"])
        per.append(dict(config=n, args={k: v for k, v in c.items() if k not in ("name", "tiers", "reach")}, paths=r["stats"]["paths"], queries=r["stats"]["queries"],
                        symbolic_vars=r["stats"]["vars"], solver_s=round(r["stats"]["solver_s"], 2), wall_s=round(r["t"], 2)))
        samples += [dict(config=n, inputs=s) for s in r["samples"][:1]]
        val += r["validated"]
        if r["incomplete"]: und.append("%s: incomplete: %s" % (n, r["incomplete"]))
        for d in r["disagree"]: und.append("%s: real run disagrees with the symbolic one: %s %s" % (n, d["fails"], d["tb"][-600:]))
        seen = set()
        for v in r["violations"]:
            k = match(n, v)
            if k:
                kn.setdefault(k["id"], k); continue
            if not v["confirmed"]:
                und.append("%s: counterexample not confirmed on the real code: %s %s %s" % (n, v["msg"], v.get("detail", ""), json.dumps(v["inputs"])[:300])); continue
            if v["msg"] in seen or nviol >= 3: continue
            seen.add(v["msg"]); nviol += 1
            pth = os.path.join(runner.REPLAY, "%s-%s-%d.json" % (prop, n, nviol))
            json.dump(dict(property=prop, config=c, violation=v), open(pth, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, pth))
            print("  config=%s %s %s inputs=%s real run: %s" % (n, v["msg"], v.get("detail", ""), json.dumps(v["inputs"])[:400], v["native"]))
        if not r["violations"]:
            miss = [l for l in c.get("reach", chk.get("reach", ["done"])) if l not in r["reached"]]
            if miss: und.append("%s: vacuous, labels not reached: %s" % (n, miss))
    for k in kn.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=tot["paths"] + tot["cut"], transitions=tot["forks"] + tot["paths"], traces_validated_against_impl=val, samples=samples[:6],
                            paths_completed=tot["paths"], symbolic_variables=tot["vars"], solver_queries=tot["queries"], queries_sat=tot["sat"],
                            queries_unsat=tot["unsat"], assertion_queries=tot["assert_queries"], solver_seconds=round(tot["solver_s"], 2),
                            assertions_checked=asserts, functions_encoded=chk.get("funcs", []), source_files=sorted(files),
                            bounds=chk["bounds"], configs=per, undecided=und, known_findings_seen=sorted(kn)),
              assumptions=chk.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d configs, %d paths, %d queries (%.1fs solver), %d assertion sites, %d paths validated, wall %.1fs" %
          (prop, tier, len(cfgs), tot["paths"], tot["queries"], tot["solver_s"], len(asserts), val, wall))
    if nviol: return 1
    if und:
        for u in und: print("UNDECIDED property=%s %s" % (prop, u))
        return 2
    return 0
