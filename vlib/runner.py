import importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed
import build
from build import VERIF, REPO, BUILD, busy

REPLAY = os.path.join(BUILD, "replay")


def known(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == prop and k.get("status") == "known"]


def match_known(ks, cfg, v):
    for k in ks:
        if k.get("config") and not re.fullmatch(k["config"], cfg):
            continue
        if k.get("kind") and k["kind"] != v["kind"]:
            continue
        if not re.search(k["msg"], v["msg"]):
            continue
        if k.get("where") and not re.search(k["where"], v.get("where", "") + " " + str(v.get("stack", ""))):
            continue
        return k
    return None


STOP = threading.Event()
CONF = {}


def only_all(r):
    return "error" in r or "stopped" in r


def run_symx(exe, bcs, cfg, work, deadline):
    out = os.path.join(work, "o_%s.json" % cfg["name"])
    left = max(5, deadline - time.time())
    cmd = [exe, "--out=" + out, "--time=%d" % int(min(left, cfg.get("time", 10 ** 9))),
           "--query-ms=%d" % cfg.get("query_ms", 60000)] + cfg.get("opts", "").split() + bcs
    env = dict(os.environ)
    t = time.time()
    if STOP.is_set():
        return {"stopped": True}
    with open(out + ".log", "w+") as lf:
        p = busy(subprocess.Popen, cmd, stdout=lf, stderr=subprocess.STDOUT, env=env)
        while True:
            try:
                p.wait(0.3)
                break
            except subprocess.TimeoutExpired:
                if STOP.is_set() or time.time() - t > left + 60:
                    p.kill()
                    p.wait()
                    return {"stopped": True} if STOP.is_set() else {"error": "executor timeout"}
        lf.seek(0)
        txt = lf.read()[-2000:]
    try:
        d = json.load(open(out))
    except Exception:
        return {"error": "executor failed rc=%s: %s" % (p.returncode, txt)}
    d["stderr"] = txt
    d["t"] = time.time() - t
    return d


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for k, v in inputs.items():
            f.write("%s %d\n" % (k, v if v >= 0 else v + (1 << 64)))


def replay(exe, inputs_file, fill=None, valgrind=False):
    d = tempfile.mkdtemp(prefix="sxr", dir=BUILD)
    try:
        env = dict(os.environ, SX_REPLAY=inputs_file, SX_DIR=d)
        opts = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
        if fill is not None:
            opts += ":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill
        env["ASAN_OPTIONS"] = opts
        env["TSAN_OPTIONS"] = "exitcode=96:halt_on_error=1:ignore_noninstrumented_modules=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        cmd = [exe]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=97", exe]
        try:
            p = busy(subprocess.run, cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=d,
                               timeout=180, errors="replace")
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return -14, "TIMEOUT"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def outs_of(txt):
    return [[m.group(1), int(m.group(2))] for m in re.finditer(r"^SX-OUT (\S+) (\d+)$", txt, re.M)]


def confirm(cfg, work, v, path):
    """replay one counterexample on the natively built real code"""
    if v["kind"] == "race":
        # the exact schedule again, under ThreadSanitizer (the scheduler's own hand-over is hidden from it)
        exe = build.native(work, cfg, tsan=True)
        rc, txt = replay(exe, path)
        return rc not in (0, 77), rc, txt
    exe = build.native(work, cfg)
    rc, txt = replay(exe, path)
    if rc == 77:
        return False, rc, txt
    if rc != 0:
        return True, rc, txt
    # the counterexample may depend on the content of uninitialised memory
    if any("uninit" in k for k in v["inputs"]):
        outs = {json.dumps(outs_of(txt))}
        for fill in (0, 1, 0x7f, 0xff):
            rc, txt = replay(exe, path, fill)
            if rc not in (0, 77):
                return True, rc, txt
            outs.add(json.dumps(outs_of(txt)))
        if len(outs) > 1:
            return True, 97, "result depends on uninitialised memory"
        vexe = build.native(work, cfg, sanitize=False)
        rc, txt = replay(vexe, path, valgrind=True)
        if rc not in (0, 77):
            return True, rc, txt
    return False, rc, txt


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    keep = "--keep" in argv
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    import registry
    chk = registry.CHECKS[prop]
    if chk.get("engine") == "py":
        import pyrunner
        return pyrunner.main(prop, chk, tier, only)
    t0 = time.time()
    budget = int(os.environ["SX_BUDGET"]) if "SX_BUDGET" in os.environ else chk.get("budget", {}).get(tier, 800 if tier == "quick" else 7200)
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=BUILD)
    try:
        return check(prop, chk, tier, only, work, t0, deadline)
    except build.BuildError as e:
        print("ERROR property=%s build failed\n%s" % (prop, e))
        return 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def configs(chk, tier, only):
    cfgs = []
    for c in chk["configs"]:
        if tier not in c.get("tiers", ("quick", "thorough")):
            continue
        c = dict(c)
        c.setdefault("src", chk["src"])
        c.setdefault("mods", chk.get("mods", []))
        c.setdefault("reach", chk.get("reach", ["done"]))
        for k in ("hdf5", "opts", "query_ms"):
            if k in chk:
                c.setdefault(k, chk[k])
        c["name"] = re.sub(r"[^A-Za-z0-9_.-]", "_", c["name"])
        if only and not re.fullmatch(only, c["name"]):
            continue
        cfgs.append(c)
    return cfgs


def check(prop, chk, tier, only, work, t0, deadline):
    cfgs = configs(chk, tier, only)
    sup, jobs = build.support_bc()
    bcs, seen = {}, set()
    for c in cfgs:
        js, outs = build.sym_jobs(work, c)
        for j, o in zip(js, outs):
            if o not in seen:
                seen.add(o)
                jobs.append(j)
        bcs[c["name"]] = sup + outs
    with ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build.executor)
        fs = [ex.submit(build.run, j) for j in jobs]
        # report harness/source compile problems first
        for f in fs:
            f.result()
        exe = fe.result()
    t_build = time.time() - t0
    # heaviest first
    order = sorted(cfgs, key=lambda c: -c.get("cost", 1))
    nat_lock = {}
    validate = [c for c in cfgs if c.get("validate", False)] or cfgs[:1]
    res, nat = {}, {}
    with ThreadPoolExecutor(8) as ex:
        fr = {c["name"]: ex.submit(run_symx, exe, bcs[c["name"]], c, work, deadline) for c in order}
        fn = {c["name"]: ex.submit(build.native, work, c) for c in validate[:1]}
        by = {f: n for n, f in fr.items()}
        cn = {c["name"]: c for c in cfgs}
        # once a counterexample is confirmed on the real code the other configurations need not finish
        for f in as_completed(by):
            n = by[f]
            r = res[n] = f.result()
            if STOP.is_set() or only_all(r):
                continue
            for v in r["violations"]:
                if v["kind"] == "internal" or match_known(known(prop), n, v):
                    continue
                pth = os.path.join(REPLAY, "%s-%s-%d.txt" % (prop, n, 0))
                write_inputs(pth, v["inputs"])
                CONF[(n, v["kind"], v["msg"], v.get("where"))] = cf = confirm(cn[n], work, v, pth)
                if cf[0]:
                    STOP.set()
                break
        for n, f in fn.items():
            nat[n] = f.result()
    ks = known(prop)
    viol, kn, undecided = [], {}, []
    validated = 0
    tot = dict(states=0, paths=0, forks=0, merges=0, instructions=0, queries=0, sat=0, unsat=0, assert_queries=0,
               solver_s=0.0, vars=0)
    asserts, funcs, samples, per = {}, set(), [], []
    for c in cfgs:
        n, r = c["name"], res[c["name"]]
        if "stopped" in r:
            undecided.append("%s: stopped after a violation was confirmed" % n)
            continue
        if "error" in r:
            undecided.append("%s: %s" % (n, r["error"]))
            continue
        st = r["stats"]
        for k in tot:
            tot[k] += st.get(k, 0)
        for k, v in r["asserts"].items():
            asserts[k] = asserts.get(k, 0) + v
        funcs.update(r["functions"])
        per.append({"config": n, "defines": c.get("d", ""), "states": st["states"], "paths": st["paths"], "queries": st["queries"],
                    "symbolic_vars": st["vars"], "instructions": st["instructions"], "solver_s": st["solver_s"], "wall_s": round(r["t"], 2)})
        if r["incomplete"]:
            undecided.append("%s: exploration incomplete %s" % (n, json.dumps(r["incomplete"])[:400]))
        if st.get("unknown"):
            undecided.append("%s: %d solver unknowns" % (n, st["unknown"]))
        bad = False
        for v in r["violations"]:
            if v["kind"] == "internal":
                undecided.append("%s: %s" % (n, v["msg"]))
                bad = True
                continue
            bad = True
            k = match_known(ks, n, v)
            if k:
                kn.setdefault(k["id"], (k, c, v))
            else:
                viol.append((c, v))
        if not bad:
            miss = [l for l in c["reach"] if l not in r["reached"]]
            if miss:
                undecided.append("%s: vacuous, labels not reached: %s" % (n, miss))
        for s in r["samples"][:2]:
            if len(samples) < 6:
                samples.append({"config": n, "inputs": dict(list(s["inputs"].items())[:24]), "outs": s["outs"][:16]})
        if n in nat:
            for i, s in enumerate(r["samples"][:3]):
                pth = os.path.join(work, "s_%s_%d.txt" % (n, i))
                write_inputs(pth, s["inputs"])
                rc, txt = replay(nat[n], pth)
                got = outs_of(txt)
                if rc == 0 and got == [list(o) for o in s["outs"]]:
                    validated += 1
                elif not r["violations"]:
                    undecided.append("%s: sample replay disagrees with the symbolic run (rc=%d, native %s, symbolic %s) %s" %
                                     (n, rc, got[:8], s["outs"][:8], txt[-300:]))
    # counterexamples: replay on the real code
    rep = 0
    seenk = {}
    unconf = []
    for c, v in viol:
        key = (v["kind"], v["msg"], v.get("where"))
        if seenk.get(key, 0) >= 2 or rep >= 3:
            continue
        seenk[key] = seenk.get(key, 0) + 1
        pth = os.path.join(REPLAY, "%s-%s-%d.txt" % (prop, c["name"], len(seenk)))
        write_inputs(pth, v["inputs"])
        ok, rc, txt = CONF.get((c["name"],) + key) or confirm(c, work, v, pth)
        with open(pth + ".json", "w") as f:
            json.dump({"property": prop, "config": c, "violation": v, "native_rc": rc, "native_output": txt[:6000], "confirmed": ok}, f, indent=1)
        if ok:
            rep += 1
            print("VIOLATION property=%s replay=%s" % (prop, pth))
            print("  config=%s kind=%s msg=%s where=%s" % (c["name"], v["kind"], v["msg"], v.get("where")))
            print("  native rc=%d: %s" % (rc, " | ".join([l for l in txt.splitlines() if l.startswith("SX-FAIL") or "ERROR" in l or "runtime error" in l][:3])))
        else:
            unconf.append("%s: unconfirmed %s %s at %s (native rc=%d)" % (c["name"], v["kind"], v["msg"], v.get("where"), rc))
    for k, c, v in kn.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if unconf:
        undecided += unconf
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["forks"] + tot["states"] + tot["merges"],
                       "traces_validated_against_impl": validated, "samples": samples,
                       "paths_completed": tot["paths"], "ir_instructions_executed": tot["instructions"],
                       "symbolic_variables": tot["vars"], "solver_queries": tot["queries"], "queries_sat": tot["sat"],
                       "queries_unsat": tot["unsat"], "assertion_queries": tot["assert_queries"],
                       "solver_seconds": round(tot["solver_s"], 2), "assertions_checked": asserts,
                       "functions_encoded": sorted(demangle(f for f in funcs))[:120], "functions_encoded_count": len(funcs),
                       "bounds": chk.get("bounds", ""), "configs": per, "undecided": undecided,
                       "known_findings_seen": sorted(kn), "build_s": round(t_build, 1)},
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": rep}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d configs, %d states, %d paths, %d queries (%.1fs solver), %d assertion sites, %d traces validated, build %.1fs, wall %.1fs" %
          (prop, tier, len(cfgs), tot["states"], tot["paths"], tot["queries"], tot["solver_s"], len(asserts), validated, t_build, wall))
    if rep:
        return 1
    if undecided:
        for u in undecided:
            print("UNDECIDED property=%s %s" % (prop, u))
        return 2
    return 0


def demangle(names):
    names = [n for n in names]
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        out = p.stdout.splitlines()
    except Exception:
        out = names
    return [o[:160] for o in out if "stempy" in o or "ThreadPool" in o] or out[:40]
