"""Builds the executor, the LLVM IR of harness + repo sources and the native
replay programs.  Everything lands in /verif/build (git-ignored)."""
import hashlib, os, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18"
SYM_FLAGS = ("-O1 -std=c++14 -emit-llvm -c -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-vectorize "
             "-fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-strict-aliasing "
             "-fno-delete-null-pointer-checks -fno-math-errno -fno-builtin-printf -Wno-everything -DNDEBUG "
             "-DSX_SYM -include sx_prelude.h").split()
NAT_FLAGS = ("-O0 -g -std=c++14 -include sx_prelude.h -fno-omit-frame-pointer -ffunction-sections -ffp-contract=off -Wno-everything -DNDEBUG "
             "-fsanitize=address,null,bounds,float-cast-overflow,integer-divide-by-zero,vla-bound "
             "-fno-sanitize-recover=all").split()
MODULES = {
    "reader": "stempy/reader.cpp", "mask": "stempy/mask.cpp", "image": "stempy/image.cpp",
    "electron": "stempy/electron.cpp", "electronthresholds": "stempy/electronthresholds.cpp",
    "pyreader": "python/pyreader.cpp", "h5": "h5cpp/h5readwrite.cpp",
    "reader_mpi": "stempy/reader_mpi.cpp", "electron_mpi": "stempy/electron_mpi.cpp",
}
EIGEN = {"electronthresholds", "electron"}


class BuildError(Exception):
    pass


def busy(fn, cmd, **kw):
    "retry when a concurrent fork still holds the new executable open for writing"
    for i in range(50):
        try: return fn(cmd, **kw)
        except OSError as e:
            if e.errno != 26 or i == 49: raise
            time.sleep(0.1)


def run(cmd, **kw):
    p = busy(subprocess.run, cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:16]


def tree(d):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs]
    return sorted(out)


def par(jobs):
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, j) for j in jobs]
        for f in fs:
            f.result()


def executor():
    src = os.path.join(VERIF, "symx")
    h = hash_files(tree(src))
    d = os.path.join(BUILD, "symx-" + h)
    exe = os.path.join(d, "symx")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "t%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    par([[CLANG, "-O1", "-std=c++17", "-I/usr/lib/llvm-18/include", "-c", src + "/decode.cpp", "-o", tmp + "/decode.o"],
         ["g++", "-O2", "-std=c++17", "-c", src + "/exec.cpp", "-o", tmp + "/exec.o"],
         ["g++", "-O2", "-std=c++17", "-c", src + "/expr.cpp", "-o", tmp + "/expr.o"]])
    run(["g++", tmp + "/decode.o", tmp + "/exec.o", tmp + "/expr.o", "-o", tmp + "/symx",
         "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    os.rename(tmp + "/symx", exe)
    return exe


def cfgdir(hdf5):
    d = os.path.join(BUILD, "cfg-hdf5" if hdf5 else "cfg")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "config.h")
    body = "#ifndef CONFIG_H_\n#define CONFIG_H_\n%s#endif\n" % ("#define ENABLE_HDF5\n" if hdf5 else "")
    if not os.path.exists(f) or open(f).read() != body:
        t = f + ".%d" % os.getpid()
        open(t, "w").write(body)
        os.rename(t, f)
    return d


OPTIONAL = ("electron", "h5", "reader_mpi", "electron_mpi")  # linked only where a check asks for them
MPI = ["-DUSE_MPI", "-I" + VERIF + "/shim/mpi", "-I" + REPO + "/thirdparty/Empirical/include"]


def variant(cfg):
    return ("_h5" if cfg.get("hdf5") else "") + ("_mpi" if cfg.get("mpi") else "")


def includes(sym, hdf5):
    r = []
    if sym:
        r += ["-I" + VERIF + "/shim/sym"]
    r += ["-I" + VERIF + "/shim/thr", "-I" + VERIF + "/shim/both", "-I" + VERIF + "/harness", "-I" + cfgdir(hdf5), "-I" + VERIF + "/checks",
          "-I" + VERIF + "/shim/eigen"]
    if hdf5:
        r += ["-isystem", "/usr/include/hdf5/serial"]
    r += ["-I" + REPO, "-I" + REPO + "/thirdparty/ThreadPool", "-I" + REPO + "/python"]
    return r


def support_bc():
    files = tree(VERIF + "/harness") + tree(VERIF + "/shim")
    d = os.path.join(BUILD, "sup-" + hash_files(files, " ".join(SYM_FLAGS)))
    outs = {n: os.path.join(d, n + ".bc") for n in ("support", "sxrt", "sxios", "sxlm")}
    if all(os.path.exists(o) for o in outs.values()):
        return list(outs.values()), []
    os.makedirs(d, exist_ok=True)
    jobs = []
    for n, o in outs.items():
        f = SYM_FLAGS + includes(True, False)
        if n == "support":
            f = f + ["-fno-builtin", "-std=c++17"]
        jobs.append([CLANG] + f + [VERIF + "/harness/" + n + ".cpp", "-o", o])
    return list(outs.values()), jobs


def sym_jobs(work, cfg):
    """jobs and outputs for one harness configuration"""
    jobs, outs = [], []
    hdf5 = cfg.get("hdf5", False)
    base = SYM_FLAGS + includes(True, hdf5) + (MPI if cfg.get("mpi") else [])
    o = os.path.join(work, "h_%s.bc" % cfg["name"])
    jobs.append([CLANG] + base + cfg.get("d", "").split() + [VERIF + "/checks/" + cfg["src"], "-o", o])
    outs.append(o)
    for m in cfg["mods"]:
        o = os.path.join(work, "r_%s%s.bc" % (m, variant(cfg)))
        jobs.append([CLANG] + base + [REPO + "/" + MODULES[m], "-o", o])
        outs.append(o)
    return jobs, outs


def native(work, cfg, sanitize=True, tsan=False):
    hdf5 = cfg.get("hdf5", False)
    flags = NAT_FLAGS if sanitize and not tsan else [f for f in NAT_FLAGS if "sanitize" not in f]
    tag = "t" if tsan else "n" if sanitize else "v"
    if tsan:
        flags = flags + ["-fsanitize=thread", "-DSX_TSAN", "-fsanitize-ignorelist=" + VERIF + "/vlib/tsan_ignore.txt"]
    inc = includes(False, hdf5) + (MPI if cfg.get("mpi") else [])
    jobs, objs = [], []
    seen = set()

    def add(src, o, extra):
        o = os.path.join(work, o)
        objs.append(o)
        if not os.path.exists(o):
            jobs.append([CLANG] + flags + inc + extra + ["-c", src, "-o", o])
    add(VERIF + "/checks/" + cfg["src"], "%s_h_%s.o" % (tag, cfg["name"]), cfg.get("d", "").split())
    for s in ("sx_native", "sxrt", "sxlm"):
        add(VERIF + "/harness/%s.cpp" % s, "%s_%s.o" % (tag, s), ["-fno-sanitize=thread"] if tsan else [])
    body = open(VERIF + "/checks/" + cfg["src"]).read()
    for m in [m for m in MODULES if (m not in OPTIONAL or m in cfg["mods"]) and '"%s"' % MODULES[m] not in body]:
        add(REPO + "/" + MODULES[m], "%s_r_%s%s.o" % (tag, m, variant(cfg)), [])
    par(jobs)
    exe = os.path.join(work, "%s_%s.exe" % (tag, cfg["name"]))
    run([CLANG] + [f for f in flags if f.startswith("-fsanitize=")] + objs + ["-o", exe, "-lpthread", "-Wl,--gc-sections"] + (["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5"] if hdf5 else []))
    return exe
