"""python engine, one configuration: main.py PROP CONFIG_JSON OUT SECONDS   |   main.py --replay FILE"""
import importlib.util, json, os, sys, time, traceback, types
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks", "py"))
sys.path.append(os.path.join(VERIF, "build", "z3path"))
import warnings
warnings.simplefilter("ignore")
import numpy as rnp
import core, symnp, loader
from symnp import Sym, SArr, OBJ
sys.setrecursionlimit(20000)


def stubs():
    io = types.ModuleType("stempy._io")
    for n in "_reader _sector_reader _pyreader _threaded_reader _threaded_multi_pass_reader".split():
        setattr(io, n, type(n, (object,), {}))
    io._sector_reader.H5Format = types.SimpleNamespace(Frame=0, DataCube=1)
    return {"stempy._io": io, "stempy._image": types.ModuleType("stempy._image")}


class H:
    "what a harness uses; self.sym tells symbolic from concrete"
    def __init__(self, sym, eng=None, vals=None, extra=None, ld=None):
        self.sym, self.eng, self.vals = sym, eng, vals
        self.ld = ld
        self.np = ld.np
        self.fails = []
        self.outs = []
        self.dummy = rnp

    def mod(self, n): return self.ld.get(n)

    # ---- inputs
    def int(self, n, lo, hi):
        if self.sym:
            return symnp.pys(self.eng.rint(n, lo, hi))
        v = int(self.vals[n])
        assert lo <= v <= hi
        return v
    def bool(self, n):
        if self.sym: return symnp.pys(self.eng.rbool(n))
        return bool(self.vals[n])
    def pick(self, n, opts):
        "one of the options per path"
        i = self.int(n, 0, len(opts) - 1)
        return opts[i.__index__()]
    def cint(self, n, lo, hi):
        "an integer, concrete on each path"
        return self.int(n, lo, hi).__index__()
    def assume(self, c):
        if self.sym: self.eng.assume(c)
        elif not c: raise core.Cut()

    # ---- arrays
    def arr(self, vals, dtype, shape=None):
        "1-d array of scalars (each its own value), reshaped"
        vals = list(vals)
        if self.sym:
            d = rnp.dtype(dtype)
            a = symnp.mkarr([symnp.cast_raw(symnp.raw(v), d) for v in vals], (len(vals),), d)
        else:
            a = rnp.array(vals, dtype=dtype) if vals else rnp.empty(0, dtype)
        return a.reshape(shape) if shape is not None else a
    def obj(self, vals, shape):
        "object array holding the given objects"
        if self.sym:
            return symnp.mkarr(list(vals), shape, OBJ)
        a = rnp.empty(len(vals), dtype=object)
        for i, v in enumerate(vals): a[i] = v
        return a.reshape(shape)
    def flat(self, a):
        "list of the elements"
        if isinstance(a, SArr): return [symnp.scal(v, a.dtype) for v in a.vals()]
        if isinstance(a, rnp.ndarray): return list(a.ravel())
        return [a]

    # ---- logic (exact Python integers / booleans)
    def exact(self, x):
        "the mathematical value of an integer scalar"
        if isinstance(x, Sym):
            v = core.as_int(x.v)
            return symnp.pys(core.to_ft(v, rnp.float64) if isinstance(v, core.FT) else v)
        if isinstance(x, rnp.floating): return float(x)
        if isinstance(x, (rnp.integer, rnp.bool_, bool)): return int(x)
        if isinstance(x, SArr): return self.exact(x._one())
        if isinstance(x, rnp.ndarray): return self.exact(x[()])
        return x
    def ite(self, c, a, b):
        if isinstance(c, Sym): return symnp.pys(core.ite(core.as_bool(c.v), symnp.raw(a), symnp.raw(b)))
        return a if c else b
    def b(self, x):
        if isinstance(x, Sym): return symnp.pys(core.as_bool(x.v))
        return bool(x)
    def all(self, *xs):
        xs = xs[0] if len(xs) == 1 and not isinstance(xs[0], (Sym, bool, rnp.bool_)) else xs
        return symnp.pys(core.b_and(*[core.as_bool(symnp.raw(x)) for x in xs]))
    def any(self, *xs):
        xs = xs[0] if len(xs) == 1 and not isinstance(xs[0], (Sym, bool, rnp.bool_)) else xs
        return symnp.pys(core.b_or(*[core.as_bool(symnp.raw(x)) for x in xs]))
    def no(self, x): return symnp.pys(core.b_not(core.as_bool(symnp.raw(x))))
    def count(self, xs):
        s = 0
        for x in xs: s = s + self.ite(x, 1, 0)
        return s
    def sum(self, xs):
        s = 0
        for x in xs: s = s + x
        return s
    def isnan(self, x):
        v = symnp.raw(x)
        if isinstance(v, core.FT): return symnp.pys(core.tab_bool(v.iv, rnp.isnan(v.tab)))
        if isinstance(v, core.IV) or core.is_bool(v): return False
        return bool(rnp.isnan(v))
    def close(self, x, num, den=1, tol=1e-5):
        "x equals num/den up to relative tol (den an integer != 0)"
        e = self.fl(num) / self.fl(den)
        x = self.fl(x)
        d = x - e
        lim = tol * self.fabs(e) + tol
        return self.all(d <= lim, -d <= lim)
    def ratio(self, x, num, den, tol=1e-5):
        "x equals num/den up to tol (den a positive number): x * den is close to an integer, and that integer is num"
        y = self.fl(x) * den
        v = symnp.raw(y)
        if core.is_sym(v): k = symnp.pys(core.ft_to_iv(core.f_un(rnp.rint, v, rnp.float64)))
        elif rnp.isfinite(v): k = int(rnp.rint(v))
        else: return False
        return self.all(self.close(y, k, 1, tol), self.eq(k, num))
    def fl(self, x):
        v = symnp.raw(x)
        if core.is_sym(v): return symnp.pys(core.to_ft(v, rnp.float64))
        return float(v)
    def fabs(self, x):
        v = symnp.raw(x)
        if isinstance(v, core.FT): return symnp.pys(core.mkft(v.iv, rnp.abs(v.tab)))
        return abs(v)
    def eq(self, a, b):
        return symnp.pys(core.r_eq(symnp.raw(a), symnp.raw(b)))

    # ---- verdicts
    def check(self, c, msg):
        if self.sym: self.eng.check(c, msg)
        elif not bool(c): self.fails.append(msg)
    def fail(self, msg):
        if self.sym: self.eng.fail(msg)
        else: self.fails.append(msg)
        raise core.Cut()
    def reach(self, l):
        if self.sym: self.eng.reach(l)
    def out(self, *xs):
        pass
    def raises(self, fn, types, msg):
        "fn must raise one of the exception types"
        try:
            fn()
        except types:
            return
        self.fail(msg)

    # ---- common checks
    def same_ints(self, got, want, shape, msg):
        "array got has the shape and exactly the integer values want (flat list)"
        sh = tuple(getattr(got, "shape", ()))
        if sh != tuple(shape):
            return self.check(False, msg + ": shape")
        g = self.flat(got)
        if len(g) != len(want): return self.check(False, msg + ": size")
        self.check(self.all([self.eq(self.exact(x), w) for x, w in zip(g, want)] or [True]), msg)


def load_check(prop):
    f = os.path.join(VERIF, "checks", "py", prop + ".py")
    sp = importlib.util.spec_from_file_location("chk_" + prop, f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def concrete(chk, cfg, vals):
    """-> list of failures on the real code with the real numpy"""
    ex = stubs()
    if hasattr(chk, "extra"): ex.update(chk.extra(False, cfg))
    h = H(False, vals=vals, ld=loader.Loader(False, ex))
    try:
        chk.run(h, cfg)
    except core.Cut:
        pass
    except Exception as e:
        h.fails.append("exception %s" % type(e).__name__)
        h.tb = traceback.format_exc()
    return h


def symbolic(chk, cfg, deadline, max_viol=3):
    ex = stubs()
    if hasattr(chk, "extra"): ex.update(chk.extra(True, cfg))
    import fakeh5
    ex.setdefault("h5py", fakeh5.module())
    ld = loader.Loader(True, ex)
    eng = core.Engine(deadline)
    def fn(e):
        loader.DIGITS.clear()
        h = H(True, eng=e, ld=ld)
        try:
            chk.run(h, cfg)
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            rep = [f for f in tb if "/python/stempy" in f.filename]
            if os.environ.get("SX_TB"): traceback.print_exc()
            e.fail("exception %s" % type(x).__name__, "%s at %s" % (x, "%s:%d %s" % (rep[-1].filename.rpartition("/stempy/")[2], rep[-1].lineno, rep[-1].name) if rep else "harness: " + "".join(traceback.format_tb(x.__traceback__)[-2:])))
    eng.explore(fn, max_viol=max_viol)
    return eng, ld


def run(prop, cfg, seconds):
    t0 = time.time()
    chk = load_check(prop)
    r = dict(config=cfg["name"])
    eng, ld = symbolic(chk, cfg, t0 + seconds, cfg.get("max_viol", 3))
    r.update(stats=eng.stat, asserts=eng.asserts, incomplete=eng.incomplete, reached=sorted(eng.reached), files=sorted(set(ld.loaded)))
    # sample paths: the real code with the real numpy must agree that nothing fails
    r["validated"], r["disagree"], r["violations"] = 0, [], []
    for v in eng.viol:
        h = concrete(chk, cfg, v["inputs"])
        v["confirmed"] = bool(h.fails)
        v["native"] = h.fails[:3]
        v["tb"] = getattr(h, "tb", "")[-1500:]
        r["violations"].append(v)
    if not eng.viol:
        for m in eng.models:
            h = concrete(chk, cfg, m)
            if h.fails: r["disagree"].append(dict(inputs=m, fails=h.fails[:3], tb=getattr(h, "tb", "")[-1500:]))
            else: r["validated"] += 1
    r["samples"] = eng.models[:2]
    r["t"] = time.time() - t0
    return r


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        h = concrete(load_check(d["property"]), d["config"], d["violation"]["inputs"])
        print(h.fails, getattr(h, "tb", ""))
        sys.exit(1 if h.fails else 0)
    prop, cfg, out, sec = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3], float(sys.argv[4])
    r = run(prop, cfg, sec)
    json.dump(r, open(out, "w"))
