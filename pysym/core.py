"""Symbolic values and path exploration for the Python engine.

A raw value is a Python bool/int/float, a numpy scalar, a z3 BoolRef, an IV (mathematical integer
given by a z3 bit-vector wide enough for its interval: never wraps by itself) or an FT (a float
that is a finite function of one IV: the table holds the results of the real numpy operations, so
rounding is numpy's own).  numpy's wrap-around is applied explicitly by wrap()."""
import itertools, sys, time
import numpy as np
import z3


class Cut(BaseException):
    "this path is infeasible / outside the assumptions"


class Unsupported(BaseException):
    pass


class OutOfTime(BaseException):
    pass


E = None            # the running engine


def bits(lo, hi):
    w = max(lo.bit_length() + 1 if lo >= 0 else (-lo - 1).bit_length() + 1, hi.bit_length() + 1 if hi >= 0 else (-hi - 1).bit_length() + 1)
    return w


class IV:
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self):
        return "IV[%d,%d]" % (self.lo, self.hi)


class FT:
    __slots__ = ("iv", "tab")

    def __init__(self, iv, tab):
        self.iv, self.tab = iv, tab

    def __repr__(self):
        return "FT(%d)" % len(self.tab)


def is_bool(v):
    return isinstance(v, (bool, np.bool_, z3.BoolRef))


def is_sym(v):
    return isinstance(v, (IV, FT, z3.BoolRef))


def resize(e, w):
    n = e.size()
    if n == w:
        return e
    return z3.SignExt(w - n, e) if n < w else z3.Extract(w - 1, 0, e)


def mk(e, lo, hi):
    if lo == hi:
        return lo
    return IV(resize(e, bits(lo, hi)), lo, hi)


def ext(v, w):
    if isinstance(v, IV):
        return resize(v.e, w)
    return z3.BitVecVal(v, w)


def rng(v):
    if isinstance(v, IV):
        return v.lo, v.hi
    return v, v


def as_int(v):
    "bool raw -> int raw; float raw with integral value -> int; otherwise unchanged"
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return IV(z3.If(v, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if isinstance(v, np.integer):
        return int(v)
    return v


def as_bool(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, IV):
        return r_ne(v, 0)
    if isinstance(v, FT):
        return tab_bool(v.iv, v.tab != 0)
    return bool(v)


def b_not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def b_and(*xs):
    ys = []
    for x in xs:
        x = as_bool(x)
        if x is False:
            return False
        if x is not True:
            ys.append(x)
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(ys)


def b_or(*xs):
    ys = []
    for x in xs:
        x = as_bool(x)
        if x is True:
            return True
        if x is not False:
            ys.append(x)
    return False if not ys else ys[0] if len(ys) == 1 else z3.Or(ys)


def b_ite(c, a, b):
    if c is True or c is False:
        return a if c else b
    return b_or(b_and(c, a), b_and(b_not(c), b))


# ---------------------------------------------------------------- integers
def r_add(a, b):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return a + b
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = al + bl, ah + bh
    w = bits(lo, hi)
    w = max(w, bits(al, ah), bits(bl, bh))
    return mk(ext(a, w) + ext(b, w), lo, hi)


def r_neg(a):
    if not isinstance(a, IV):
        return -a
    w = bits(a.lo, a.hi) + 1
    return mk(-ext(a, w), -a.hi, -a.lo)


def r_sub(a, b):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return a - b
    (al, ah), (bl, bh) = rng(a), rng(b)
    if isinstance(a, IV) and isinstance(b, IV) and a.e.eq(b.e):
        return 0
    lo, hi = al - bh, ah - bl
    w = max(bits(lo, hi), bits(al, ah), bits(bl, bh))
    return mk(ext(a, w) - ext(b, w), lo, hi)


def r_mul(a, b):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return a * b
    (al, ah), (bl, bh) = rng(a), rng(b)
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    lo, hi = min(ps), max(ps)
    if isinstance(a, IV) and isinstance(b, IV) and a.e.eq(b.e):
        lo = 0 if al <= 0 <= ah else min(al * al, ah * ah)
    w = max(bits(min(ps), max(ps)), bits(al, ah), bits(bl, bh))
    return mk(ext(a, w) * ext(b, w), lo, hi)


def r_floordiv(a, b):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return a // b if b else 0
    (al, ah), (bl, bh) = rng(a), rng(b)
    if bl <= 0 <= bh:
        if isinstance(b, IV):
            if E.fork(r_eq(b, 0)):
                return 0
            b = IV(b.e, b.lo if b.lo else 1, b.hi if b.hi else -1)
            if b.lo == b.hi:
                b = b.lo
            (bl, bh) = rng(b)
        else:
            return 0
    cand = [x // y for x in (al, ah) for y in {bl, bh, -1 if bl <= -1 <= bh else bl, 1 if bl <= 1 <= bh else bh} if y]
    lo, hi = min(cand), max(cand)
    w = max(bits(al, ah), bits(bl, bh), bits(lo, hi)) + 1
    A, B = ext(a, w), ext(b, w)
    if al >= 0 and bl > 0:
        return mk(z3.UDiv(A, B), lo, hi)
    # floor division: (a - (a mod b)) / b with the sign of the divisor
    return mk((A - (A % B)) / B, lo, hi)


def r_mod(a, b):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return a % b if b else 0
    (al, ah), (bl, bh) = rng(a), rng(b)
    if bl <= 0 <= bh:
        if isinstance(b, IV):
            if E.fork(r_eq(b, 0)):
                return 0
            b = IV(b.e, b.lo if b.lo else 1, b.hi if b.hi else -1)
            if b.lo == b.hi:
                b = b.lo
            (bl, bh) = rng(b)
        else:
            return 0
    w = max(bits(al, ah), bits(bl, bh)) + 1
    A, B = ext(a, w), ext(b, w)
    if al >= 0 and bl > 0:
        if not isinstance(b, IV) and ah < b:
            return a
        return mk(z3.URem(A, B), 0, min(ah, bh - 1))
    lo = bl + 1 if bl < 0 else 0
    hi = bh - 1 if bh > 0 else 0
    return mk(A % B, lo, hi)          # z3 % is smod: sign of the divisor


def r_pow(a, b):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return a ** b
    if isinstance(b, IV):
        b = E.pick(b)
    r = 1
    for _ in range(b):
        r = r_mul(r, a)
    return r


def r_bit(op, a, b):
    if not isinstance(a, IV) and not isinstance(b, IV):
        return a & b if op == "and" else a | b if op == "or" else a ^ b
    (al, ah), (bl, bh) = rng(a), rng(b)
    w = max(bits(al, ah), bits(bl, bh))
    A, B = ext(a, w), ext(b, w)
    m = (1 << (w - 1)) - 1
    if op == "and":
        lo, hi = (0, min(x for x in (ah if al >= 0 else m, bh if bl >= 0 else m))) if al >= 0 or bl >= 0 else (-m - 1, m)
        return mk(A & B, lo, hi)
    lo = 0 if al >= 0 and bl >= 0 else -m - 1
    return mk(A | B if op == "or" else A ^ B, lo, m)


def r_shift(op, a, b):
    if isinstance(b, IV):
        b = E.pick(b)
    if not isinstance(a, IV):
        return a << b if op == "l" else a >> b
    return r_mul(a, 1 << b) if op == "l" else r_floordiv(a, 1 << b)


def r_cmp(op, a, b):
    a, b = as_int(a), as_int(b)
    if isinstance(a, (FT, float, np.floating)) or isinstance(b, (FT, float, np.floating)):
        return f_cmp(op, a, b)
    if not isinstance(a, IV) and not isinstance(b, IV):
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
    (al, ah), (bl, bh) = rng(a), rng(b)
    if op in ("gt", "ge"):
        return r_cmp("lt" if op == "gt" else "le", b, a)
    if op == "lt":
        if ah < bl: return True
        if al >= bh: return False
    if op == "le":
        if ah <= bl: return True
        if al > bh: return False
    if op in ("eq", "ne"):
        if ah < bl or bh < al: return op == "ne"
        if isinstance(a, IV) and isinstance(b, IV) and a.e.eq(b.e):
            return op == "eq"
    w = max(bits(al, ah), bits(bl, bh))
    A, B = ext(a, w), ext(b, w)
    if op == "eq": return A == B
    if op == "ne": return A != B
    if op == "lt": return A < B
    return A <= B


def r_eq(a, b): return r_cmp("eq", a, b)
def r_ne(a, b): return r_cmp("ne", a, b)


def affine(t):
    return len(t) < 2 or bool((t[1:] - t[:-1] == 1).all())


def ite_grid(c, A, B, dt):
    "both tables hold multiples of 1/k: choose between integers (keeps the tables small)"
    n = len(A.tab) + len(B.tab)
    if n < 4: return None
    for k in (1, 2, 4, 8):
        ts = [x.tab.astype(np.float64) * k for x in (A, B)]
        if all(np.isfinite(t).all() and (t == np.trunc(t)).all() and not np.signbit(t[t == 0]).any() for t in ts): break
    else:
        return None
    lo, hi = min(t.min() for t in ts), max(t.max() for t in ts)
    if hi - lo > 4 * n + 64 or abs(lo) > 1 << 20 or abs(hi) > 1 << 20: return None
    if any(len(t) > 64 and not affine(t) for t in ts): return None
    iv = ite(c, *[int(t[0]) if len(t) == 1 else ft_to_iv(FT(x.iv, t)) for x, t in zip((A, B), ts)])
    if not isinstance(iv, IV): return None
    return mkft(iv, (np.arange(iv.lo, iv.hi + 1) / k).astype(dt))


def ite(c, a, b):
    if c is True or c is False or isinstance(c, (bool, np.bool_)):
        return a if c else b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return b_ite(c, as_bool(a), as_bool(b))
    a, b = as_int(a), as_int(b)
    if isinstance(a, (FT, float, np.floating)) or isinstance(b, (FT, float, np.floating)):
        dt = np.float64
        for x in (a, b):
            if isinstance(x, FT): dt = x.tab.dtype
            elif isinstance(x, np.floating): dt = x.dtype
        A, B = to_ft(a, dt, True), to_ft(b, dt, True)
        r = ite_grid(c, A, B, dt)
        if r is not None: return r
        na = len(A.tab)
        i = ite(c, r_sub(A.iv, rng(A.iv)[0]), r_add(r_sub(B.iv, rng(B.iv)[0]), na))
        return mkft(fix_rng(i, 0, na + len(B.tab) - 1), np.concatenate([A.tab, B.tab]))
    if not isinstance(a, IV) and not isinstance(b, IV) and a == b:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = bits(lo, hi)
    return mk(z3.If(c, ext(a, w), ext(b, w)), lo, hi)


def fix_rng(i, lo, hi):
    if not isinstance(i, IV):
        return i
    return IV(resize(i.e, bits(lo, hi)), lo, hi)


def r_min(a, b): return ite(r_cmp("le", a, b), a, b)
def r_max(a, b): return ite(r_cmp("ge", a, b), a, b)


def wrap(v, dtype):
    "value of integer v stored in an integer dtype"
    v = as_int(v)
    ii = np.iinfo(dtype)
    lo, hi = int(ii.min), int(ii.max)
    l, h = rng(v)
    if lo <= l and h <= hi:
        return v
    n = ii.bits
    if not isinstance(v, IV):
        v &= (1 << n) - 1
        return v - (1 << n) if lo < 0 and v >= 1 << (n - 1) else v
    e = resize(v.e, max(n, v.e.size()))
    e = z3.Extract(n - 1, 0, e)
    return IV(e, lo, hi) if lo < 0 else IV(z3.ZeroExt(1, e), lo, hi)


# ---------------------------------------------------------------- floats
MAXTAB = 1 << 21


def tab_bool(iv, t):
    "z3 condition: table t (bool per value of iv) is true at iv"
    if t.all(): return True
    if not t.any(): return False
    lo, hi = rng(iv)
    neg = False
    d = np.flatnonzero(np.diff(t.astype(np.int8)))
    edges = [0] + [int(x) + 1 for x in d] + [len(t)]
    runs = [(edges[k], edges[k + 1] - 1) for k in range(len(edges) - 1)]
    tr = [r for r in runs if t[r[0]]]
    fr = [r for r in runs if not t[r[0]]]
    if len(fr) < len(tr):
        neg, tr = True, fr
    c = []
    for s, e in tr:
        s, e = s + lo, e + lo
        if s == e:
            c.append(r_eq(iv, s))
        else:
            c.append(b_and(r_cmp("ge", iv, s), r_cmp("le", iv, e)))
    r = b_or(*c)
    return b_not(r) if neg else r


def same(t):
    a = t[0]
    return bool(np.all((t == a) | (np.isnan(t) & np.isnan(a))))


def mkft(iv, tab):
    if not isinstance(iv, IV):
        lo = rng(iv)[0]
        raise AssertionError("concrete index")
    if same(tab):
        return tab[0]
    return FT(iv, tab)


def to_ft(v, dtype, force=False):
    dtype = np.dtype(dtype)
    v = as_int(v)
    if isinstance(v, FT):
        return FT(v.iv, v.tab.astype(dtype)) if v.tab.dtype != dtype else v
    if isinstance(v, IV):
        if v.hi - v.lo >= MAXTAB:
            v = E.pick(v)
            return to_ft(v, dtype, force)
        return FT(v, np.arange(v.lo, v.hi + 1, dtype=np.int64).astype(dtype))
    c = dtype.type(v)
    if force:
        return FT(0, np.array([c], dtype))
    return c


def f_un(fn, v, dtype, rdt=None):
    v = to_ft(v, dtype)
    with np.errstate(all="ignore"):
        if not isinstance(v, FT):
            return fn(v)
        t = fn(v.tab)
    if t.dtype == bool:
        return tab_bool(v.iv, t)
    return mkft(v.iv, t)


def f_bin(fn, a, b, dtype):
    a, b = to_ft(a, dtype), to_ft(b, dtype)
    with np.errstate(all="ignore"):
        if not isinstance(a, FT) and not isinstance(b, FT):
            return fn(a, b)
        if not isinstance(a, FT):
            iv, t = b.iv, fn(a, b.tab)
        elif not isinstance(b, FT):
            iv, t = a.iv, fn(a.tab, b)
        elif a.iv is b.iv or a.iv.e.eq(b.iv.e):
            iv, t = a.iv, fn(a.tab, b.tab)
        else:
            a, b = compress(a), compress(b)
            if len(a.tab) * len(b.tab) > MAXTAB:
                # split on the smaller one
                if len(a.tab) <= len(b.tab):
                    return f_bin(fn, a.tab[E.pick(a.iv) - a.iv.lo], b, dtype)
                return f_bin(fn, a, b.tab[E.pick(b.iv) - b.iv.lo], dtype)
            n = len(b.tab)
            iv = r_add(r_mul(r_sub(a.iv, a.iv.lo), n), r_sub(b.iv, b.iv.lo))
            t = fn(a.tab[:, None], b.tab[None, :]).ravel()
    t = np.asarray(t)
    if t.dtype == bool:
        return tab_bool(iv, t)
    return mkft(iv, t)


def compress(f):
    "few distinct values in runs: re-index"
    t = f.tab
    if len(t) < 64:
        return f
    ch = np.flatnonzero((t[1:] != t[:-1]) & ~(np.isnan(t[1:]) & np.isnan(t[:-1])))
    if len(ch) + 1 > len(t) // 4 or len(ch) > 400:
        return f
    starts = [0] + [int(x) + 1 for x in ch]
    i = 0
    for k, s in enumerate(starts):
        if k:
            i = ite(r_cmp("ge", f.iv, f.iv.lo + s), k, i)
    return FT(fix_rng(i, 0, len(starts) - 1), t[starts])


def f_cmp(op, a, b):
    fn = {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal}[op]
    dts = [x.tab.dtype if isinstance(x, FT) else x.dtype if isinstance(x, np.floating) else None for x in (a, b)]
    dts = [d for d in dts if d is not None] or [np.dtype(np.float64)]
    return f_bin(fn, a, b, max(dts, key=lambda d: d.itemsize))


def ft_to_iv(v):
    "truncation to an integer"
    if not isinstance(v, FT):
        return int(v)
    t = np.trunc(v.tab)
    if np.isnan(t).any() or np.isinf(t).any():
        bad = tab_bool(v.iv, ~np.isfinite(v.tab))
        if E.fork(bad):
            return -(1 << 63)
        t = np.where(np.isfinite(t), t, 0)
    ti = [int(x) for x in t]
    lo = v.iv.lo
    if all(b - a == 1 for a, b in zip(ti, ti[1:])):
        return r_add(v.iv, ti[0] - lo)
    r = ti[0]
    for k in range(1, len(ti)):
        if ti[k] != ti[k - 1]:
            r = ite(r_cmp("ge", v.iv, lo + k), ti[k], r)
    return r


# ---------------------------------------------------------------- engine
class Engine:
    concrete = False

    def __init__(self, deadline, query_ms=60000):
        self.work = [[]]
        self.deadline = deadline
        self.qms = query_ms
        self.stat = dict(paths=0, cut=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, assert_queries=0, solver_s=0.0, vars=0)
        self.asserts = {}
        self.viol = []
        self.models = []
        self.reached = set()
        self.incomplete = None

    def _check(self, *assum):
        if time.time() > self.deadline:
            raise OutOfTime()
        t = time.time()
        r = self.s.check(*assum)
        self.stat["solver_s"] += time.time() - t
        self.stat["queries"] += 1
        k = str(r)
        self.stat[k] += 1
        if k == "unknown":
            raise Unsupported("solver unknown: " + self.s.reason_unknown())
        return k == "sat"

    def add(self, c):
        if c is True: return
        self.s.add(z3.BoolVal(False) if c is False else c)

    def fork(self, c):
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self._check(c)
            f = self._check(z3.Not(c)) if t else True
            if t and f:
                self.work.append(self.prefix + [False])
                self.stat["forks"] += 1
                d = True
            else:
                d = t
            self.prefix = self.prefix + [d]
        self.pos += 1
        self.s.add(c if d else z3.Not(c))
        return d

    def pick(self, iv):
        "one concrete value of iv per path, all of them over all paths"
        if not isinstance(iv, IV):
            return iv
        e = z3.simplify(iv.e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        vals = range(iv.lo, iv.hi + 1)
        if len(vals) <= 64:
            # binary search keeps the decision path short
            lo, hi = iv.lo, iv.hi
            while lo < hi:
                m = (lo + hi) // 2
                if self.fork(r_cmp("le", iv, m)):
                    hi = m
                else:
                    lo = m + 1
            return lo
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if isinstance(v, tuple):
                    self.pos += 1
                    if self.fork(r_eq(iv, v[0])):
                        return v[0]
                    continue
            if not self._check():
                raise Cut()
            v = self.s.model().eval(iv.e, model_completion=True).as_signed_long()
            self.prefix = self.prefix + [(v,)]
            self.pos += 1
            if self.fork(r_eq(iv, v)):
                return v

    # ---- harness interface
    def _name(self, n):
        if n in self.vars:
            raise AssertionError("variable " + n + " twice")
        return n

    def rint(self, n, lo, hi):
        self._name(n)
        if lo == hi:
            self.vars[n] = lo
            return lo
        w = bits(lo, hi)
        v = z3.BitVec(n, w)
        self.vars[n] = v
        if lo != -(1 << (w - 1)): self.s.add(v >= lo)
        if hi != (1 << (w - 1)) - 1: self.s.add(v <= hi)
        return IV(v, lo, hi)

    def rbool(self, n):
        self._name(n)
        v = z3.Bool(n)
        self.vars[n] = v
        return v

    def model_vals(self):
        m = self.s.model()
        r = {}
        for n, v in self.vars.items():
            if isinstance(v, int):
                r[n] = v
            elif isinstance(v, z3.BoolRef):
                r[n] = int(z3.is_true(m.eval(v, model_completion=True)))
            else:
                r[n] = m.eval(v, model_completion=True).as_signed_long()
        return r

    def assume(self, c):
        c = raw_bool(c)
        if c is True: return
        if c is False: raise Cut()
        self.s.add(c)
        if not self._check():
            raise Cut()

    def check(self, c, msg):
        self.asserts[msg] = self.asserts.get(msg, 0) + 1
        c = raw_bool(c)
        if c is True: return
        self.pending.append((c, msg))

    def flush(self):
        if not self.pending: return
        P, self.pending = self.pending, []
        self.stat["assert_queries"] += 1
        allc = b_and(*[c for c, m in P])
        if allc is True: return
        neg = b_not(allc)
        sat = self._check() if neg is True else self._check(neg)
        if not sat:
            return
        m = self.s.model()
        msg = next((g for c, g in P if c is False or z3.is_false(m.eval(c, model_completion=True))), P[0][1])
        self.viol.append(dict(msg=msg, inputs=self.model_vals()))

    def fail(self, msg, detail=""):
        "reached on this path only in error"
        self.pending = []
        if self._check():
            self.viol.append(dict(msg=msg, detail=detail, inputs=self.model_vals()))

    def reach(self, label):
        self.reached.add(label)

    def explore(self, fn, max_viol=3, n_models=4):
        global E
        E = self
        try:
            while self.work:
                self.prefix = self.work.pop()
                self.pos = 0
                self.s = z3.SolverFor("QF_BV")
                self.s.set("timeout", self.qms)
                self.vars = {}
                self.pending = []
                try:
                    fn(self)
                    self.flush()
                    self.stat["paths"] += 1
                    self.stat["vars"] = max(self.stat["vars"], len(self.vars))
                    if len(self.models) < n_models or (self.stat["paths"] in (20, 100, 500)):
                        if self._check():
                            self.models.append(self.model_vals())
                except Cut:
                    self.stat["cut"] += 1
                if len(self.viol) >= max_viol:
                    if self.work: self.incomplete = "stopped after %d violations" % len(self.viol)
                    break
        except OutOfTime:
            self.incomplete = "time budget"
        except Unsupported as e:
            self.incomplete = "unsupported: %s" % e
        return self


def raw_bool(c):
    r = getattr(c, "_raw", None)
    if r is not None:
        c = r()
    return as_bool(c)
