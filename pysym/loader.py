"""Loads /repo's current Python package into a fresh module table, with numpy, h5py and the compiled
modules replaced.  symbolic=False loads the same files with the real numpy (replay)."""
import builtins, importlib, os, sys, types, unicodedata
import numpy as rnp
import core, symnp
from core import IV, FT, is_sym

PKG = os.path.join(os.environ.get("SX_REPO", "/repo"), "python", "stempy")


class _IntMeta(type):
    def __instancecheck__(c, x):
        if isinstance(x, symnp.Sym): return x.dtype is None and (isinstance(x.v, IV) or core.is_bool(x.v))
        return isinstance(x, c.real_)
    def __subclasscheck__(c, k): return issubclass(getattr(k, "real_", k), c.real_)
    def __eq__(c, o): return c is o or o is c.real_
    def __hash__(c): return hash(c.real_)


class Int(symnp.SInt, metaclass=_IntMeta):
    real_ = int
    def __new__(c, x=0, *a):
        if isinstance(x, str) and not a:
            return strint(x)
        if isinstance(x, symnp.SArr): x = x._one()
        if isinstance(x, symnp.Sym):
            v = core.as_int(x.v)
            if isinstance(v, FT):
                if core.E.fork(core.tab_bool(v.iv, ~rnp.isfinite(v.tab))): raise ValueError("cannot convert float to integer")
                v = core.ft_to_iv(v)
            return symnp.pys(v)
        return int(x, *a)
    from_bytes = int.from_bytes


class _FloatMeta(_IntMeta):
    def __instancecheck__(c, x):
        if isinstance(x, symnp.Sym): return (x.dtype is None or x.dtype == rnp.float64) and isinstance(x.v, FT)
        return isinstance(x, float)


class Float(metaclass=_FloatMeta):
    real_ = float
    def __new__(c, x=0.0):
        if isinstance(x, symnp.SArr): x = x._one()
        if isinstance(x, symnp.Sym):
            v = core.to_ft(x.v, rnp.float64)
            return symnp.pys(v)
        return float(x)


class _BoolMeta(_IntMeta):
    def __instancecheck__(c, x):
        if isinstance(x, symnp.Sym): return x.dtype is None and core.is_bool(x.v)
        return isinstance(x, bool)


class Bool(metaclass=_BoolMeta):
    real_ = bool
    def __new__(c, x=False): return bool(x)


symnp.PYTYPES.update({Int: int, Float: float, Bool: bool})

# decimal digits of symbolic numbers inside strings: one (non-ASCII) Unicode decimal digit per symbolic digit
POOL = [chr(i) for i in range(0x660, 0x20000) if unicodedata.category(chr(i)) == "Nd"]
DIGITS = {}


def symstr(v):
    "text of a symbolic integer"
    if core.E.fork(core.r_cmp("lt", v, 0)): return "-" + symstr(core.r_neg(v))
    n = 1
    while not core.E.fork(core.r_cmp("lt", v, 10 ** n)): n += 1
    out = ""
    for k in reversed(range(n)):
        d = core.r_mod(core.r_floordiv(v, 10 ** k), 10)
        if not core.is_sym(d): out += str(d); continue
        ch = POOL[len(DIGITS)]
        DIGITS[ch] = d
        out += ch
    return out


def char_eq(a, b):
    "condition that two characters are equal"
    if a in DIGITS or b in DIGITS:
        if not (a in DIGITS or a in "0123456789") or not (b in DIGITS or b in "0123456789"): return False
        f = lambda c: DIGITS[c] if c in DIGITS else int(c)
        return core.r_eq(f(a), f(b))
    return a == b


def globmatch(pat, name):
    "condition that name matches the shell pattern (*, ? and literals)"
    if "[" in pat: raise core.Unsupported("character class in a glob pattern")
    row = [True] + [False] * len(name)
    for p in pat:
        new = []
        for j in range(len(name) + 1):
            if p == "*": new.append(core.b_or(row[j], new[j - 1]) if j else row[j])
            elif not j: new.append(False)
            else: new.append(row[j - 1] if p == "?" else core.b_and(row[j - 1], char_eq(p, name[j - 1])) if row[j - 1] is not False else False)
        row = new
    return row[-1]


def strint(s):
    if not any(ch in DIGITS for ch in s): return int(s)
    t = s.strip()
    neg = t.startswith("-")
    if neg or t.startswith("+"): t = t[1:]
    v = 0
    if not t: raise ValueError("invalid literal for int() with base 10: %r" % s)
    for ch in t:
        if ch in DIGITS: d = DIGITS[ch]
        elif ch.isdigit() and ord(ch) < 128: d = int(ch)
        else: raise ValueError("invalid literal for int() with base 10: %r" % s)
        v = core.r_add(core.r_mul(v, 10), d)
    return symnp.pys(core.r_neg(v) if neg else v)


class Loader:
    def __init__(self, symbolic, extra=None):
        self.sym = symbolic
        self.mods = {}
        self.np = symnp.module() if symbolic else rnp
        if symbolic: self.mods["numpy"] = self.np
        self.mods.update(extra or {})
        self.b = dict(vars(builtins))
        self.b["__import__"] = self.imp
        if symbolic:
            self.b.update(int=Int, float=Float, bool=Bool)
            self.b["print"] = lambda *a, **k: None
            self.b["round"] = lambda x, n=None: symnp.round_(x) if isinstance(x, symnp.Sym) and n is None else round(x) if n is None else round(x, n)
        else:
            self.b["print"] = lambda *a, **k: None
        self.loaded = []

    def get(self, name):
        if name in self.mods: return self.mods[name]
        if name == "stempy" or name.startswith("stempy."):
            return self.load(name)
        return importlib.import_module(name)

    def load(self, name):
        rel = name.split(".")[1:]
        d = os.path.join(PKG, *rel)
        if os.path.isdir(d): f, pkg = os.path.join(d, "__init__.py"), True
        else: f, pkg = d + ".py", False
        if not os.path.exists(f): raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg: m.__path__ = [d]
        m.__dict__["__builtins__"] = self.b
        self.mods[name] = m
        par, _, leaf = name.rpartition(".")
        if par:
            setattr(self.get(par), leaf, m)
        src = open(f).read()
        self.loaded.append(os.path.relpath(f, os.path.dirname(PKG)))
        exec(compile(src, f, "exec"), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[:len(base) - level + 1]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top not in ("stempy",) and top not in self.mods:
            return __import__(name, globals, locals, fromlist or (), 0)
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            nm = ".".join(parts[:i])
            if nm in self.mods or nm.startswith("stempy"): self.get(nm)
        m = self.get(name) if name in self.mods else self._attr(name)
        if not fromlist: return self.get(top)
        for x in fromlist:
            if x != "*" and not hasattr(m, x) and name.startswith("stempy"):
                try: setattr(m, x, self.get(name + "." + x))
                except ModuleNotFoundError: pass
        return m

    def _attr(self, name):
        p = name.split(".")
        m = self.get(p[0])
        for x in p[1:]: m = getattr(m, x)
        return m
