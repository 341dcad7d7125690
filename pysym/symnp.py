"""numpy with symbolic elements.  Shapes, strides, views, broadcasting and result dtypes are numpy's own
(computed by the real numpy on index arrays and dummies); only element values are symbolic.
Anything not modelled falls back to the real numpy after splitting the path on every value of the symbolic arguments."""
import builtins, copy as _copy, operator, sys, types
import numpy as rnp
import core
from core import *
import z3

OBJ = rnp.dtype(object)


def dt(d):
    "real dtype of a dtype-like"
    if d is None:
        return None
    if isinstance(d, type) and issubclass(d, (SInt,)):
        return rnp.dtype(rnp.int64)
    if d in PYTYPES:
        return rnp.dtype(PYTYPES[d])
    return rnp.dtype(d)


PYTYPES = {}          # overridden int/float/bool classes -> real ones (filled by the loader)


class SInt:
    pass


# ------------------------------------------------------------------ scalars
def cast_raw(v, d):
    "raw value v stored in dtype d"
    k = d.kind
    if k == "b":
        return as_bool(v)
    if k in "iu":
        v = as_int(v)
        if isinstance(v, (float, rnp.floating)):
            return int(rnp.asarray(v).astype(d))
        if isinstance(v, FT):
            v = ft_to_iv(v)
        return wrap(v, d)
    if k == "f":
        v = as_int(v)
        if isinstance(v, IV):
            m = 1 << {2: 11, 4: 24, 8: 53}.get(d.itemsize, 53)
            if -m <= v.lo and v.hi <= m:
                return v
            return to_ft(v, d)
        if isinstance(v, FT):
            return to_ft(v, d)
        return d.type(v)
    if is_sym(v):
        raise Unsupported("cast of a symbolic value to %s" % d)
    return v


def conc(v, d):
    "concrete raw value -> real numpy scalar"
    if d is None or d == OBJ:
        return v
    return d.type(v)


def scal(v, d):
    "raw value -> what indexing an array of dtype d gives"
    if d == OBJ:
        if is_sym(v):
            return Sym(v, None)
        return v
    if is_sym(v):
        return Sym(v, d)
    return d.type(v)


SYMSTR = None    # set: how symbolic integers become text


class Sym:
    """symbolic scalar; dtype None: Python int/bool/float"""
    __array_ufunc__ = None
    __slots__ = ("v", "dtype")
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, v, dtype):
        self.v, self.dtype = v, dtype

    def _raw(self): return self.v
    def __bool__(self): return core.E.fork(as_bool(self.v))

    def _conc(self):
        v = self.v
        if isinstance(v, z3.BoolRef):
            v = core.E.fork(v)
        elif isinstance(v, IV):
            v = core.E.pick(v)
        elif isinstance(v, FT):
            v = v.tab[core.E.pick(v.iv) - v.iv.lo]
        if self.dtype is None:
            return v if not isinstance(v, rnp.generic) else v.item()
        return self.dtype.type(v)

    def __index__(self):
        return operator.index(self._conc())
    def __int__(self): return int(self._conc())
    def __float__(self): return float(self._conc())
    def __hash__(self): return hash(self._conc())
    def __str__(self): return str(self._conc()) if SYMSTR is None or not isinstance(self.v, IV) else SYMSTR(self.v)
    def __repr__(self): return "Sym(%r)" % (self.v,)
    def __format__(self, s): return format(self._conc(), s) if s or SYMSTR is None else str(self)
    def __round__(self, n=0): return round_(self) if not n else round(self._conc(), n)
    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def item(self): return Sym(self.v, None)
    def astype(self, d, copy=True):
        d = dt(d); return scal(cast_raw(self.v, d), d)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if self.dtype is None: raise AttributeError(n)
        if n == "T": return self
        return getattr(SArr([self.v], rnp.array(0), self.dtype), n)
    @property
    def real(self): return self
    def __getitem__(self, k):
        return SArr([self.v], rnp.array(0), self.dtype)[k]
    def is_integer(self): return True
    def bit_length(self): return int(self._conc()).bit_length()


def _binops(cls):
    def add(nm, uf):
        def f(self, o):
            if isinstance(o, (list, tuple)) and isinstance(self, Sym): return NotImplemented
            if isinstance(o, (str, type(None))):
                if nm == "eq": return False
                if nm == "ne": return True
                return NotImplemented
            return ufunc(uf, self, o)
        def r(self, o):
            if isinstance(o, (str, type(None))): return NotImplemented
            return ufunc(uf, o, self)
        setattr(cls, "__%s__" % nm, f)
        if nm not in ("eq", "ne", "lt", "le", "gt", "ge"):
            setattr(cls, "__r%s__" % nm, r)
    for nm, uf in dict(add="add", sub="subtract", mul="multiply", truediv="true_divide", floordiv="floor_divide", mod="remainder",
                       pow="power", lshift="left_shift", rshift="right_shift", xor="bitwise_xor", eq="equal", ne="not_equal",
                       lt="less", le="less_equal", gt="greater", ge="greater_equal").items():
        add(nm, uf)
    setattr(cls, "__and__", lambda s, o: ufunc("bitwise_and", s, o))
    setattr(cls, "__or__", lambda s, o: ufunc("bitwise_or", s, o))
    setattr(cls, "__rand__", lambda s, o: ufunc("bitwise_and", o, s))
    setattr(cls, "__ror__", lambda s, o: ufunc("bitwise_or", o, s))
    setattr(cls, "__neg__", lambda s: ufunc("negative", s))
    setattr(cls, "__pos__", lambda s: s)
    setattr(cls, "__abs__", lambda s: ufunc("absolute", s))
    setattr(cls, "__invert__", lambda s: ufunc("invert", s))
    setattr(cls, "__divmod__", lambda s, o: (ufunc("floor_divide", s, o), ufunc("remainder", s, o)))
    setattr(cls, "__rdivmod__", lambda s, o: (ufunc("floor_divide", o, s), ufunc("remainder", o, s)))


_binops(Sym)


# ------------------------------------------------------------------ arrays
class SArr:
    __array_ufunc__ = None
    __array_priority__ = 1000
    __hash__ = None

    def __new__(cls, buf, ix, dtype):
        self = object.__new__(cls)
        self.buf, self.ix, self.dtype = buf, ix, dtype
        return self
    def __init__(self, *a, **k): pass
    def _like(self, r):
        "new array r as the subclass of self"
        if type(self) is SArr: return r
        r.__class__ = type(self)
        if hasattr(r, "__array_finalize__"): r.__array_finalize__(self)
        return r

    # ---- attributes
    @property
    def shape(self): return self.ix.shape
    @shape.setter
    def shape(self, s): self.ix = self.reshape(s).ix
    @property
    def ndim(self): return self.ix.ndim
    @property
    def size(self): return self.ix.size
    @property
    def T(self): return self._view(self.ix.T)
    @property
    def flat(self): return _Flat(self)
    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def nbytes(self): return self.dtype.itemsize * self.size
    @property
    def real(self): return self
    @property
    def flags(self): return self.ix.flags
    @property
    def strides(self): return tuple(x // 8 * self.dtype.itemsize for x in self.ix.strides)
    @property
    def base(self): return None

    def _view(self, ix):
        r = object.__new__(type(self))
        r.buf, r.ix, r.dtype = self.buf, ix, self.dtype
        if hasattr(r, "__array_finalize__"): r.__array_finalize__(self)
        return r

    def vals(self):
        b = self.buf
        return [b[i] for i in self.ix.ravel()]

    def __len__(self):
        if not self.ix.ndim: raise TypeError("len() of unsized object")
        return self.ix.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(scal(self.vals()[0], self.dtype)) if self.dtype != OBJ else bool(self.vals()[0])
        if self.size == 0: return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.size != 1: raise TypeError("only length-1 arrays can be converted to Python scalars")
        return scal(self.vals()[0], self.dtype)
    def __int__(self): return int(self._one())
    def __index__(self):
        if self.ndim or self.dtype.kind not in "iu": raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._one())
    def __float__(self): return float(self._one())
    def item(self, *a):
        v = self._one() if not a else self.ravel()[a[0]]
        return Sym(v.v, None) if isinstance(v, Sym) else v.item() if isinstance(v, rnp.generic) else v
    def __contains__(self, x): return bool(any_(self == x))
    def __repr__(self): return "SArr(%s, %s, %r)" % (self.shape, self.dtype, self.vals()[:8])
    __str__ = __repr__
    def __format__(self, s): return repr(self)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo):
        r = self.copy()
        if self.dtype == OBJ:
            r.buf = [_copy.deepcopy(x) for x in r.buf]
        return r

    # ---- copies and views
    def copy(self, order="C"):
        r = mkarr(self.vals(), self.shape, self.dtype)
        return self._like(r)

    def astype(self, d, order="K", casting="unsafe", subok=True, copy=True):
        r = self._astype(d, order, casting, subok, copy)
        if r is not self and (order == "F" or order in ("K", "A") and self.ix.ndim > 1 and not self.ix.flags.c_contiguous):
            ix = rnp.empty_like(self.ix, order=order)
            if not ix.flags.c_contiguous:
                ix[...] = r.ix
                r.ix = ix
        return r

    def _astype(self, d, order, casting, subok, copy):
        d = dt(d)
        if casting != "unsafe" and not rnp.can_cast(self.dtype, d, casting):
            raise TypeError("Cannot cast array data from %r to %r according to the rule %r" % (self.dtype, d, casting))
        if not copy and d == self.dtype: return self
        if self.dtype == OBJ and d != OBJ:
            return asarr(nest(self), d)
        if d == OBJ:
            return mkarr([x if is_sym(x) else conc(x, self.dtype).item() for x in self.vals()], self.shape, d)
        r = mkarr([cast_raw(v, d) for v in self.vals()], self.shape, d)
        return self._like(r) if subok else r

    def view(self, cls=None, dtype=None):
        if isinstance(cls, type) and issubclass(cls, SArr):
            r = object.__new__(cls)
            r.buf, r.ix, r.dtype = self.buf, self.ix, self.dtype
            if hasattr(r, "__array_finalize__"): r.__array_finalize__(self)
            return r
        if cls is None: return self._view(self.ix)
        d = dt(cls)
        if d == self.dtype: return self._view(self.ix)
        if d.itemsize == self.dtype.itemsize and d.kind in "iu" and self.dtype.kind in "iu":
            return self.astype(d)      # same bits (aliasing of the view is not modelled)
        return wrapreal(realarr(self).view(d))

    def reshape(self, *s, order="C"):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        s = tuple(operator.index(x) for x in s)
        n = self.ix.reshape(s, order=order)
        if self.size and not rnp.shares_memory(n, self.ix):
            return mkarr([self.buf[i] for i in n.ravel()], n.shape, self.dtype)
        return self._view(n)

    def ravel(self, order="C"): return self.reshape(-1, order=order)
    def flatten(self, order="C"):
        r = self.ravel(order); return r.copy()
    def transpose(self, *a):
        if len(a) == 1 and isinstance(a[0], (tuple, list)): a = tuple(a[0])
        return self._view(self.ix.transpose(*a))
    def swapaxes(self, a, b): return self._view(self.ix.swapaxes(a, b))
    def squeeze(self, axis=None): return self._view(self.ix.squeeze(axis))
    def diagonal(self, *a): return self._view(rnp.diagonal(self.ix, *a))
    def tolist(self):
        if not self.ndim: return scal(self.vals()[0], self.dtype)
        return [x.tolist() if isinstance(x, SArr) else (Sym(x.v, None) if isinstance(x, Sym) else x.item() if isinstance(x, rnp.generic) else x) for x in self]
    def fill(self, v): self[...] = v

    # ---- indexing
    def __getitem__(self, key):
        if isinstance(key, str): raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        key, syms = normkey(self, key)
        if not syms:
            r = self.ix[key]
            if isinstance(r, rnp.ndarray):
                if isbasic(key): return self._view(r)
                return mkarr([self.buf[i] for i in r.ravel()], r.shape, self.dtype)
            return scal(self.buf[int(r)], self.dtype)
        out, shape, scalar = gather(self, key, syms)
        vals = []
        for cands in out:
            v = None
            for c, pos in reversed(cands):
                v = self.buf[pos] if v is None else core.ite(c, self.buf[pos], v) if not isinstance(self.buf[pos], SArr) else objite(c, self.buf[pos], v)
            vals.append(v)
        if scalar: return scal(vals[0], self.dtype)
        return mkarr(vals, shape, self.dtype)

    def __setitem__(self, key, val):
        key, syms = normkey(self, key)
        if not syms:
            t = self.ix[key]
            if self.dtype == OBJ:
                if not isinstance(t, rnp.ndarray):
                    self.buf[int(t)] = rawobj(val); return
                v = objdisc(val)
            else:
                v = val if isinstance(val, SArr) else asarr(val, None)
                if v.dtype == OBJ: v = asarr(nest(v), self.dtype)
            if not isinstance(t, rnp.ndarray): t = rnp.asarray(t)
            bx = bcast_assign(v.ix, t.shape)
            src = [v.buf[i] for i in bx.ravel()]
            for p, x in zip(t.ravel(), src):
                self.buf[p] = x if self.dtype == OBJ else self._cast_in(x, v.dtype)
            return
        if self.dtype == OBJ: raise Unsupported("symbolic index into an object array")
        out, shape, scalar = gather(self, key, syms)
        v = val if isinstance(val, SArr) else asarr(val, None)
        if v.dtype == OBJ: v = asarr(nest(v), self.dtype)
        bx = bcast_assign(v.ix, shape)
        src = [self._cast_in(v.buf[i], v.dtype) for i in bx.ravel()]
        for cands, x in zip(out, src):
            for c, pos in cands:
                self.buf[pos] = core.ite(c, x, self.buf[pos])

    def _cast_in(self, x, d):
        return cast_raw(x, self.dtype)

    # ---- in-place
    def _iop(self, uf, o):
        r = ufunc(uf, self, o)
        if self.dtype != OBJ and not rnp.can_cast(r.dtype, self.dtype, "same_kind"):
            raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'" % (uf, r.dtype, self.dtype))
        bx = rnp.broadcast_to(rnp.arange(r.size).reshape(r.shape), self.shape) if r.shape != self.shape else None
        if bx is not None: raise ValueError("non-broadcastable output operand")
        vs = r.vals() if isinstance(r, SArr) else [r.v if isinstance(r, Sym) else r]
        for p, x in zip(self.ix.ravel(), vs):
            self.buf[p] = x if self.dtype == OBJ else cast_raw(x, self.dtype)
        return self

    # ---- methods that mirror functions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return sum_(self, axis=axis, dtype=dtype, keepdims=keepdims)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False): return prod(self, axis=axis, dtype=dtype, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return max_(self, axis=axis, keepdims=keepdims, **k)
    def min(self, axis=None, out=None, keepdims=False, **k): return min_(self, axis=axis, keepdims=keepdims, **k)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False): return mean(self, axis=axis, dtype=dtype, keepdims=keepdims)
    def any(self, axis=None, out=None, keepdims=False): return any_(self, axis=axis, keepdims=keepdims)
    def all(self, axis=None, out=None, keepdims=False): return all_(self, axis=axis, keepdims=keepdims)
    def nonzero(self): return nonzero(self)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def take(self, i, axis=None, **k): return take(self, i, axis)
    def clip(self, a=None, b=None): return clip(self, a, b)
    def sort(self, axis=-1):
        self[...] = sort(self, axis)
    def argmax(self, *a, **k): return argmax(self, *a, **k)
    def argmin(self, *a, **k): return argmin(self, *a, **k)
    def ptp(self, *a, **k): return ptp(self, *a, **k)
    def var(self, *a, **k): return var(self, *a, **k)
    def std(self, *a, **k): return std(self, *a, **k)
    def compress(self, c, axis=None): return compress(c, self, axis)
    def trace(self, *a): return trace(self, *a)
    def put(self, i, v, mode="raise"): put(self, i, v)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def cumsum(self, axis=None): return cumsum(self, axis)
    def dot(self, o): return dot(self, o)
    def round(self, n=0): return round_(self, n)
    def tobytes(self, *a): return realarr(self).tobytes(*a)

    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        if not hasattr(rnp.ndarray, n): raise AttributeError("'numpy.ndarray' object has no attribute %r" % n)
        if n in ("itemset", "resize", "setfield", "byteswap", "partition", "setflags", "argpartition"): raise Unsupported("ndarray." + n)
        def f(*a, **k):
            return fallback(lambda s, *x, **y: getattr(s, n)(*x, **y), self, *a, **k)
        return f


_binops(SArr)
for _n, _u in dict(iadd="add", isub="subtract", imul="multiply", itruediv="true_divide", ifloordiv="floor_divide", imod="remainder",
                   ipow="power", iand="bitwise_and", ior="bitwise_or", ixor="bitwise_xor", ilshift="left_shift", irshift="right_shift").items():
    setattr(SArr, "__%s__" % _n, (lambda u: lambda s, o: s._iop(u, o))(_u))


class _Flat:
    def __init__(self, a): self.a = a
    def __iter__(self): return (scal(self.a.buf[i], self.a.dtype) for i in self.a.ix.ravel())
    def __getitem__(self, k): return self.a.ravel()[k]
    def __setitem__(self, k, v):
        a = self.a
        SArr(a.buf, a.ix.ravel(), a.dtype)[k] = v
    def __len__(self): return self.a.size


def objite(c, a, b):
    "object arrays indexed symbolically: arrays of different sizes cannot be merged, so split"
    return a if core.E.fork(as_bool(c)) else b


def mkarr(vals, shape, d):
    vals = list(vals)
    return SArr(vals, rnp.arange(len(vals)).reshape(shape), d)


def rawobj(v):
    return v


def raw(v):
    return v.v if isinstance(v, Sym) else v


def bcast_assign(ix, shape):
    while ix.ndim > len(shape) and ix.shape[0] == 1:
        ix = ix[0]
    try:
        return rnp.broadcast_to(ix, shape)
    except ValueError:
        raise ValueError("could not broadcast input array from shape %s into shape %s" % (ix.shape, shape))


def has_sym(x):
    if isinstance(x, Sym): return True
    if isinstance(x, SArr):
        if x.dtype == OBJ: return builtins.any(is_sym(v) or has_sym(v) for v in x.vals())
        return builtins.any(is_sym(v) for v in x.vals())
    if isinstance(x, (list, tuple)): return builtins.any(has_sym(v) for v in x)
    if isinstance(x, dict): return builtins.any(has_sym(v) for v in x.values())
    if isinstance(x, slice): return has_sym((x.start, x.stop, x.step))
    return False


def realarr(a):
    "fully concrete real array (splits paths on symbolic elements)"
    if a.dtype == OBJ:
        r = rnp.empty(a.size, dtype=object)
        for i, v in enumerate(a.vals()):
            r[i] = unsym(v)
        return r.reshape(a.shape)
    vs = [Sym(v, a.dtype)._conc() if is_sym(v) else v for v in a.vals()]
    r = rnp.empty(len(vs), a.dtype)
    for i, v in enumerate(vs): r[i] = v
    return r.reshape(a.shape)


def unsym(x):
    if isinstance(x, Sym): return x._conc()
    if is_sym(x): return Sym(x, None)._conc()
    if isinstance(x, SArr): return realarr(x)
    if isinstance(x, tuple): return tuple(unsym(v) for v in x)
    if isinstance(x, list): return [unsym(v) for v in x]
    if isinstance(x, dict): return {k: unsym(v) for k, v in x.items()}
    if isinstance(x, slice): return slice(unsym(x.start), unsym(x.stop), unsym(x.step))
    if isinstance(x, type) and x in REALT: return REALT[x]
    if isinstance(x, type) and x in PYTYPES: return PYTYPES[x]
    return x


def wrapreal(r):
    if isinstance(r, rnp.ndarray):
        if r.dtype == OBJ:
            return mkarr([wrapreal(x) for x in r.ravel()], r.shape, OBJ)
        if r.dtype.kind in "iub":
            return mkarr(r.ravel().tolist(), r.shape, r.dtype)
        return mkarr(list(r.ravel()), r.shape, r.dtype)
    if isinstance(r, tuple):
        if type(r) is not tuple: return tuple(wrapreal(x) for x in r)
        return tuple(wrapreal(x) for x in r)
    if isinstance(r, list): return [wrapreal(x) for x in r]
    return r


def fallback(fn, *a, **k):
    return wrapreal(fn(*[unsym(x) for x in a], **{n: unsym(v) for n, v in k.items()}))


def nest(a):
    if isinstance(a, SArr):
        return [nest(x) for x in a] if a.ndim else nest(a.vals()[0]) if a.dtype == OBJ else scal(a.vals()[0], a.dtype)
    return a


def objdisc(val):
    "value assigned to several elements of an object array: numpy's own sequence discovery"
    if isinstance(val, SArr):
        if val.dtype == OBJ: return val
        return mkarr([scal(v, val.dtype) if is_sym(v) else conc(v, val.dtype).item() for v in val.vals()], val.shape, OBJ)
    if isinstance(val, rnp.ndarray): return objdisc(wrapreal(val))
    if isinstance(val, (list, tuple)):
        # hand numpy arrays of tokens with the same shapes
        toks = []
        def tok(x):
            if isinstance(x, SArr):
                if x.dtype == OBJ:
                    r = rnp.empty(x.size, object)
                    for i, v in enumerate(x.vals()): r[i] = tok(v) if not isinstance(v, SArr) else _T(v, toks)
                    return r.reshape(x.shape)
                r = rnp.empty(x.size, object)
                for i, v in enumerate(x.vals()): r[i] = _T(scal(v, x.dtype) if is_sym(v) else conc(v, x.dtype).item(), toks)
                return r.reshape(x.shape)
            if isinstance(x, (list, tuple)): return [tok(v) for v in x]
            if isinstance(x, rnp.ndarray): return tok(wrapreal(x))
            return _T(x, toks)
        r = rnp.array(tok(val), dtype=object)
        return mkarr([v.x if isinstance(v, _T) else wrapreal(v) for v in r.ravel()], r.shape, OBJ)
    return mkarr([val], (), OBJ)


class _T:
    __slots__ = ("x",)
    def __init__(self, x, l): self.x = x


# ------------------------------------------------------------------ index keys
def isbasic(key):
    if not isinstance(key, tuple): key = (key,)
    return builtins.all(isinstance(k, (int, rnp.integer, slice)) or k is None or k is Ellipsis for k in key) and not builtins.any(isinstance(k, (bool, rnp.bool_)) for k in key)


def cslice(s):
    f = lambda x: None if x is None else operator.index(x)
    return slice(f(s.start), f(s.stop), f(s.step))


def keyarr(k):
    "array used as an index -> real array, or SArr when symbolic"
    if isinstance(k, rnp.ndarray): return k
    if k.dtype == OBJ:
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if k.dtype.kind == "b":
        r = rnp.empty(k.size, bool)
        for i, v in enumerate(k.vals()): r[i] = core.E.fork(v) if is_sym(v) else v
        return r.reshape(k.shape)
    if k.dtype.kind not in "iu":
        if k.size == 0 and False: pass
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if builtins.any(is_sym(v) for v in k.vals()): return k
    return realarr(k)


def normkey(a, key):
    """-> (key with real components, {position in the tuple: SArr of symbolic indices})"""
    istup = isinstance(key, tuple)
    ks = list(key) if istup else [key]
    syms = {}
    for i, k in enumerate(ks):
        if isinstance(k, slice): ks[i] = cslice(k)
        elif isinstance(k, Sym):
            if is_bool(k.v): ks[i] = core.E.fork(as_bool(k.v))
            elif isinstance(k.v, FT): raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            else: syms[i] = mkarr([k.v], (), rnp.dtype(rnp.int64))
        elif isinstance(k, SArr):
            k = keyarr(k)
            if isinstance(k, SArr): syms[i] = k
            ks[i] = k
        elif isinstance(k, (list,)):
            if has_sym(k) or builtins.any(isinstance(x, SArr) for x in k):
                k = keyarr(asarr(k, None))
                if isinstance(k, SArr): syms[i] = k
                ks[i] = k
            elif len(k) == 0:
                ks[i] = rnp.array([], dtype=rnp.intp)
        elif isinstance(k, tuple) and istup:
            k = keyarr(asarr(list(k), None))
            if isinstance(k, SArr): syms[i] = k
            ks[i] = k
    if syms:
        # symbolic index: numpy reports errors of the concrete parts first or later alike (IndexError)
        n = 0
        ell = None
        for i, k in enumerate(ks):
            if k is Ellipsis: ell = i
            elif k is None: pass
            elif isinstance(k, rnp.ndarray) and k.dtype == bool: n += k.ndim
            else: n += 1
        if n > a.ndim: raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (a.ndim, n))
    return (tuple(ks) if istup else ks[0]), syms


def gather(a, key, syms):
    """symbolic index: for every element of the result its candidate (condition, position) list"""
    ks = list(key) if isinstance(key, tuple) else [key]
    # axis of every symbolic component
    used = 0
    for k in ks:
        if k is None or k is Ellipsis: continue
        used += k.ndim if isinstance(k, rnp.ndarray) and k.dtype == bool else 1
    ax, axis = {}, 0
    for i, k in enumerate(ks):
        if k is None: continue
        if k is Ellipsis: axis += a.ndim - used; continue
        if i in syms: ax[i] = axis
        axis += k.ndim if isinstance(k, rnp.ndarray) and k.dtype == bool else 1
    # bounds
    for i, s in syms.items():
        n = a.shape[ax[i]]
        bad = b_or(*[b_or(r_cmp("lt", v, -n), r_cmp("ge", v, n)) for v in s.vals()])
        if core.E.fork(bad):
            raise IndexError("index out of bounds for axis %d with size %d" % (ax[i], n))
    order = sorted(syms)
    def at(fix, base):
        kk = list(ks)
        for i in order:
            sh = syms[i].shape
            kk[i] = int(fix[i]) if sh == () else rnp.full(sh, fix[i])
        return base[tuple(kk) if isinstance(key, tuple) or len(kk) > 1 else kk[0]]
    zero = {i: 0 for i in order}
    for i in order:
        if a.shape[ax[i]] == 0:
            if syms[i].size: raise IndexError("index out of bounds")
    probe = at(zero, a.ix)
    scalar = not isinstance(probe, rnp.ndarray)
    shape = () if scalar else probe.shape
    # which element of the symbolic index drives which element of the result
    drv = {}
    for i in order:
        s = syms[i]
        if s.shape == ():
            drv[i] = rnp.zeros(shape, int)
            continue
        g = rnp.zeros(a.shape[:ax[i]] + (s.size,) + a.shape[ax[i] + 1:], int)
        g += rnp.arange(s.size).reshape((1,) * ax[i] + (-1,) + (1,) * (a.ndim - ax[i] - 1))
        kk = list(ks)
        for j in order:
            sj = syms[j]
            kk[j] = (0 if sj.shape == () else rnp.zeros(sj.shape, int)) if j != i else rnp.arange(s.size).reshape(s.shape)
        drv[i] = rnp.asarray(g[tuple(kk) if isinstance(key, tuple) or len(kk) > 1 else kk[0]])
    import itertools
    rngs = {}
    for i in order:
        n = a.shape[ax[i]]
        lo = builtins.min(rng(v)[0] for v in syms[i].vals())
        hi = builtins.max(rng(v)[1] for v in syms[i].vals())
        rngs[i] = [k for k in range(n) if lo <= k <= hi or lo <= k - n <= hi]
    pos = {}
    for combo in itertools.product(*[rngs[i] for i in order]):
        pos[combo] = rnp.asarray(at(dict(zip(order, combo)), a.ix)).ravel()
    conds = {}
    def cond(i, j, k):
        t = (i, j, k)
        if t not in conds:
            v, n = syms[i].vals()[j], a.shape[ax[i]]
            conds[t] = b_or(r_eq(v, k), r_eq(v, k - n))
        return conds[t]
    out = []
    size = int(rnp.prod(shape)) if shape else 1
    fl = {i: drv[i].ravel() for i in order}
    for t in range(size):
        c = []
        for combo, p in pos.items():
            cc = b_and(*[cond(i, int(fl[i][t]), k) for i, k in zip(order, combo)])
            if cc is not False: c.append((cc, int(p[t])))
        out.append(c)
    return out, shape, scalar


# ------------------------------------------------------------------ construction
def asarr(x, d=None, copy=False):
    d = dt(d)
    if isinstance(x, SArr):
        if d is None or d == x.dtype: return x.copy() if copy else x
        return x.astype(d)
    if isinstance(x, Sym):
        dd = d or x.dtype or pydt(x.v)
        return mkarr([cast_raw(x.v, dd)], (), dd)
    if is_sym(x):
        return asarr(Sym(x, None), d)
    if isinstance(x, rnp.ndarray):
        r = wrapreal(x); return r.astype(d) if d is not None and d != r.dtype else r
    if isinstance(x, (list, tuple)):
        if d == OBJ: return objdisc(x)
        if not has_sym(x):
            x = unsym(x)
            return wrapreal(rnp.array(x, dtype=d))
        # shape through numpy, on tokens
        toks, dts = [], []
        def tok(y):
            if isinstance(y, SArr):
                if y.dtype == OBJ: return tok(nest(y))
                dts.append(rnp.empty((), y.dtype)); r = rnp.empty(y.size, int)
                for i, v in enumerate(y.vals()): r[i] = len(toks); toks.append(v)
                return r.reshape(y.shape)
            if isinstance(y, (list, tuple)): return [tok(v) for v in y]
            if isinstance(y, rnp.ndarray): return tok(wrapreal(y))
            dts.append(rnp.empty((), y.dtype if isinstance(y, Sym) and y.dtype is not None else pydt(y.v if isinstance(y, Sym) else y)))
            toks.append(raw(y)); return len(toks) - 1
        r = rnp.array(tok(x))
        dd = d or rnp.result_type(*[t.dtype for t in dts])
        return mkarr([cast_raw(toks[i], dd) for i in r.ravel()], r.shape, dd)
    if isinstance(x, (range,)): return asarr(list(x), d)
    if hasattr(x, "__sarr__"):
        return asarr(x.__sarr__(), d)
    return wrapreal(rnp.array(x, dtype=d))


def pydt(v):
    if is_bool(v): return rnp.dtype(bool)
    if isinstance(v, (IV, int, rnp.integer)): return v.dtype if isinstance(v, rnp.integer) else rnp.dtype(rnp.int64)
    if isinstance(v, FT): return v.tab.dtype
    if isinstance(v, float): return rnp.dtype(float)
    if isinstance(v, rnp.generic): return v.dtype
    return OBJ


# ------------------------------------------------------------------ ufuncs
def dummy(x, isarr):
    """what real numpy sees of an argument when it decides the result dtype (scalars by value)"""
    if isinstance(x, SArr) and x.ndim: return [rnp.ones((1,), x.dtype)]
    if isinstance(x, SArr): v, d = x.vals()[0], x.dtype
    elif isinstance(x, Sym): v, d = x.v, x.dtype
    else: return [x]
    if is_bool(v): return [True if d is None else rnp.bool_(True)]
    if isinstance(v, FT):
        return [float(v.tab[0]) if d is None else d.type(1.5)]
    if isinstance(v, IV):
        c = sorted({v.lo, v.hi} | ({0} if v.lo <= 0 <= v.hi else set()) | ({1} if v.lo <= 1 <= v.hi else set()))
        return [k if d is None else d.type(k) for k in c]
    return [v if d is None else d.type(v)]


def resdtype(name, args):
    import itertools
    f = getattr(rnp, name)
    ds = set()
    for combo in itertools.product(*[dummy(a, 1) for a in args]):
        with rnp.errstate(all="ignore"):
            try:
                r = f(*combo)
            except ValueError as e:       # negative integer power
                continue
            if builtins.all(not isinstance(c, (rnp.generic, rnp.ndarray)) for c in combo):
                pass
            ds.add(r.dtype)
    if len(ds) != 1: return None
    return ds.pop()


CMP = dict(equal="eq", not_equal="ne", less="lt", less_equal="le", greater="gt", greater_equal="ge")


def pyop(name, a, b):
    "arithmetic of two Python-typed symbolic scalars"
    a, b = as_int(a), as_int(b)
    fl = isinstance(a, (FT, float)) or isinstance(b, (FT, float))
    if name in CMP: return r_cmp(CMP[name], a, b)
    if name == "true_divide" or fl:
        if name in ("true_divide", "floor_divide", "remainder") and core.E.fork(r_eq(b, 0)): raise ZeroDivisionError("division by zero")
        return f_bin(getattr(rnp, name), a, b, rnp.float64)
    if name in ("floor_divide", "remainder") and core.E.fork(r_eq(b, 0)): raise ZeroDivisionError("integer division or modulo by zero")
    return intop(name, a, b)


def intop(name, a, b):
    if name == "add": return r_add(a, b)
    if name == "subtract": return r_sub(a, b)
    if name == "multiply": return r_mul(a, b)
    if name == "floor_divide": return r_floordiv(a, b)
    if name == "remainder": return r_mod(a, b)
    if name == "power": return r_pow(a, b)
    if name in ("bitwise_and", "bitwise_or", "bitwise_xor"): return r_bit(name[8:], a, b)
    if name == "left_shift": return r_shift("l", a, b)
    if name == "right_shift": return r_shift("r", a, b)
    if name in ("minimum", "fmin"): return r_min(a, b)
    if name in ("maximum", "fmax"): return r_max(a, b)
    raise Unsupported("integer " + name)


def elem(name, rd, od, a, b):
    """one element: operands already cast to the computation dtype od; result dtype rd"""
    if name in CMP:
        return r_cmp(CMP[name], a, b)
    if name == "logical_and": return b_and(a, b)
    if name == "logical_or": return b_or(a, b)
    if name == "logical_xor": return b_or(b_and(a, b_not(as_bool(b))), b_and(b_not(as_bool(a)), b))
    if rd.kind == "b":
        a, b = as_bool(a), as_bool(b)
        if name in ("bitwise_and", "multiply", "minimum"): return b_and(a, b)
        if name in ("bitwise_or", "add", "maximum"): return b_or(a, b)
        if name == "bitwise_xor": return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
        raise Unsupported("bool " + name)
    if rd.kind in "iu":
        return wrap(intop(name, as_int(a), as_int(b)), rd)
    if rd.kind == "f":
        a, b = as_int(a), as_int(b)
        # integer-valued floats stay integers where that is exact
        if name in ("add", "subtract", "multiply", "minimum", "maximum") and not isinstance(a, FT) and not isinstance(b, FT):
            if isinstance(a, (float, rnp.floating)) and not isinstance(b, (float, rnp.floating)) and float(a).is_integer(): a = int(a)
            if isinstance(b, (float, rnp.floating)) and not isinstance(a, (float, rnp.floating)) and float(b).is_integer(): b = int(b)
            if isinstance(a, (IV, int)) and isinstance(b, (IV, int)) and (isinstance(a, IV) or isinstance(b, IV)):
                return cast_raw(intop(name, a, b), rd)
        if name == "power" and isinstance(a, IV) and not isinstance(b, (IV, FT)) and float(b) == 2.0:
            return cast_raw(r_mul(a, a), rd)
        return f_bin(getattr(rnp, name), a, b, rd)
    raise Unsupported("%s on %s" % (name, rd))


def un_elem(name, rd, d, a):
    if name == "negative":
        if rd.kind in "iu": return wrap(r_neg(as_int(a)), rd)
        if isinstance(a, IV): return r_neg(a)
    if name == "absolute":
        if rd.kind == "b": return a
        if rd.kind in "iu" or isinstance(a, IV):
            x = as_int(a); r = ite(r_cmp("ge", x, 0), x, r_neg(x))
            if isinstance(r, IV) and r.lo < 0: r = IV(resize(r.e, bits(0, builtins.max(r.hi, -r.lo))), 0, builtins.max(r.hi, -r.lo))
            return wrap(r, rd) if rd.kind in "iu" else r
    if name == "invert":
        if rd.kind == "b": return b_not(as_bool(a))
        return wrap(r_sub(r_neg(as_int(a)), 1), rd)
    if name == "logical_not": return b_not(as_bool(a))
    if name == "square":
        if rd.kind in "iu": return wrap(r_mul(a, a), rd)
        if isinstance(a, IV): return cast_raw(r_mul(a, a), rd)
    if name == "sign" and rd.kind in "iu":
        return ite(r_cmp("gt", a, 0), 1, ite(r_cmp("lt", a, 0), -1, 0))
    if name == "isnan" and (isinstance(a, IV) or d.kind != "f"): return False
    if name == "isinf" and (isinstance(a, IV) or d.kind != "f"): return False
    if name == "isfinite" and (isinstance(a, IV) or d.kind != "f"): return True
    if name in ("floor", "ceil", "trunc", "rint") and isinstance(a, IV): return a
    cd = d if d.kind == "f" else (rd if rd.kind == "f" else rnp.dtype(float))
    return f_un(getattr(rnp, name), a, cd)


UNARY = ("negative", "absolute", "invert", "logical_not", "square", "sqrt", "isnan", "isinf", "isfinite", "floor", "ceil", "trunc", "rint",
         "sign", "log2", "log", "exp", "sin", "cos", "cbrt", "reciprocal", "conjugate", "positive", "exp2", "log10", "log1p", "deg2rad", "tan", "arctan", "fabs")
BINARY = ("add", "subtract", "multiply", "true_divide", "floor_divide", "remainder", "power", "bitwise_and", "bitwise_or", "bitwise_xor",
          "left_shift", "right_shift", "minimum", "maximum", "fmin", "fmax", "logical_and", "logical_or", "logical_xor", "hypot", "arctan2",
          "fmod", "float_power") + tuple(CMP)


def isobj(x): return isinstance(x, SArr) and x.dtype == OBJ


PYBIN = dict(add=operator.add, subtract=operator.sub, multiply=operator.mul, true_divide=operator.truediv, floor_divide=operator.floordiv,
             remainder=operator.mod, power=operator.pow, bitwise_and=operator.and_, bitwise_or=operator.or_, bitwise_xor=operator.xor,
             equal=operator.eq, not_equal=operator.ne, less=operator.lt, less_equal=operator.le, greater=operator.gt, greater_equal=operator.ge,
             left_shift=operator.lshift, right_shift=operator.rshift, logical_and=lambda a, b: a and b, logical_or=lambda a, b: a or b,
             maximum=lambda a, b: a if a >= b else b, minimum=lambda a, b: a if a <= b else b)
PYUN = dict(negative=operator.neg, absolute=abs, invert=operator.invert, logical_not=operator.not_)


def ufunc(name, *args, out=None, where=True, dtype=None, casting=None, **kw):
    if kw or where is not True: return fallback(lambda *a, **k: getattr(rnp, name)(*a, **k), *args, **dict(kw, where=where))
    if isinstance(out, tuple): out = out[0]
    args = [wrapreal(a) if isinstance(a, rnp.ndarray) else asarr(a) if isinstance(a, (list, tuple, range)) or hasattr(a, "__sarr__") else a for a in args]
    if dtype is not None: args = [a.astype(dt(dtype)) if isinstance(a, (SArr, Sym)) and a.dtype is not None and a.dtype.kind in "iufb" else a for a in args]
    res = _ufunc(name, *args)
    if dtype is not None: res = res.astype(dt(dtype))
    if out is not None:
        if not rnp.can_cast(res.dtype, out.dtype, "same_kind"):
            raise TypeError("Cannot cast ufunc %r output" % name)
        out[...] = res
        return out
    return res


def _ufunc(name, *args):
    if builtins.any(isobj(a) for a in args):
        shs = [a.shape if isinstance(a, SArr) else () for a in args]
        sh = rnp.broadcast_shapes(*shs)
        cols = []
        for a in args:
            if isinstance(a, SArr):
                bx = rnp.broadcast_to(a.ix, sh)
                cols.append([a.buf[i] if a.dtype == OBJ else scal(a.buf[i], a.dtype) for i in bx.ravel()])
            else:
                cols.append([a] * int(rnp.prod(sh, dtype=int)))
        f = (PYUN if len(args) == 1 else PYBIN)[name] if name in (PYUN if len(args) == 1 else PYBIN) else None
        if f is None: raise TypeError("loop of ufunc %s does not support argument of type object" % name)
        vals = [f(*t) for t in zip(*cols)]
        vals = [Sym(v, None) if is_sym(v) else v for v in vals]
        if name in CMP or name.startswith("logical"):
            return mkarr([raw_bool(v) for v in vals], sh, rnp.dtype(bool))
        return mkarr(vals, sh, OBJ)
    if not has_sym(args):
        rr = [realarr(a) if isinstance(a, SArr) else a for a in args]
        with rnp.errstate(all="ignore"):
            r = getattr(rnp, name)(*rr)
        return _subcls(wrapreal(r), args)
    if len(args) == 2 and builtins.all(not isinstance(a, SArr) and not isinstance(a, rnp.generic) and getattr(a, "dtype", None) is None for a in args) and name in PYBIN:
        a, b = raw(args[0]), raw(args[1])
        if name in ("logical_and", "logical_or"): return Sym(elem(name, rnp.dtype(bool), None, a, b), None)
        if name.startswith("bitwise") and is_bool(a) and is_bool(b): return pys(elem(name, rnp.dtype(bool), None, a, b))
        if name in ("minimum", "maximum"): return pys(intop(name, as_int(a), as_int(b)))
        return pys(pyop(name, a, b))
    if len(args) == 1 and isinstance(args[0], Sym) and args[0].dtype is None and name in ("negative", "absolute", "invert"):
        v = args[0].v
        if name == "invert" and is_bool(v): return pys(r_sub(r_neg(as_int(v)), 1))
        if isinstance(v, FT): return pys(f_un(getattr(rnp, name), v, v.tab.dtype))
        v = as_int(v)
        return pys(r_neg(v) if name == "negative" else r_sub(r_neg(v), 1) if name == "invert" else un_elem("absolute", rnp.dtype(rnp.int64), None, v))
    rd = resdtype(name, args)
    if rd is None:
        # the result type depends on the value: split
        return fallbackish(name, args)
    sh = rnp.broadcast_shapes(*[a.shape if isinstance(a, SArr) else () for a in args])
    cols, ds = [], []
    for a in args:
        if isinstance(a, SArr):
            cols.append([a.buf[i] for i in rnp.broadcast_to(a.ix, sh).ravel()]); ds.append(a.dtype)
        else:
            v = raw(a)
            cols.append([v] * int(rnp.prod(sh, dtype=int))); ds.append(a.dtype if getattr(a, "dtype", None) is not None else pydt(v))
    if len(args) == 1:
        vals = [un_elem(name, rd, ds[0], v) for v in cols[0]]
    else:
        if rd.kind == "b" and name in CMP:
            od = None
            cd = rnp.result_type(*ds)
            if cd.kind == "f":
                cols = [[cast_raw(v, cd) for v in c] for c in cols]
            vals = [elem(name, rd, od, a, b) for a, b in zip(*cols)]
        else:
            if rd.kind in "iu" and not name.startswith("logical"):
                cols = [[wrap(v, rd) for v in c] for c in cols]
            elif rd.kind == "f":
                cols = [[cast_raw(v, rd) for v in c] for c in cols]
            if name == "power" and rd.kind in "iu" and builtins.any(rng(v)[0] < 0 for v in cols[1]):
                raise ValueError("Integers to negative integer powers are not allowed.")
            vals = [elem(name, rd, rd, a, b) for a, b in zip(*cols)]
    if sh == () and builtins.all(not (isinstance(a, SArr) and a.ndim) for a in args):
        return scal(vals[0], rd)
    return _subcls(mkarr(vals, sh, rd), args)


def _subcls(r, args):
    for a in args:
        if isinstance(a, SArr) and type(a) is not SArr and isinstance(r, SArr): return r.view(type(a))
    return r


def fallbackish(name, args):
    a2 = [a._conc() if isinstance(a, Sym) else (mkarr([Sym(a.vals()[0], a.dtype)._conc()], (), a.dtype) if isinstance(a, SArr) and not a.ndim and is_sym(a.vals()[0]) else a) for a in args]
    if builtins.all(x is y for x, y in zip(a2, args)): raise Unsupported("result dtype of " + name)
    return _ufunc(name, *a2)


def pys(v):
    return Sym(v, None) if is_sym(v) else v


class UF:
    def __init__(self, n): self.__name__ = n
    def __call__(self, *a, **k):
        if len(a) == (2 if self.__name__ in UNARY else 3): k["out"] = a[-1]; a = a[:-1]
        return ufunc(self.__name__, *a, **k)
    def at(self, a, idx, b=None):
        n = self.__name__
        idx = idx if isinstance(idx, tuple) else (idx,)
        idx = [asarr(i) if not isinstance(i, (slice, int)) else i for i in idx]
        if builtins.any(isinstance(i, slice) for i in idx): raise Unsupported("ufunc.at slice")
        sh = rnp.broadcast_shapes(*[i.shape if isinstance(i, SArr) else () for i in idx])
        ii = [broadcast_to(asarr(i), sh).ravel() for i in idx]
        bb = broadcast_to(asarr(b), sh).ravel() if b is not None else None
        for t in range(int(rnp.prod(sh, dtype=int))):
            k = tuple(i[t] for i in ii)
            a[k] = ufunc(n, a[k], bb[t]) if bb is not None else ufunc(n, a[k])
    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        n = self.__name__
        m = dict(add=sum_, multiply=prod, maximum=max_, minimum=min_, logical_and=all_, logical_or=any_)
        if n == "bitwise_or" and asarr(a).dtype.kind == "b": return any_(a, axis=axis, keepdims=keepdims)
        if n == "bitwise_and" and asarr(a).dtype.kind == "b": return all_(a, axis=axis, keepdims=keepdims)
        if n not in m: return fallback(lambda *x, **y: getattr(rnp, n).reduce(*x, **y), a, axis=axis)
        if n in ("add", "multiply"): return m[n](a, axis=axis, dtype=dtype, keepdims=keepdims)
        return m[n](a, axis=axis, keepdims=keepdims)
    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return ufunc(self.__name__, a.reshape(a.shape + (1,) * b.ndim), b)
    def accumulate(self, a, axis=0):
        if self.__name__ == "add": return cumsum(a, axis)
        return fallback(lambda *x: getattr(rnp, self.__name__).accumulate(*x), a, axis)
    def reduceat(self, a, idx, axis=0):
        a = asarr(a); idx = [operator.index(i) for i in idx]
        if axis != 0 or self.__name__ != "add": return fallback(lambda *x: getattr(rnp, self.__name__).reduceat(*x), a, idx, axis)
        out = []
        for k, i in enumerate(idx):
            e = idx[k + 1] if k + 1 < len(idx) else len(a)
            if not 0 <= i < len(a): raise IndexError("index out-of-bounds")
            out.append(sum_(a[i:e], axis=0) if i < e else a[i])
        return stack(out)


# ------------------------------------------------------------------ functions
def _concr(*xs): return not has_sym(xs)


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    r = asarr(x, dtype, copy=bool(copy))
    if type(r) is not SArr and not subok: r = SArr(r.buf, r.ix, r.dtype)
    while r.ndim < ndmin: r = r._view(r.ix[None])
    return r


def asarray(x, dtype=None, order=None, **k):
    r = asarr(x, dtype)
    return r if type(r) is SArr else SArr(r.buf, r.ix, r.dtype)


def ascontiguousarray(x, dtype=None):
    a = asarr(x, dtype)
    return a if a.ix.flags.c_contiguous else a.copy()
def asanyarray(x, dtype=None, **k): return asarr(x, dtype)
def copy(a, **k): return asarr(a, copy=True)


def shp(s):
    if isinstance(s, (list, tuple)): return tuple(operator.index(x) for x in s)
    if isinstance(s, SArr): return tuple(operator.index(x) for x in s.ravel())
    return (operator.index(s),)


def full(shape, fill_value, dtype=None, **k):
    shape = shp(shape)
    n = int(rnp.prod(shape, dtype=int))
    if builtins.any(x < 0 for x in shape): raise ValueError("negative dimensions are not allowed")
    d = dt(dtype) or asarr(fill_value).dtype
    if isinstance(fill_value, SArr) and fill_value.ndim:
        r = empty(shape, d); r[...] = fill_value; return r
    v = fill_value if d == OBJ else cast_raw(asarr(fill_value).vals()[0], d)
    return mkarr([v] * n, shape, d)


_fresh = [0]
def empty(shape, dtype=float, **k):
    d = dt(dtype) or rnp.dtype(float)
    shape = shp(shape)
    if d == OBJ: return full(shape, None, OBJ)
    n = int(rnp.prod(shape, dtype=int))
    if builtins.any(x < 0 for x in shape): raise ValueError("negative dimensions are not allowed")
    # uninitialised: a recognisable pattern (the harness runs every configuration with several patterns)
    return mkarr([cast_raw(UNINIT[d.kind] if d.kind in UNINIT else 0, d)] * n, shape, d)
UNINIT = {"i": 91, "u": 91, "f": 91.5, "b": True}


def zeros(shape, dtype=float, **k): return full(shape, 0, dt(dtype) or float)
def ones(shape, dtype=float, **k): return full(shape, 1, dt(dtype) or float)
def zeros_like(a, dtype=None, shape=None, **k):
    a = asarr(a); return full(a.shape if shape is None else shape, 0, dt(dtype) or a.dtype)
def ones_like(a, dtype=None, shape=None, **k):
    a = asarr(a); return full(a.shape if shape is None else shape, 1, dt(dtype) or a.dtype)
def empty_like(a, dtype=None, shape=None, **k):
    a = asarr(a); return empty(a.shape if shape is None else shape, dt(dtype) or a.dtype)
def full_like(a, v, dtype=None, shape=None, **k):
    a = asarr(a); return full(a.shape if shape is None else shape, v, dt(dtype) or a.dtype)


def arange(*a, dtype=None, **k): return fallback(lambda *x, **y: rnp.arange(*x, **y), *a, dtype=dt(dtype))


def concatenate(arrs, axis=0, dtype=None, **k):
    arrs = [asarr(x) for x in arrs]
    if not arrs: raise ValueError("need at least one array to concatenate")
    d = dt(dtype) or rnp.result_type(*[x.dtype for x in arrs])
    if axis is None:
        arrs, axis = [x.ravel() for x in arrs], 0
    toks, off = [], 0
    for x in arrs:
        toks.append(rnp.arange(off, off + x.size).reshape(x.shape)); off += x.size
    r = rnp.concatenate(toks, axis)
    vals = []
    for x in arrs: vals += [v if d == OBJ and x.dtype == OBJ else scal(v, x.dtype) if d == OBJ else cast_raw(v, d) for v in x.vals()]
    return mkarr([vals[i] for i in r.ravel()], r.shape, d)


def atleast_1d(x):
    x = asarr(x); return x if x.ndim else x.reshape(1)
def atleast_2d(x):
    x = asarr(x); return x if x.ndim > 1 else x.reshape(1, -1)
def hstack(t, **k):
    t = [atleast_1d(x) for x in t]
    return concatenate(t, 0 if t and t[0].ndim == 1 else 1)
def vstack(t, **k): return concatenate([atleast_2d(x) for x in t], 0)
def stack(t, axis=0, **k):
    t = [asarr(x) for x in t]
    return concatenate([x._view(rnp.expand_dims(x.ix, axis)) for x in t], axis)
def column_stack(t): return concatenate([asarr(x).reshape(-1, 1) if asarr(x).ndim < 2 else asarr(x) for x in t], 1)
def append(a, v, axis=None):
    if axis is None: return concatenate([asarr(a).ravel(), asarr(v).ravel()])
    return concatenate([a, v], axis)


def ixfn(fn):
    "pure rearrangement: through the index array, as a view when numpy gives one"
    def f(a, *args, **kw):
        a = asarr(a)
        r = fn(a.ix, *[unsym(x) for x in args], **{k: unsym(v) for k, v in kw.items()})
        if rnp.shares_memory(r, a.ix): return a._view(r)
        return mkarr([a.buf[i] for i in r.ravel()], r.shape, a.dtype)
    return f


transpose, swapaxes, moveaxis, expand_dims, squeeze, flip, fliplr, flipud, rollaxis = [ixfn(getattr(rnp, n)) for n in
    "transpose swapaxes moveaxis expand_dims squeeze flip fliplr flipud rollaxis".split()]
roll, tile, broadcast_to, rot90, diagonal, resize_, triu_ = [ixfn(getattr(rnp, n)) for n in "roll tile broadcast_to rot90 diagonal resize triu".split()]
def ravel(a, order="C"): return asarr(a).ravel()
def reshape(a, s, order="C"): return asarr(a).reshape(s)
def delete(a, obj, axis=None):
    return ixfn(lambda ix, o: rnp.delete(ix, o, axis))(a, unsym(obj) if not isinstance(obj, SArr) else realarr(obj))
def insert(a, obj, v, axis=None):
    if axis is None or asarr(a).ndim == 1:
        a = asarr(a).ravel(); i = operator.index(obj)
        v = asarr(v, a.dtype)
        return concatenate([a[:i], v.ravel(), a[i:]])
    return fallback(rnp.insert, a, obj, v, axis)


def repeat(a, n, axis=None):
    a = asarr(a)
    n = unsym(n) if not isinstance(n, SArr) else realarr(n)
    if axis is None: a = a.ravel(); axis = 0
    return ixfn(lambda ix: rnp.repeat(ix, n, axis))(a)


def array_split(a, n, axis=0):
    a = asarr(a)
    return [a._view(x) for x in rnp.array_split(a.ix, unsym(n) if not isinstance(n, SArr) else realarr(n), axis)]
def split(a, n, axis=0):
    a = asarr(a)
    return [a._view(x) for x in rnp.split(a.ix, unsym(n) if not isinstance(n, SArr) else realarr(n), axis)]


def _red(a, axis, keepdims):
    "-> out shape, list of value lists"
    if axis is None: axis = tuple(range(a.ndim))
    if isinstance(axis, (list, SArr)): axis = tuple(operator.index(x) for x in axis) if isinstance(axis, list) else operator.index(axis)
    if not isinstance(axis, tuple): axis = (operator.index(axis),)
    axis = tuple(operator.index(x) for x in axis)
    ax = []
    for x in axis:
        if not -a.ndim <= x < a.ndim: raise rnp.exceptions.AxisError(x, a.ndim)
        ax.append(x % a.ndim)
    if len(set(ax)) != len(ax): raise ValueError("duplicate value in 'axis'")
    keep = [i for i in range(a.ndim) if i not in ax]
    m = a.ix.transpose(keep + sorted(ax))
    sh = tuple(a.shape[i] for i in keep)
    osh = tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)) if keepdims else sh
    n = int(rnp.prod(sh, dtype=int))
    m = m.reshape((n, -1)) if a.size else rnp.empty((n, 0), int)
    return osh, [[a.buf[i] for i in row] for row in m]


def _out(vals, sh, d):
    if sh == (): return scal(vals[0], d)
    return mkarr(vals, sh, d)


def _acc(name, d, vs, init):
    r = init
    for v in vs:
        v = cast_raw(v, d)
        r = v if r is None else elem(name, d, d, r, v)
    return r


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, types.GeneratorType): return builtins.sum(a)
    a = asarr(a)
    if a.dtype == OBJ:
        sh, rows = _red(a, axis, keepdims)
        vals = []
        for r in rows:
            t = None
            for v in r: t = v if t is None else t + v
            vals.append(0 if t is None else t)
        if sh == (): return vals[0]
        return mkarr(vals, sh, OBJ)
    if initial is not None or where is not True: return fallback(rnp.sum, a, axis=axis, dtype=dtype, keepdims=keepdims, **({"initial": initial} if initial is not None else {}), where=where)
    if _concr(a): return fallback(rnp.sum, a, axis=axis, dtype=dt(dtype), keepdims=keepdims)
    d = rnp.sum(rnp.ones(1, a.dtype), dtype=dt(dtype)).dtype
    sh, rows = _red(a, axis, keepdims)
    return _out([cast_raw(0, d) if not r else _acc("add", d, r, None) for r in rows], sh, d)


def prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(a)
    if _concr(a): return fallback(rnp.prod, a, axis=axis, dtype=dt(dtype), keepdims=keepdims)
    d = rnp.prod(rnp.ones(1, a.dtype), dtype=dt(dtype)).dtype
    sh, rows = _red(a, axis, keepdims)
    return _out([cast_raw(1, d) if not r else _acc("multiply", d, r, None) for r in rows], sh, d)


def _mm(name):
    def f(a, axis=None, out=None, keepdims=False, initial=None, **k):
        a = asarr(a)
        if a.dtype == OBJ:
            sh, rows = _red(a, axis, keepdims)
            vals = []
            for r in rows:
                if not r: raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
                t = r[0]
                for v in r[1:]: t = PYBIN[name](t, v)
                vals.append(t)
            return vals[0] if sh == () else mkarr(vals, sh, OBJ)
        sh, rows = _red(a, axis, keepdims)
        vals = []
        for r in rows:
            if initial is not None: r = [cast_raw(raw(initial), a.dtype)] + r
            if not r: raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            t = r[0]
            for v in r[1:]: t = elem(name, a.dtype, a.dtype, t, v) if a.dtype.kind != "b" else elem(name, a.dtype, a.dtype, t, v)
            vals.append(t)
        return _out(vals, sh, a.dtype)
    return f
max_, min_ = _mm("maximum"), _mm("minimum")


def any_(a, axis=None, out=None, keepdims=False, **k):
    a = asarr(a)
    sh, rows = _red(a, axis, keepdims)
    return _out([b_or(*[as_bool(raw_bool(v)) for v in r]) for r in rows], sh, rnp.dtype(bool))
def all_(a, axis=None, out=None, keepdims=False, **k):
    a = asarr(a)
    sh, rows = _red(a, axis, keepdims)
    return _out([b_and(*[as_bool(raw_bool(v)) for v in r]) for r in rows], sh, rnp.dtype(bool))
def count_nonzero(a, axis=None, keepdims=False):
    a = asarr(a)
    r = mkarr([as_bool(raw_bool(v)) for v in a.vals()], a.shape, rnp.dtype(bool))
    return sum_(r, axis=axis, keepdims=keepdims)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(a)
    if _concr(a): return fallback(rnp.mean, a, axis=axis, dtype=dt(dtype), keepdims=keepdims)
    d = dt(dtype) or (rnp.dtype(float) if a.dtype.kind != "f" else a.dtype)
    sh, rows = _red(a, axis, keepdims)
    n = len(rows[0]) if rows else 0
    return _out([f_bin(rnp.true_divide, _acc("add", d, r, None) if r else 0.0, n, d) for r in rows], sh, d)


def nanmean(a, axis=None, dtype=None, **k):
    a = asarr(a)
    if _concr(a): return fallback(rnp.nanmean, a, axis=axis, dtype=dt(dtype))
    d = a.dtype if a.dtype.kind == "f" else rnp.dtype(float)
    sh, rows = _red(a, axis, False)
    out = []
    for r in rows:
        s, n = cast_raw(0, d), 0
        for v in r:
            isn = un_elem("isnan", rnp.dtype(bool), d, v)
            if core.E.fork(as_bool(isn)): continue
            s, n = elem("add", d, d, s, v), n + 1
        out.append(f_bin(rnp.true_divide, s, n, d) if n else d.type(rnp.nan))
    return _out(out, sh, d)


def nanmedian(a, axis=None, **k):
    a = asarr(a)
    if _concr(a): return fallback(rnp.nanmedian, a, axis=axis)
    if axis is not None: return fallback(rnp.nanmedian, a, axis=axis)
    v = [x for x in a.vals() if not core.E.fork(as_bool(un_elem("isnan", rnp.dtype(bool), a.dtype, x)))]
    d = a.dtype if a.dtype.kind == "f" else rnp.dtype(float)
    if not v: return d.type(rnp.nan)
    v = srt(v); n = len(v)
    if n % 2: return scal(cast_raw(v[n // 2], d), d)
    return scal(f_bin(rnp.true_divide, elem("add", d, d, cast_raw(v[n // 2 - 1], d), cast_raw(v[n // 2], d)), 2, d), d)


def median(a, axis=None, **k):
    a = asarr(a)
    if _concr(a) or axis is not None: return fallback(rnp.median, a, axis=axis)
    return nanmedian(a)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    r = where(ufunc("isnan", x), nan, x).astype(x.dtype) if x.dtype.kind == "f" else x
    if _concr(x) and x.dtype.kind == "f": r = fallback(rnp.nan_to_num, x, nan=nan) if not isinstance(nan, Sym) else r
    if copy: return r.copy()
    x[...] = r
    return x


def where(c, *xy):
    c = asarr(c)
    if not xy: return nonzero(c)
    x, y = xy
    xa, ya = asarr(x), asarr(y)
    if xa.dtype == OBJ or ya.dtype == OBJ: return fallback(rnp.where, c, x, y)
    d = resdtype_where(x, y)
    sh = rnp.broadcast_shapes(c.shape, xa.shape, ya.shape)
    b = lambda a: [a.buf[i] for i in rnp.broadcast_to(a.ix, sh).ravel()]
    vals = [ite(as_bool(cc), cast_raw(p, d), cast_raw(q, d)) for cc, p, q in zip(b(c), b(xa), b(ya))]
    return mkarr(vals, sh, d)


def resdtype_where(x, y):
    import itertools
    ds = {rnp.where(rnp.ones(1, bool), p, q).dtype for p, q in itertools.product(dummy(x, 1), dummy(y, 1))}
    if len(ds) != 1: raise Unsupported("where dtype")
    return ds.pop()


def nonzero(a):
    a = asarr(a)
    m = keyarr(mkarr([as_bool(raw_bool(v)) for v in a.vals()], a.shape, rnp.dtype(bool)))
    return wrapreal(rnp.nonzero(m))
def flatnonzero(a): return nonzero(asarr(a).ravel())[0]
def argwhere(a): return transpose(stack(nonzero(a)))


def grid(v):
    "(k, type) when all values are floats that are multiples of 1/k of moderate size, some of them symbolic"
    tabs = [x.tab if isinstance(x, core.FT) else rnp.asarray([x]) for x in v if isinstance(x, (core.FT, rnp.floating))]
    if len(tabs) != len(v) or not any(isinstance(x, core.FT) for x in v): return None
    d = max((t.dtype for t in tabs), key=lambda d: d.itemsize)
    for k in (1, 2, 4, 8, 16):
        t = [x * k for x in tabs]
        if all(rnp.isfinite(x).all() and (x == rnp.trunc(x)).all() and rnp.abs(x).max() < 2000 for x in t): return k, d
    return None


def mkft_scaled(x, k, d):
    return core.f_bin(rnp.true_divide, x, d.type(k), d)


def srt(vals):
    "sorted copy (compare-exchange network, symbolic)"
    v = list(vals)
    g = grid(v)
    if g:
        k, d = g
        return [mkft_scaled(x, k, d) for x in srt([core.ft_to_iv(core.f_bin(rnp.multiply, x, d.type(k), d)) for x in v])]
    n = len(v)
    for i in range(n):
        for j in range(0, n - 1 - i):
            c = r_cmp("le", v[j], v[j + 1])
            v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(c, v[j + 1], v[j])
    return v


def sort(a, axis=-1, **k):
    a = asarr(a)
    if _concr(a): return fallback(rnp.sort, a, axis)
    if a.ndim == 1 or axis is None: return mkarr(srt(a.vals()), (a.size,), a.dtype)
    m = rnp.moveaxis(a.ix, axis, -1)
    out = mkarr(a.vals(), a.shape, a.dtype)
    mo = rnp.moveaxis(out.ix, axis, -1)
    for src, dst in zip(m.reshape(-1, m.shape[-1]), mo.reshape(-1, m.shape[-1])):
        for p, v in zip(dst, srt([a.buf[i] for i in src])): out.buf[p] = v
    return out


def argsort(a, axis=-1, kind=None, **k):
    a = asarr(a)
    if _concr(a): return fallback(rnp.argsort, a, axis, kind)
    if a.ndim != 1: return fallback(rnp.argsort, a, axis, kind)
    # the order is decided path by path (stable)
    order = []
    vs = a.vals()
    for i in range(len(vs)):
        p = len(order)
        while p and core.E.fork(as_bool(r_cmp("lt", vs[i], vs[order[p - 1]]))): p -= 1
        order.insert(p, i)
    return wrapreal(rnp.array(order, dtype=rnp.intp))


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if isinstance(a, SArr) and a.dtype == OBJ:
        return fallback(rnp.unique, a, return_index, return_inverse, return_counts)
    a = asarr(a)
    if _concr(a) or axis is not None or return_index or return_inverse:
        return fallback(rnp.unique, a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    v = srt(a.vals())
    out, cnt = [], []
    for x in v:
        if out and core.E.fork(as_bool(r_eq(out[-1], x))): cnt[-1] += 1
        else: out.append(x); cnt.append(1)
    u = mkarr(out, (len(out),), a.dtype)
    if return_counts: return u, wrapreal(rnp.array(cnt, dtype=rnp.intp))
    return u


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if x.ndim != 1: raise ValueError("object too deep for desired array" if x.ndim > 1 else "object of too small depth for desired array")
    if not rnp.can_cast(x.dtype, rnp.intp, "safe"):
        if x.size: raise TypeError("Cannot cast array data from %r to dtype('int64') according to the rule 'safe'" % x.dtype)
        raise TypeError("Cannot cast array data from %r to dtype('int64') according to the rule 'safe'" % x.dtype)
    minlength = operator.index(minlength)
    w = asarr(weights) if weights is not None else None
    if _concr(x, w): return fallback(rnp.bincount, x, weights, minlength)
    if w is not None and w.shape != x.shape: raise ValueError("The weights and list don't have the same length.")
    vs = x.vals()
    if builtins.any(core.E.fork(as_bool(r_cmp("lt", v, 0))) for v in vs): raise ValueError("'list' argument must have no negative elements")
    n = minlength
    if vs:
        mx = vs[0]
        for v in vs[1:]: mx = r_max(mx, v)
        if core.E.fork(as_bool(r_cmp("ge", mx, minlength))): n = core.E.pick(mx) + 1
    d = rnp.dtype(float) if w is not None else rnp.dtype(rnp.intp)
    acc = [cast_raw(0, d)] * n
    ws = [cast_raw(v, d) for v in w.vals()] if w is not None else [1] * len(vs)
    for v, ww in zip(vs, ws):
        lo, hi = rng(v)
        for p in range(builtins.max(lo, 0), builtins.min(hi, n - 1) + 1):
            acc[p] = ite(r_eq(v, p), elem("add", d, d, acc[p], ww), acc[p])
    return mkarr(acc, (n,), d)


def histogram(a, bins=10, range=None, density=None, weights=None):
    a = asarr(a)
    if isinstance(bins, builtins.range): bins = list(bins)
    if _concr(a, bins, weights) or isinstance(bins, (int, str)) or weights is not None or density:
        return fallback(rnp.histogram, a, bins, range, density, weights)
    e = realarr(asarr(bins))
    if (rnp.diff(e) < 0).any(): raise ValueError("`bins` must increase monotonically, when an array")
    n = len(e) - 1
    cnt = []
    for k in builtins.range(n):
        c = 0
        for v in a.vals():
            hi = r_cmp("lt", v, e[k + 1]) if k < n - 1 else r_cmp("le", v, e[k + 1])
            c = r_add(c, as_int(b_and(r_cmp("ge", v, e[k]), hi)))
        cnt.append(c)
    return mkarr(cnt, (n,), rnp.dtype(rnp.intp)), wrapreal(e)


def searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)
    if _concr(a, v) or sorter is not None: return fallback(rnp.searchsorted, a, v, side)
    va = asarr(v)
    out = []
    for x in va.vals():
        c = 0
        for y in a.vals(): c = r_add(c, as_int(r_cmp("lt" if side == "left" else "le", y, x)))
        out.append(c)
    return _out(out, va.shape, rnp.dtype(rnp.intp))


def digitize(x, bins, right=False):
    b = realarr(asarr(bins))
    if len(b) > 1 and (rnp.diff(b) < 0).any(): return fallback(rnp.digitize, x, bins, right)
    return searchsorted(bins, x, "left" if right else "right")


def isin(a, t, **k):
    a, t = asarr(a), asarr(t).ravel()
    if _concr(a, t) or k: return fallback(rnp.isin, a, t, **k)
    tv = t.vals()
    return mkarr([b_or(*[as_bool(r_eq(v, x)) for x in tv]) for v in a.vals()], a.shape, rnp.dtype(bool))
in1d = isin


def ravel_multi_index(multi, dims, mode="raise", order="C"):
    if _concr(multi, dims) or mode != "raise" or order != "C": return fallback(rnp.ravel_multi_index, multi, dims, mode, order)
    dims = shp(dims)
    multi = [asarr(m) for m in multi]
    r = None
    for m, n in zip(multi, dims):
        if m.dtype.kind not in "iu": raise TypeError("only int indices permitted")
        if core.E.fork(b_or(*[b_or(r_cmp("lt", v, 0), r_cmp("ge", v, n)) for v in m.vals()])): raise ValueError("invalid entry in coordinates array")
        m = m.astype(rnp.int64)
        r = m if r is None else r * n + m
    return r if r.ndim else r._one()


def unravel_index(idx, shape, order="C"):
    if _concr(idx, shape) or order != "C": return fallback(rnp.unravel_index, idx, shape, order)
    sh = shp(shape)
    a = asarr(idx)
    if a.dtype.kind not in "iu": raise TypeError("only int indices permitted")
    n = int(rnp.prod(sh, dtype=int))
    if core.E.fork(b_or(*[b_or(r_cmp("lt", v, 0), r_cmp("ge", v, n)) for v in a.vals()])): raise ValueError("index is out of bounds for array with size %d" % n)
    out = []
    rem = [as_int(v) for v in a.vals()]
    for s in reversed(sh):
        out.append([r_mod(v, s) for v in rem])
        rem = [r_floordiv(v, s) for v in rem]
    d = rnp.dtype(rnp.intp)
    return tuple(_out(o, a.shape, d) for o in reversed(out))


def take(a, i, axis=None, **k):
    a = asarr(a)
    if axis is None: return a.ravel()[i if not isinstance(i, list) else asarr(i)]
    return a[(slice(None),) * (axis % a.ndim) + (i if not isinstance(i, list) else asarr(i),)]


def clip(a, lo=None, hi=None, **k):
    r = asarr(a) if not isinstance(a, Sym) else a
    if lo is not None: r = ufunc("maximum", r, lo)
    if hi is not None: r = ufunc("minimum", r, hi)
    return r


def cumsum(a, axis=None, dtype=None, **k):
    a = asarr(a)
    if _concr(a): return fallback(rnp.cumsum, a, axis, dt(dtype))
    if axis is None: a = a.ravel(); axis = 0
    if a.ndim != 1: return fallback(rnp.cumsum, a, axis, dt(dtype))
    d = rnp.cumsum(rnp.ones(1, a.dtype), dtype=dt(dtype)).dtype
    out, s = [], None
    for v in a.vals():
        s = cast_raw(v, d) if s is None else elem("add", d, d, s, cast_raw(v, d)); out.append(s)
    return mkarr(out, a.shape, d)


def diff(a, n=1, axis=-1):
    a = asarr(a)
    for _ in builtins.range(n):
        k = axis % a.ndim
        hi = a[(slice(None),) * k + (slice(1, None),)]; lo = a[(slice(None),) * k + (slice(None, -1),)]
        a = hi != lo if a.dtype.kind == "b" else hi - lo
    return a


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if not a.ndim or not b.ndim: return a * b
    if a.ndim <= 2 and b.ndim <= 2: return matmul(a, b)
    return fallback(rnp.dot, a, b)
def _msum(x, **k): return sum_(x, dtype=x.dtype, **k) if x.dtype != OBJ and x.dtype.kind != "b" else any_(x, **k) if x.dtype.kind == "b" else sum_(x, **k)


def round_(a, decimals=0, **k):
    if _concr(a) or decimals: return fallback(rnp.round, a, decimals)
    x = a if isinstance(a, Sym) else asarr(a)
    if isinstance(x, Sym) and isinstance(x.v, (IV,)): return x
    if isinstance(x, SArr) and x.dtype.kind in "iu": return x
    return ufunc("rint", x)


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape: return False
    return bool(all_(a == b))


def issubdtype(a, b):
    a = REALT.get(a, a) if isinstance(a, type) else a
    b = REALT.get(b, b) if isinstance(b, type) else b
    return rnp.issubdtype(PYTYPES.get(a, a) if isinstance(a, type) else a, PYTYPES.get(b, b) if isinstance(b, type) else b)


def iinfo(d): return rnp.iinfo(dt(d) if not isinstance(d, rnp.dtype) else d)
def finfo(d): return rnp.finfo(dt(d))
def result_type(*a): return rnp.result_type(*[x.dtype if isinstance(x, SArr) else dt(x) if isinstance(x, type) else unsym(x) for x in a])
def can_cast(a, b, casting="safe"): return rnp.can_cast(a.dtype if isinstance(a, SArr) else dt(a), dt(b), casting)
def shares_memory(a, b): return a.buf is b.buf and rnp.shares_memory(a.ix, b.ix)
may_share_memory = shares_memory
def ndim(a): return asarr(a).ndim
def shape(a): return asarr(a).shape
def size(a, axis=None): return asarr(a).size if axis is None else asarr(a).shape[axis]
def isscalar(x): return isinstance(x, Sym) or rnp.isscalar(x)
def ndenumerate(a):
    a = asarr(a)
    for i in rnp.ndindex(*a.shape): yield i, a[i]
def fromiter(it, dtype, count=-1): return asarr(list(it), dtype)
def array_equiv(a, b): return array_equal(a, b)
def average(a, axis=None, weights=None, **k):
    if weights is None: return mean(a, axis)
    return sum_(asarr(a) * weights, axis) / sum_(asarr(weights) if asarr(weights).shape == asarr(a).shape else weights, axis)


# ------------------------------------------------------------------ less common functions
def copyto(dst, src, casting="same_kind", where=True):
    if where is True: dst[...] = src
    else: dst[...] = _wh(where, src, dst).astype(dst.dtype)
def _wh(c, a, b):
    "where, without promoting the type of b"
    a = broadcast_to(asarr(a), asarr(b).shape)
    return where(broadcast_to(asarr(c), asarr(b).shape), a, b)
def put(a, ind, v, mode="raise"):
    ind = asarr(ind).ravel(); v = asarr(v).ravel()
    for t in range(ind.size): a.flat[ind[t]] = v[t % v.size]
def putmask(a, mask, v):
    v = asarr(v).ravel(); mask = asarr(mask)
    a[...] = _wh(mask, mkarr([v.vals()[t % v.size] for t in range(a.size)], a.shape, v.dtype), a).astype(a.dtype)
def place(a, mask, v):
    mask = asarr(mask); n = 0
    v = asarr(v).ravel()
    for t, c in enumerate(mask.vals()):
        if core.E.fork(as_bool(c)): a.flat[t] = v[n % v.size]; n += 1
def fill_diagonal(a, v, wrap=False):
    if a.ndim != 2 or wrap: raise Unsupported("fill_diagonal")
    v = asarr(v).ravel()
    for t in range(builtins.min(a.shape)): a[t, t] = v[t % v.size]
def put_along_axis(*a, **k): raise Unsupported("put_along_axis")
def compress(c, a, axis=None): return (ravel(asarr(a)) if axis is None else asarr(a))[(slice(None),) * (axis or 0) + (flatnonzero(c),)]
def extract(c, a): return ravel(asarr(a))[flatnonzero(ravel(asarr(c)))]
def _argm(sign):
    def f(a, axis=None, out=None, keepdims=False):
        a = asarr(a)
        if _concr(a) or a.dtype == OBJ or a.dtype.kind == "f": return fallback((rnp.argmin, rnp.argmax)[sign > 0], a, axis=axis, keepdims=keepdims)
        sh, rows = _red(a, axis, keepdims)
        out = []
        for r in rows:
            if not r: raise ValueError("attempt to get argmax of an empty sequence")
            best, at = r[0], 0
            for t, v in list(enumerate(r))[1:]:
                c = r_cmp("gt" if sign > 0 else "lt", as_int(v), as_int(best))
                best, at = ite(c, as_int(v), as_int(best)), ite(c, t, at)
            out.append(at)
        return _out(out, sh, rnp.dtype("int64"))
    return f
argmax, argmin = _argm(1), _argm(-1)
def ptp(a, axis=None, **k): return ufunc("subtract", max_(a, axis=axis, **k), min_(a, axis=axis, **k))
def cumprod(a, axis=None, **k): return fallback(rnp.cumprod, a, axis=axis, **k)
def _nanred(name):
    real = getattr(rnp, name)
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = asarr(a)
        if k or _concr(a) or a.dtype == OBJ: return fallback(real, a, axis=axis, **(dict(keepdims=keepdims) if keepdims else {}), **k)
        base = dict(nansum=sum_, nanmax=max_, nanmin=min_)[name]
        if a.dtype.kind != "f": return base(a, axis=axis, keepdims=keepdims)
        sh, rows = _red(a, axis, keepdims)
        vals = []
        for r in rows:
            keep = [v for v in r if not core.E.fork(as_bool(un_elem("isnan", rnp.dtype(bool), a.dtype, v)))]
            vals.append(raw(base(mkarr(keep, (len(keep),), a.dtype))) if keep else a.dtype.type(0 if name == "nansum" else rnp.nan))
        return _out(vals, sh, a.dtype)
    return f
nansum, nanmax, nanmin = _nanred("nansum"), _nanred("nanmax"), _nanred("nanmin")
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarr(a)
    if k or dtype is not None or _concr(a) or a.dtype == OBJ: return fallback(rnp.var, a, axis=axis, ddof=ddof, keepdims=keepdims, **k)
    m = mean(a, axis=axis, keepdims=True)
    q = sum_(ufunc("square", ufunc("subtract", a, m)), axis=axis, keepdims=keepdims)
    ax = range(a.ndim) if axis is None else axis if isinstance(axis, tuple) else (axis,)
    return ufunc("true_divide", q, q.dtype.type(rnp.prod([a.shape[i] for i in ax]) - ddof))
def std(a, *x, **k): return ufunc("sqrt", var(a, *x, **k))
def divmod_(a, b): return ufunc("floor_divide", a, b), ufunc("remainder", a, b)
def outer(a, b): return ufunc("multiply", ravel(asarr(a)).reshape(-1, 1), ravel(asarr(b)))
def inner(a, b):
    a, b = asarr(a), asarr(b)
    if not a.ndim or not b.ndim: return a * b
    return _msum(a.reshape(a.shape[:-1] + (1,) * (b.ndim - 1) + a.shape[-1:]) * b, axis=-1)
def vdot(a, b): return _msum(ravel(asarr(a)) * ravel(asarr(b)))
def matmul(a, b, **k):
    a, b = asarr(a), asarr(b)
    if k or a.ndim > 2 or b.ndim > 2 or not a.ndim or not b.ndim: return fallback(rnp.matmul, a, b, **k)
    if a.shape[-1] != b.shape[0]: raise ValueError("matmul: mismatch")
    if b.ndim == 1: return _msum(a * b, axis=-1)
    if a.ndim == 1: return _msum(a.reshape(-1, 1) * b, axis=0)
    return _msum(a.reshape(a.shape + (1,)) * b.reshape((1,) + b.shape), axis=1)
def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if not isinstance(axes, int): return fallback(rnp.tensordot, a, b, axes)
    k = int(rnp.prod(a.shape[a.ndim - axes:], dtype=int))
    return matmul(a.reshape((-1, k)), b.reshape((k, -1))).reshape(a.shape[:a.ndim - axes] + b.shape[axes:]) if a.ndim > axes or b.ndim > axes else vdot(a, b)
def einsum(sub, *ops, **k):
    if k or not isinstance(sub, str) or "..." in sub: return fallback(rnp.einsum, sub, *ops, **k)
    sub = sub.replace(" ", "")
    ins, arrow, out = sub.partition("->")
    ins = ins.split(",")
    if not arrow: out = "".join(sorted(c for c in set(sub) - {","} if sub.count(c) == 1))
    if builtins.any(len(set(i)) != len(i) for i in ins): return fallback(rnp.einsum, sub, *ops)
    al = out + "".join(sorted(set("".join(ins)) - set(out)))
    r = None
    for i, o in zip(ins, ops):
        o = asarr(o)
        o = transpose(o, [i.index(c) for c in al if c in i]).reshape([o.shape[i.index(c)] if c in i else 1 for c in al])
        r = o if r is None else r * o
    if len(al) > len(out): r = sum_(r, axis=tuple(range(len(out), len(al))), dtype=r.dtype)
    return r
def kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim: return fallback(rnp.kron, a, b)
    n = a.ndim
    r = a.reshape([x for s in a.shape for x in (s, 1)]) * b.reshape([x for s in b.shape for x in (1, s)])
    return r.reshape([p * q for p, q in zip(a.shape, b.shape)])
def trace(a, offset=0, **k): return sum_(diagonal(a, offset), axis=-1)
def _gat(fn, pick=lambda x: [x]):
    "rearrangement of one or several arrays with zeros in between, through the positions of the elements"
    def f(*args, **kw):
        arrs = []
        def ids(x, top=True):
            if isinstance(x, SArr):
                r = rnp.arange(x.size).reshape(x.shape) + 1 + builtins.sum(y.size for y in arrs); arrs.append(x); return r
            if isinstance(x, (list, tuple)): return type(x)(ids(v) for v in x)
            return unsym(x)
        a2 = [ids(asarr(args[0]) if not isinstance(args[0], (list, tuple)) else args[0])] + [unsym(x) for x in args[1:]]
        if not arrs or builtins.any(x.dtype == OBJ for x in arrs): return fallback(fn, *args, **kw)
        d = rnp.result_type(*[x.dtype for x in arrs])
        r = fn(*a2, **{k: unsym(v) for k, v in kw.items()})
        pool = [cast_raw(0, d)] + [cast_raw(v, d) for x in arrs for v in x.vals()]
        return mkarr([pool[i] for i in r.ravel()], r.shape, d)
    return f
triu, tril, diag, diagflat, dstack, block = [_gat(getattr(rnp, n)) for n in "triu tril diag diagflat dstack block".split()]
_padz = _gat(rnp.pad)
def pad(a, w, mode="constant", **k):
    a = asarr(a)
    cv = k.pop("constant_values", 0)
    if k or not isinstance(mode, str) or (mode not in ("edge", "wrap", "reflect", "symmetric") and (mode != "constant" or not isinstance(cv, (int, float)))): return fallback(rnp.pad, a, w, mode, **k)
    if mode != "constant" or cv == 0: return _padz(a, w, mode)
    r = _padz(a, w); m = rnp.pad(rnp.zeros(a.shape, bool), unsym(w), constant_values=True)
    r[wrapreal(m)] = cv
    return r
def take_along_axis(a, idx, axis):
    a, idx = asarr(a), asarr(idx)
    if axis is None: return ravel(a)[ravel(idx)]
    axis %= a.ndim
    g = []
    for i in range(a.ndim):
        if i == axis: g.append(idx)
        else: g.append(wrapreal(rnp.arange(a.shape[i]).reshape([-1 if j == i else 1 for j in range(a.ndim)])))
    return a[tuple(g)]
def intersect1d(a, b, assume_unique=False, **k):
    if k: return fallback(rnp.intersect1d, a, b, assume_unique, **k)
    a, b = unique(a), unique(b)
    return a[isin(a, b)].astype(rnp.result_type(a.dtype, b.dtype))
def union1d(a, b): return unique(concatenate([ravel(asarr(a)), ravel(asarr(b))]))
def setdiff1d(a, b, assume_unique=False):
    a = ravel(asarr(a)) if assume_unique else unique(a)
    return a[ufunc("logical_not", isin(a, b))]
def setxor1d(a, b, **k):
    a, b = unique(a), unique(b)
    return sort(concatenate([a[ufunc("logical_not", isin(a, b))], b[ufunc("logical_not", isin(b, a))]]))
class vectorize:
    def __init__(self, f, otypes=None, signature=None, excluded=None, **k):
        self.f, self.o = f, otypes
        if signature or excluded: raise Unsupported("vectorize")
    def __call__(self, *a):
        if builtins.any(isinstance(x, SArr) and x.dtype == OBJ for x in a): raise Unsupported("vectorize")
        a = [asarr(x) for x in a]
        sh = rnp.broadcast_shapes(*[x.shape for x in a])
        a = [broadcast_to(x, sh).ravel() for x in a]
        r = [self.f(*[x[t] for x in a]) for t in range(int(rnp.prod(sh, dtype=int)))]
        if not r: raise Unsupported("vectorize of nothing")
        o = self.o
        if isinstance(r[0], tuple): return tuple(asarr([y[i] for y in r], *([dt(o[i])] if o else [])).reshape(sh) for i in range(len(r[0])))
        x = asarr(r) if not o else asarr(r, dt(o[0] if not isinstance(o, str) else o))
        return x.reshape(sh) if sh else x[0]
def frompyfunc(f, nin, nout, **k):
    def g(*a):
        a = [asarr(x) for x in a]
        sh = rnp.broadcast_shapes(*[x.shape for x in a])
        a = [broadcast_to(x, sh).ravel() for x in a]
        r = [f(*[x[t] for x in a]) for t in range(int(rnp.prod(sh, dtype=int)))]
        if nout != 1: raise Unsupported("frompyfunc")
        return mkarr(r, sh, OBJ) if sh else r[0]
    return g
def nditer(a, flags=(), *x, **k):
    if flags or x or k or not isinstance(a, SArr): raise Unsupported("nditer")
    return iter([a.flat[t] for t in range(a.size)])
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if equal_nan or _concr(a, b): return fallback(rnp.isclose, a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    a, b = ufunc("add", asarr(a), 0.0), ufunc("add", asarr(b), 0.0)
    return ufunc("less_equal", ufunc("absolute", ufunc("subtract", a, b)), ufunc("add", ufunc("multiply", ufunc("absolute", b), rtol), atol))
def allclose(a, b, *x, **k): return bool(all_(isclose(a, b, *x, **k)))
def fix(a): return ufunc("trunc", a)
def apply_along_axis(f, axis, a, *x, **k):
    a = moveaxis(asarr(a), axis, -1)
    rs = [asarr(f(a[i], *x, **k)) for i in rnp.ndindex(*a.shape[:-1])]
    r = stack(rs).reshape(a.shape[:-1] + rs[0].shape)
    if not rs[0].ndim: return r
    return moveaxis(r, -1, axis) if rs[0].ndim == 1 else r
def apply_over_axes(f, a, axes):
    r = asarr(a)
    for x in (axes if isinstance(axes, (list, tuple)) else [axes]):
        y = f(r, axis=x)
        r = y if y.ndim == r.ndim else expand_dims(y, x)
    return r
def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro") or (axis is not None and not isinstance(axis, int) and ord == 2) or (axis is None and ord == 2 and asarr(x).ndim != 1): return fallback(rnp.linalg.norm, x, ord, axis, keepdims)
    x = asarr(x)
    return ufunc("sqrt", sum_(ufunc("square", x.astype(float) if x.dtype.kind != "f" else x), axis=axis, keepdims=keepdims))


class _Linalg:
    def __getattr__(self, n):
        return norm if n == "norm" else getattr(FMod(rnp.linalg), n)


class _MG:
    def __init__(self, g): self.g = g
    def __getitem__(self, k): return wrapreal(self.g[unsym(k)])


# ------------------------------------------------------------------ types
class _Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.dtype is not None and issubclass(x.dtype.type, cls.real_)
        return isinstance(x, cls.real_)
    def __subclasscheck__(cls, c):
        c = REALT.get(c, c)
        return issubclass(c, cls.real_)
    def __eq__(cls, o):
        return cls is o or cls.real_ is o
    def __hash__(cls): return hash(cls.real_)
    def __call__(cls, x=0, *a):
        if has_sym(x) or isinstance(x, SArr):
            if isinstance(x, SArr): return x.astype(cls.real_) if x.ndim else x.astype(cls.real_)._one()
            d = rnp.dtype(cls.real_); return scal(cast_raw(raw(x), d), d)
        return cls.real_(x, *a)


REALT = {}
def _mkty(n):
    r = getattr(rnp, n)
    ns = {"real_": r}
    try:
        if r not in (rnp.integer, rnp.floating, rnp.number, rnp.generic, rnp.signedinteger, rnp.unsignedinteger, rnp.inexact, rnp.complexfloating):
            ns["dtype"] = rnp.dtype(r)
    except TypeError:
        pass
    c = _Meta(n, (), ns)
    REALT[c] = r
    return c


class Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        v = getattr(rnp, n)
        if isinstance(v, (float, int, str)) or v is None: return v
        if isinstance(v, types.ModuleType): return FMod(v)
        if callable(v) and not isinstance(v, type):
            return lambda *a, **k: fallback(v, *a, **k)
        return v


class FMod:
    "submodule: everything by fallback"
    def __init__(self, m): self.m = m
    def __getattr__(self, n):
        v = getattr(self.m, n)
        if isinstance(v, types.ModuleType): return FMod(v)
        if isinstance(v, type): return v
        if callable(v): return lambda *a, **k: fallback(v, *a, **k)
        return v


def module():
    m = Module("numpy")
    g = globals()
    for n in """array asarray ascontiguousarray asanyarray copy full empty zeros ones zeros_like ones_like empty_like full_like arange concatenate
      atleast_1d atleast_2d hstack vstack stack column_stack append transpose swapaxes moveaxis expand_dims squeeze flip fliplr flipud rollaxis roll tile
      broadcast_to rot90 diagonal ravel reshape delete insert repeat array_split split prod count_nonzero mean nanmean nanmedian median nan_to_num where
      nonzero flatnonzero argwhere sort argsort unique bincount histogram searchsorted digitize isin in1d ravel_multi_index unravel_index take clip cumsum
      diff dot array_equal issubdtype iinfo finfo result_type can_cast shares_memory may_share_memory ndim shape size isscalar ndenumerate copyto fromiter
      average put putmask place fill_diagonal put_along_axis compress extract argmax argmin ptp nansum nanmax nanmin var std outer inner vdot matmul tensordot
      einsum kron trace triu tril diag diagflat dstack block pad take_along_axis intersect1d union1d setdiff1d setxor1d vectorize frompyfunc nditer isclose allclose
      fix apply_along_axis apply_over_axes array_equiv""".split():
        setattr(m, n, g[n])
    m.sum, m.max, m.min, m.amax, m.amin, m.any, m.all, m.round, m.around, m.product = sum_, max_, min_, max_, min_, any_, all_, round_, round_, prod
    for n in UNARY + BINARY: setattr(m, n, UF(n))
    m.divide, m.mod, m.abs, m.bitwise_not = m.true_divide, m.remainder, m.absolute, m.invert
    m.row_stack = vstack
    m.ndarray = SArr
    for n in """bool_ int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 intp uintp int_ uint intc longlong ulonglong double single
      complex64 complex128 integer floating number generic signedinteger unsignedinteger inexact object_""".split():
        if hasattr(rnp, n): setattr(m, n, next((c for c, r in REALT.items() if r is getattr(rnp, n)), None) or _mkty(n))
    m.dtype = rnp.dtype
    m.newaxis, m.nan, m.inf, m.pi = None, rnp.nan, rnp.inf, rnp.pi
    m.NaN = rnp.nan
    m.mgrid, m.ogrid = _MG(rnp.mgrid), _MG(rnp.ogrid)
    m.s_, m.index_exp, m.errstate, m.lib, m.exceptions, m.testing = rnp.s_, rnp.index_exp, rnp.errstate, rnp.lib, rnp.exceptions, rnp.testing
    m.ndindex = rnp.ndindex
    m.__version__ = rnp.__version__
    m.random = FMod(rnp.random)
    m.linalg = _Linalg()
    m.divmod = divmod_
    if not hasattr(rnp, "in1d"): del m.in1d
    m.__path__ = []
    return m
