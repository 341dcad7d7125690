"""in-memory h5py: files, groups, data sets (fixed and variable length), attributes"""
import types
import numpy as rnp
import symnp
from symnp import SArr, OBJ, asarr

STORE = {}


class Attrs(dict):
    def __setitem__(self, k, v):
        if isinstance(v, (list, tuple)): v = asarr(v)
        elif isinstance(v, SArr): v = v.copy()
        elif isinstance(v, symnp.Sym):
            v = v if v.dtype is not None else v.astype(symnp.pydt(v.v))
        elif isinstance(v, bool): v = rnp.bool_(v)
        elif isinstance(v, int): v = rnp.int64(v)
        elif isinstance(v, float): v = rnp.float64(v)
        elif v is None: raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        dict.__setitem__(self, k, v)
    def create(self, k, v): self[k] = v
    def modify(self, k, v): self[k] = v


class Node:
    def __init__(self): self.attrs = Attrs()


class Dataset(Node):
    def __init__(self, data, vlen=None):
        super().__init__()
        self.data, self.vlen = data, vlen
    @property
    def shape(self): return self.data.shape
    @property
    def dtype(self): return self.data.dtype
    @property
    def size(self): return self.data.size
    @property
    def ndim(self): return self.data.ndim
    def __len__(self): return len(self.data)
    def __iter__(self): return iter(self[()])
    def __getitem__(self, k):
        r = self.data[k]
        if k == () and not isinstance(r, SArr): return r
        return r.copy() if isinstance(r, SArr) and self.data.dtype != OBJ else _cp(r) if isinstance(r, SArr) else r
    def __setitem__(self, k, v):
        if self.vlen is not None:
            v = asarr(v) if not isinstance(v, SArr) else v
            if v.dtype == OBJ:
                # h5py turns equally long elements into one array first
                n = {asarr(x).size for x in v.vals()}
                if n == {1}: v = symnp.mkarr([symnp.concatenate([asarr(x).ravel() for x in v.vals()])] * self.data.size, self.data.shape, OBJ)
                elif len(n) == 1: raise TypeError("Can't broadcast")
                vals = [asarr(x).astype(self.vlen).copy() for x in v.vals()]
                self.data[k] = symnp.mkarr(vals, v.shape, OBJ)
                return
            t = self.data[k]
            if v.ndim == 1 and (k is Ellipsis or isinstance(t, SArr) and t.dtype == OBJ):
                for i in rnp.ndindex(*t.shape): t[i] = v.astype(self.vlen).copy()
                return
            if v.ndim == 1:
                self.data[k] = v.astype(self.vlen).copy()
                return
            if v.ndim == 2:
                rows = [v[i].astype(self.vlen).copy() for i in range(v.shape[0])]
                self.data[k] = symnp.mkarr(rows, (len(rows),), OBJ)
                return
            raise symnp.Unsupported("vlen assignment")
        self.data[k] = v
    def __sarr__(self): return self.data


def _cp(a):
    if a.dtype == rnp.dtype(object) and a.size and all(isinstance(x, SArr) for x in a.vals()):
        return symnp.mkarr([x.copy() for x in a.vals()], a.shape, OBJ)
    return a.copy()


class Group(Node):
    def __init__(self):
        super().__init__()
        self.kids = {}
    def _walk(self, p, make=False):
        g = self
        for x in p.strip("/").split("/"):
            if x not in g.kids:
                if not make: raise KeyError("Unable to open object (object %r doesn't exist)" % x)
                g.kids[x] = Group()
            g = g.kids[x]
        return g
    def __getitem__(self, p): return self._walk(p)
    def __contains__(self, p):
        try: self._walk(p); return True
        except (KeyError, AttributeError): return False
    def get(self, p, d=None): return self[p] if p in self else d
    def require_group(self, p): return self._walk(p, True)
    def create_group(self, p):
        if p in self: raise ValueError("name already exists")
        return self._walk(p, True)
    def keys(self): return self.kids.keys()
    def values(self): return self.kids.values()
    def items(self): return self.kids.items()
    def __iter__(self): return iter(self.kids)
    def __len__(self): return len(self.kids)
    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if name in self: raise ValueError("Unable to create dataset (name already exists)")
        vlen = getattr(dtype, "vlen", None)
        if data is not None:
            a = asarr(data).copy()
            if shape is not None: a = a.reshape(shape)
            if dtype is not None and vlen is None: a = a.astype(dtype)
            if a.dtype == OBJ and vlen is None: raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
            if vlen is not None:
                a = symnp.mkarr([asarr(x).astype(vlen).copy() for x in a.vals()], a.shape, OBJ)
        else:
            sh = symnp.shp(shape)
            if vlen is not None:
                a = symnp.mkarr([symnp.empty(0, vlen) for _ in range(int(rnp.prod(sh, dtype=int)))], sh, OBJ)
            else:
                a = symnp.zeros(sh, dtype if dtype is not None else rnp.float32)
        d = Dataset(a, vlen)
        par, _, leaf = name.strip("/").rpartition("/")
        (self._walk(par, True) if par else self).kids[leaf] = d
        return d


class File(Group):
    def __new__(cls, path, mode="r", **kw):
        path = str(path)
        if mode in ("w", "w-", "x"):
            if mode != "w" and path in STORE: raise FileExistsError(path)
            STORE.pop(path, None)
        if path in STORE: return STORE[path]
        if mode in ("r", "r+"): raise FileNotFoundError(path)
        o = object.__new__(cls)
        Group.__init__(o)
        STORE[path] = o
        return o
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def flush(self): pass


class VDtype:
    def __init__(self, v): self.vlen = symnp.dt(v)


def special_dtype(vlen=None, **k): return VDtype(vlen)
def vlen_dtype(v): return VDtype(v)


def module():
    m = types.ModuleType("h5py")
    m.File, m.Group, m.Dataset, m.special_dtype, m.vlen_dtype = File, Group, Dataset, special_dtype, vlen_dtype
    m._hl = types.SimpleNamespace(files=types.SimpleNamespace(File=File), dataset=types.SimpleNamespace(Dataset=Dataset))
    m.__path__ = []
    return m
