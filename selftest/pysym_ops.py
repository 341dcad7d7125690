"""Differential self-test of the numpy stand-in: every expression is evaluated on symbolic inputs, and on every path the value
under the path's model must equal numpy's.   python3-vt selftest/pysym_ops.py [SUBSTRING]"""
import os, sys, time, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/pysym"); sys.path.append(V + "/build/z3path")
warnings.simplefilter("ignore")
import numpy as rnp, z3
import core, symnp
from symnp import Sym, SArr
# a: int64 (4,), values -1..2; m: uint32 (2, 3), 0..3; u: uint8 (3,), 250..255; f: float32 (2, 2) halves; i: indices 0..2 (3,); b: bool (4,)
EX = """
a+1 | a*a | a//2 | a%3 | -a | abs(a) | a**2 | a/2 | a>0 | a==a[::-1] | a&1 | a<<1 | ~a | a.astype(np.uint8) | u+u | u+np.uint8(3) | u*2 | u-np.uint8(255) | u.sum() | u.sum(dtype=np.uint8)
m.sum() | m.sum(axis=0) | m.sum(axis=1) | m.sum(axis=(0,1)) | m.max() | m.max(axis=1) | m.min(0) | m.mean() | m.mean(axis=0) | m.T | m.ravel() | m.reshape(3,2) | m.flatten() | m[:,1] | m[1] | m[::-1,::2] | m[...,0] | m[None].shape
np.sum(m,axis=0) | np.max(m) | np.argmax(a) | np.argmin(a) | a.argmax() | a.argmin() | m.argmax(axis=1) | np.argmax(m,axis=0) | np.ptp(a) | np.median(a) | np.nanmedian(f) | np.nanmean(f) | np.nansum(f) | np.nanmax(f) | np.nanmin(f) | np.cumsum(a) | np.cumprod(a) | np.prod(a) | np.diff(a) | np.var(a) | np.std(a) | m.var(axis=0) | a.std()
np.sort(a) | np.argsort(a,kind='stable') | np.unique(a) | np.unique(a,return_counts=True) | np.unique(a,return_inverse=True)[1] | np.unique(a,return_index=True)[1] | np.bincount(i) | np.bincount(i,minlength=5) | np.bincount(i,weights=u,minlength=3) | np.histogram(a,bins=[-1,0,1,2])[0] | np.histogram(i,bins=3,range=(0,3))[0] | np.searchsorted([0,1,2],a) | np.digitize(a,[0,1])
np.where(a>0,a,0) | np.where(a>0)[0] | np.nonzero(a)[0] | np.flatnonzero(a) | np.argwhere(a) | np.count_nonzero(a) | a[a>0] | m[m>1] | a[b] | a[i] | m[:,i[:2]] | m[i[0]%2] | np.take(a,i) | np.clip(a,0,1) | a.clip(0) | np.any(a) | np.all(a) | np.isin(a,[0,2]) | np.in1d(a,i) | np.intersect1d(a,i) | np.union1d(a,i) | np.setdiff1d(a,i) | np.setxor1d(np.unique(a),np.unique(i))
np.concatenate([a,i]) | np.hstack((a,i)) | np.vstack((a,a)) | np.stack((a,a),axis=1) | np.column_stack((a,a)) | np.append(a,3) | np.repeat(a,2) | np.repeat(i,[1,0,2]) | np.tile(a,2) | np.roll(a,1) | np.flip(m,1) | np.rot90(m) | np.insert(a,1,7) | np.delete(a,1) | np.array_split(a,3)[0] | np.split(a,2)[1] | np.pad(a,1) | np.pad(m,((0,1),(1,0)))
np.ravel_multi_index((i,i),(3,3)) | np.unravel_index(m,(2,2))[1] | np.divmod(m,2)[1] | divmod(m,2)[0] | np.minimum(a,0) | np.maximum(a,i[0]) | np.dot(a,a) | a@a | np.inner(a,a) | np.outer(a,i) | np.multiply.outer(a,i) | np.matmul(m,m.T) | np.einsum('i,i->',a,a) | np.einsum('ij->j',m) | np.tensordot(m,m,axes=2)[()] | u@u | np.dot(u,u) | np.dot(m,m.T) | m.dot([1,2,3]) | np.vdot(u,u) | np.inner(m,m) | np.nansum(f,axis=0) | np.argmin(m,axis=1) | np.pad(a,1,mode='edge') | np.einsum('ij,ij->i',m,m) | np.vdot(a,a) | np.trace(f) | np.kron(a,i) | np.cross(i,i)
np.sqrt(m) | np.hypot(a,1) | np.floor(f) | np.ceil(f) | np.round(f) | np.rint(f) | f.round() | np.trunc(f) | f.astype(np.int64) | f*2 | f.sum() | f.mean(axis=0) | np.linalg.norm(a) | np.linalg.norm(m,axis=1) | np.square(a) | np.power(a,2) | np.sign(a) | np.floor_divide(a,2) | np.remainder(a,2) | np.mod(a,2) | np.abs(a) | np.isnan(f) | np.isclose(f,0.5) | np.allclose(f,0.5) | np.array_equal(a,a) | np.array_equal(a,i) | np.equal(a,0) | np.logical_and(a>0,b) | np.logical_or(b,a>0) | np.logical_not(b) | np.bitwise_and(a,1) | np.greater_equal(a,1) | np.fmin(a,0)
sum(a) | max(a) | sorted(a) | list(a) | a.tolist() | int(a[0]) | float(f[0,0]) | len(a[a>0]) | [x for x in a if x>0] | np.array([int(x) for x in a]) | np.fromiter((x for x in a),dtype=np.int64) | np.array([a,a]) | np.asarray(m,dtype=np.float32) | np.array(m,copy=True) | np.ascontiguousarray(m.T) | np.asarray(a).astype('uint16') | m.copy() | np.zeros_like(a)+a | np.full(3,a[0]) | np.full_like(m,2)*m | np.ones(3)*i | np.arange(4)+a | np.arange(a[0]+1) | np.zeros(i[0]) | np.linspace(0,1,3)*i | np.meshgrid(i,i)[0] | np.indices((2,3))[1]*m | np.eye(2)*f
np.add.reduce(a) | np.add.reduceat(a,[0,2]) | np.maximum.reduce(a) | np.maximum.accumulate(a) | np.logical_or.reduce(b) | np.apply_along_axis(sum,0,m) | np.apply_along_axis(np.sum,1,m) | np.apply_over_axes(np.sum,m,[0]) | np.vectorize(lambda x:x+1)(a) | np.frompyfunc(lambda x:x+1,1,1)(a).astype(int) | np.take_along_axis(m,np.argsort(m,axis=1,kind='stable'),axis=1) | np.choose(i,[5,6,7]) | np.select([a>0,a<0],[1,-1],0) | np.piecewise(a,[a>0],[1,0]) | np.compress(b,a) | np.extract(b,a) | np.lexsort((a,a)) | np.partition(a,1)[1] | np.interp(i,[0,2],[0,4]) | np.convolve(a,[1,1]) | np.ediff1d(a) | np.gradient(a) | np.average(a) | np.average(a,weights=i[[0,1,2,0]]+1) | np.percentile(a,50) | np.quantile(a,0.5) | np.nan_to_num(f) | np.broadcast_to(a,(2,4)) | np.expand_dims(a,0) | np.squeeze(m[None]) | np.swapaxes(m,0,1) | np.moveaxis(m,0,1) | np.transpose(m) | np.ndim(m) | np.shape(m) | np.size(m) | m.size | m.ndim | m.nbytes | m.itemsize | m.dtype | np.atleast_2d(a) | np.rollaxis(m,1) | np.block([[m],[m]]) | np.dstack((m,m)) | np.triu(f) | np.diag(a) | np.diagonal(f) | np.digitize(a,[0,1],right=True) | np.packbits(b) | np.array(a.tolist()) | bool(b[0]) | not b.any() | (a>0).sum() | (m>1).any(axis=1) | m.any() | m.all(axis=0) | b^True | b|b[::-1] | np.invert(b) | a.dot(a) | a.cumsum() | a.prod() | a.nonzero()[0] | a.take(i) | a.repeat(2) | m.swapaxes(0,1) | m.squeeze() | m.item(0) | a.flat[1] | m.diagonal() | a.view(np.uint64) | a.min(initial=5) | m.sum(keepdims=True) | np.sum(a,where=a>0) | np.result_type(a,u) | np.nanstd(f) | np.histogram2d(i,i,bins=[3,3],range=[[0,3],[0,3]])[0] | np.trapz(a) | np.unique(m,axis=0) | np.array_equiv(a,a) | a.searchsorted(1) | np.sort(m,axis=None) | np.sort(a)[::-1] | np.round(f,1) | np.around(f) | np.fix(f) | np.float32(a[0]) | np.uint32(m[0,0]) | np.int64(f[0,0]) | a[0].item() | a[0].astype(float) | round(f[0,0]) | np.iterable(a) | [tuple(x) for x in m] | np.ndenumerate(a).__next__()[1] | list(zip(a,i)) | dict(enumerate(a))[1] | set(np.arange(3)) | m.reshape(-1) | m.reshape((2,-1)) | m.reshape(3,2,order='F') | m.ravel(order='F') | m[np.newaxis,:,0] | m[:,::-1][0] | m[-1,-1] | m[[0,1],[1,2]] | m[np.ix_([0,1],[0,2])] | np.s_[1:2] | m.transpose(1,0) | m[(slice(None),1)] | np.mean(m,axis=1,dtype=np.float64) | np.add(a,a,out=np.zeros(4,dtype=np.int64)) | np.add(u,u,dtype=np.uint16) | np.matmul(a,a) | np.bincount(np.concatenate([i,i]),minlength=3)
"""
ST = ["x=np.zeros(3,dtype=np.int64); np.add.at(x,i,1); r=x", "x=np.zeros(3,dtype=np.int64); x[i]+=1; r=x", "x=a.copy(); x[x>0]=9; r=x", "x=a.copy(); x[b]=i[0]; r=x", "x=m.copy(); x[i[0]%2,1]=7; r=x", "x=m.copy(); x[:,0]+=1; r=x",
      "x=np.zeros((2,3),dtype=np.uint8); x[...]=m; r=x", "x=u.copy(); x+=1; r=x", "x=np.empty(4); x[:]=a; r=x", "x=a.copy(); x.sort(); r=x", "x=a.copy(); np.put(x,[1],5); r=x", "x=a.copy(); x.fill(i[0]); r=x", "x=a.copy(); np.copyto(x,0,where=b); r=x", "x=a.copy(); np.putmask(x,b,5); r=x", "x=a.copy(); np.place(x,b,[5]); r=x",
      "r=[v for v in np.nditer(a)]", "x=a.copy(); x[1:3]=i[:2]; r=x", "x=a.copy(); x*=2; x-=1; x//=2; r=x", "x=m.astype(float); x/=2; r=x", "x=[]; x.extend(a); r=x", "x=m.copy(); x.T[0]=4; r=x", "x=m.copy(); x.shape=(6,); r=x", "x=np.zeros(3,dtype=np.int64); np.subtract.at(x,i,2); r=x", "x=np.zeros(3,dtype=np.uint64); x+=m[0]; r=x", "x=np.zeros((3,3),dtype=np.int64); np.add.at(x,(i,i),1); r=x", "x=0\nfor v in a: x+=v\nr=x", "x=a.copy(); x[np.where(a>1)]=0; r=x",
      "x=a.copy(); x[~b]=0; r=x", "x=m.copy(); x[m>2]=m[m>2]-1; r=x", "x=np.ma.masked_array(a,b).sum(); r=x", "x=a.copy(); x.put([0],3); r=x", "x=u.copy(); np.add(x,1,out=x); r=x", "x=np.nan_to_num(np.where(b,np.nan,a)); r=x", "x=np.where(b,np.nan,a); r=np.nanmean(x)", "x=np.where(b,np.nan,a); r=np.nansum(x)", "x=np.where(b,np.nan,a); r=np.nanmax(x)", "x=np.where(b,np.nan,a); r=np.nanmin(x)", "x=np.where(b,np.nan,a); r=np.nanmedian(x)", "x=np.where(b,np.nan,a); r=np.isnan(x)"]


def build(np_, get):
    r = {}
    r["a"] = get("a", 4, -1, 2, "int64", (4,)); r["m"] = get("m", 6, 0, 3, "uint32", (2, 3)); r["u"] = get("u", 3, 250, 255, "uint8", (3,))
    r["f"] = get("f", 4, -3, 3, "float32", (2, 2)); r["f"] = r["f"] / np_.float32(2) if hasattr(np_, "float32") else r["f"]
    r["i"] = get("i", 3, 0, 2, "int64", (3,)); r["b"] = get("b", 4, 0, 1, "int64", (4,)) != 0
    return r


def evaluate(code, np_, env):
    g = dict(env, np=np_)
    if code.startswith("x="): exec(code.replace("; ", "\n"), g); return g["r"]
    if code.startswith("r="): exec(code, g); return g["r"]
    return eval(code, g)


def low(x, m):
    "value of a symbolic result under the model"
    if isinstance(x, SArr):
        a = rnp.empty(x.size, dtype=object if x.dtype == object else x.dtype)
        for k, v in enumerate(x.vals()): a[k] = low(v if x.dtype == object else symnp.scal(v, x.dtype) if core.is_sym(v) else v, m)
        return a.reshape(x.shape)
    if isinstance(x, Sym):
        v = x.v
        d = x.dtype or rnp.dtype(float if isinstance(v, core.FT) else bool if core.is_bool(v) else int)
        if isinstance(v, core.IV): return d.type(m.eval(v.e, model_completion=True).as_signed_long())
        if isinstance(v, core.FT): return d.type(v.tab[m.eval(v.iv.e, model_completion=True).as_signed_long() - v.iv.lo] if isinstance(v.iv, core.IV) else v.tab[0])
        return d.type(z3.is_true(m.eval(v, model_completion=True)))
    if isinstance(x, (list, tuple)): return type(x)(low(y, m) for y in x) if type(x) in (list, tuple) else [low(y, m) for y in x]
    if isinstance(x, dict): return {k: low(v, m) for k, v in x.items()}
    return x


def same(x, y):
    if isinstance(x, (list, tuple)): return isinstance(y, (list, tuple)) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, dict): return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(x, rnp.ndarray) or isinstance(y, rnp.ndarray):
        x, y = rnp.asarray(x), rnp.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype: return False
        return bool(rnp.allclose(x.astype(float), y.astype(float), rtol=1e-6, atol=1e-9, equal_nan=True)) if x.dtype.kind in "fiub" else all(same(p, q) for p, q in zip(x.ravel(), y.ravel()))
    if isinstance(y, (int, float, rnp.generic, bool)) and isinstance(x, (int, float, rnp.generic, bool)):
        if isinstance(y, rnp.generic) and isinstance(x, rnp.generic) and x.dtype != y.dtype: return False
        return bool(abs(float(x) - float(y)) <= 1e-6 * max(1, abs(float(y)))) or float(x) != float(x) and float(y) != float(y)
    return x == y


def one(code):
    need = [n for n in "amufib" if n in __import__("re").findall(r"[a-z_0-9]+", code.replace("np.", " "))]
    eng = core.Engine(time.time() + 30)
    bad = []
    def fn(e):
        names = []
        def get(n, k, lo, hi, d, sh):
            if n not in need: return rnp.zeros(sh, d)
            names.append((n, k, d, sh))
            vs = [symnp.pys(e.rint("%s%d" % (n, j), lo, hi)) for j in range(k)]
            return symnp.mkarr([symnp.cast_raw(symnp.raw(v), rnp.dtype(d)) for v in vs], (k,), rnp.dtype(d)).reshape(sh)
        np_ = symnp.module()
        r = err = None
        try: r = evaluate(code, np_, build(np_, get))
        except (core.Unsupported, core.OutOfTime, core.Cut): raise
        except Exception as x: err = type(x).__name__; msg = str(x)
        if not e._check(): return
        m = e.s.model(); vals = e.model_vals()
        def getc(n, k, lo, hi, d, sh): return rnp.array([vals.get("%s%d" % (n, j), 0) for j in range(k)], dtype=d).reshape(sh) if n in need else rnp.zeros(sh, d)
        rr = rerr = None
        try: rr = evaluate(code, rnp, build(rnp, getc))
        except Exception as x: rerr = type(x).__name__
        if err or rerr:
            if err != rerr: bad.append("raises %s(%s), numpy %s" % (err, msg if err else "", rerr)); raise core.OutOfTime()
            return
        l = low(r, m)
        if not same(l, rr): bad.append("got %r, numpy %r for %s" % (l, rr, vals)); raise core.OutOfTime()
    eng.explore(fn)
    return bad, eng


if __name__ == "__main__":
    codes = [c.strip() for l in EX.strip().splitlines() for c in l.split(" | ")] + ST
    n = 0
    for c in codes:
        if len(sys.argv) > 1 and sys.argv[1] not in c: continue
        t = time.time()
        try: bad, eng = one(c)
        except Exception as x: bad, eng = ["selftest: %s %s" % (type(x).__name__, x)], None
        st = "WRONG " + bad[0][:300] if bad else "incomplete: " + eng.incomplete if eng.incomplete else ""
        if st or time.time() - t > 3: print("%-60s %s  (%.1fs, %s paths)" % (c, st, time.time() - t, eng and eng.stat["paths"]))
        n += 1
    print(n, "expressions")
