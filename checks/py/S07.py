import os, shutil, tempfile
import numpy as np
from sparse import *


class Files:
    "scratch directory with the h5py the code under test sees"
    def __init__(self, h):
        self.h = h
        if h.sym:
            import fakeh5
            fakeh5.STORE.clear()
            self.h5, self.d = fakeh5, "/mem"
        else:
            import h5py
            self.h5, self.d = h5py, tempfile.mkdtemp(prefix="s07-")
    def __enter__(self): return self
    def __exit__(self, *a):
        if not self.h.sym: shutil.rmtree(self.d, ignore_errors=True)
    def path(self, n="f.h5"): return os.path.join(self.d, n)


def same_frames(h, sa, scan, frame, want, msg):
    "sa holds exactly the frames want[p] (lists of electrons, in order)"
    if tuple(int(x) for x in sa.scan_shape) != tuple(scan) or tuple(int(x) for x in sa.frame_shape) != tuple(frame): return h.check(False, msg + ": shapes")
    if sa.data.shape[0] != len(want): return h.check(False, msg + ": number of positions")
    conds = []
    for p, fr in enumerate(want):
        if sa.data.shape[1] != len(fr): return h.check(False, msg + ": frames per position")
        for f, es in enumerate(fr):
            x = h.flat(sa.data[p, f])
            if len(x) != len(es): conds.append(False); continue
            conds += [h.eq(h.exact(a), b) for a, b in zip(x, es)]
    h.check(h.all(conds or [True]), msg)


def same_meta(h, a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same_meta(h, a[k], b[k]) is not False for k in b) and h.all([same_meta(h, a[k], b[k]) for k in b] or [True])
    if isinstance(b, str): return a == b
    if isinstance(b, list):
        x = h.flat(a)
        return len(x) == len(b) and h.all([h.eq(h.exact(u), v) for u, v in zip(x, b)])
    if isinstance(b, float): return h.eq(a, b)
    return h.eq(h.exact(a), b)


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg["frame"])
    n = int(np.prod(scan))
    meta = None
    if cfg.get("meta"):
        k = h.int("m", -5, 10**9)
        meta = {"a": k, "user": {"s": "text", "n": {"v": 2.5, "l": [1, 2, 3]}, "b": True}, "empty": {}}
    S_ = S(h, scan, frame, lens_for(n, cfg["pat"]), cfg.get("ev", "uint32"), **({"metadata": dict(meta)} if meta else {}))
    io = h.mod("stempy.io")
    with Files(h) as fs:
        if h.pick("by", [0, 1]): io.save_electron_counts(fs.path(), S_.sa)
        else: S_.sa.write_to_hdf5(fs.path())
        S_.unchanged("writing leaves the array unchanged")
        how = h.pick("load", ["full", "default", "noflyback"])
        if h.pick("via", [0, 1]): r = io.load_electron_counts(fs.path(), **({} if how == "default" else {"keep_flyback": how == "full"}))
        else: r = io.SparseArray.from_hdf5(fs.path(), **({} if how == "default" else {"keep_flyback": how == "full"}))
        if how == "noflyback":
            pos = np.arange(n).reshape(scan)[:, :-1]
            same_frames(h, r, pos.shape, frame, [S_.ev[p] for p in pos.ravel()], "loading without fly-back removes exactly the last column")
        else:
            same_frames(h, r, scan, frame, S_.ev, "the loaded array equals the written one")
        h.check(same_meta(h, r.metadata, meta or {}), "the metadata is kept")
        h.reach(how)
        # what was loaded can be written and loaded again
        r.write_to_hdf5(fs.path("g.h5"))
        r2 = io.load_electron_counts(fs.path("g.h5"))
        same_frames(h, r2, tuple(int(x) for x in r.scan_shape), frame, [[[h.exact(e) for e in h.flat(r.data[p, f])] for f in range(r.data.shape[1])] for p in range(r.data.shape[0])], "a second round trip changes nothing")
    h.reach("done")
