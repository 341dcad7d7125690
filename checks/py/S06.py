import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg["frame"])
    n = int(np.prod(scan))
    s = S(h, scan, frame, lens_for(n, [[1, 1], [0, 2]]))
    op = cfg["op"]
    if op == "ravel":
        how = h.pick("how", ["ravel_scans"])
        r = s.sa.ravel_scans()
        new = (n,) + frame
        h.check(r is s.sa, "ravel_scans returns the array itself")
    else:
        k = h.cint("ndim", 3, 4)
        m = cfg["max"]
        new = tuple(h.cint("d%d" % i, 1, m if i < k - 2 else cfg.get("maxf", m)) for i in range(k))
        ok = int(np.prod(new[:-2])) == n and int(np.prod(new[-2:])) == s.npix
        how = h.pick("how", ["args", "tuple", "setter"])
        def f():
            if how == "args": return s.sa.reshape(*new)
            if how == "tuple": return s.sa.reshape(new)
            s.sa.shape = new
            return s.sa
        if not ok:
            h.raises(f, (ValueError,), "a shape of a different size is an error")
            s.unchanged("a failed reshape leaves the array unchanged")
            h.reach("error"); return
        r = f()
        h.check(r is s.sa, "reshape returns the array itself")
    h.check(tuple(s.sa.shape) == new and s.sa.ndim == len(new) and s.sa.num_scans == n, "the shape is the requested one")
    check_result(h, s, s.sa, s.dense_ix().reshape(new), "reshaping keeps the positions in order and their electrons")
    h.reach("done")
