import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame, op, ax = tuple(cfg["scan"]), tuple(cfg["frame"]), cfg["op"], cfg["axis"]
    n = int(np.prod(scan))
    kw = {"dtype": getattr(h.np, cfg["dtype"])} if "dtype" in cfg else {}
    s = S(h, scan, frame, lens_for(n, cfg.get("pat", [[2, 1], [1, 0], [0, 0]])), cfg.get("ev", "uint32"), allow_full_expand=True, **kw)
    nd = len(scan) + 2
    axis = {"scan": tuple(range(len(scan))), "frame": tuple(range(len(scan), nd)), "all": tuple(range(nd))}.get(ax if isinstance(ax, str) else "", ax)
    arg = h.pick("as", [ax, axis, axis[::-1]]) if ax in ("scan", "frame") else None if ax == "all" else ax
    if isinstance(arg, list): arg = tuple(arg)
    axt = (axis,) if isinstance(axis, int) else tuple(axis)
    kw = {}
    if "opdtype" in cfg: kw["dtype"] = getattr(h.np, cfg["opdtype"])
    r = getattr(s.sa, op)(arg, **kw) if arg is not None or h.pick("how", [0, 1]) else getattr(s.sa, op)(**kw)
    ix = s.dense_ix()
    ax2 = [a % nd for a in axt]
    keep = [a for a in range(nd) if a not in ax2]
    rows = ix.transpose(keep + ax2).reshape(int(np.prod([ix.shape[a] for a in keep], dtype=int)), -1)
    shape = tuple(ix.shape[a] for a in keep)
    if tuple(getattr(r, "shape", ())) != shape: return h.check(False, op + ": shape of the result")
    got = h.flat(r)
    conds = []
    for x, row in zip(got, rows):
        vs = s.vals(row)
        if op == "sum": conds.append(h.eq(x, h.sum(vs)))
        elif op == "mean": conds.append(h.ratio(x, h.sum(vs), len(vs)))
        else:
            m = vs[0]
            for v in vs[1:]: m = h.ite(v > m, v, m) if op == "max" else h.ite(v < m, v, m)
            conds.append(h.eq(x, m))
    h.check(h.all(conds), op + " equals the reduction of the dense array")
    s.unchanged()
    h.reach("done")
