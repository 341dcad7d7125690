import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg["frame"])
    n = int(np.prod(scan))
    s = S(h, scan, frame, lens_for(n, cfg["pat"]), cfg.get("ev", "uint32"), **({"dtype": getattr(h.np, cfg["dtype"])} if "dtype" in cfg else {}))
    how = cfg["mask"]
    m = [h.bool("m%d" % p) if how == "bool" else h.int("m%d" % p, 0, 2) for p in range(n)]
    mask = h.arr(m, "bool" if how == "bool" else how, scan)
    r = h.mod("stempy.image").mask_real_space(s.sa, mask)
    sel = [x if how == "bool" else h.no(h.eq(x, 0)) for x in m]
    want = [h.sum([h.ite(sel[p], s.at(p, q), 0) for p in range(n)]) for q in range(s.npix)]
    h.same_ints(r, want, frame, "sum over the selected positions")
    s.unchanged()
    h.reach("done")
