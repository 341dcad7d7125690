import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg["frame"])
    n, cols = int(np.prod(scan)), frame[1]
    s = S(h, scan, frame, lens_for(n, cfg["pat"]), cfg.get("ev", "uint32"), distinct=False)
    ap = [[h.pick("a%d_%d" % (i, k), o) for k, o in enumerate(a)] for i, a in enumerate(cfg["apertures"])]
    if len(ap) == 1 and h.pick("scalar", [0, 1]): args = ap[0]
    else:
        seq = h.pick("as", [tuple, list])
        args = [seq(a[k] for a in ap) for k in range(3)]
    r = h.mod("stempy.image").virtual_darkfield(s.sa, *args)
    want = []
    for p in range(n):
        c = []
        for f in s.ev[p]:
            for e in f:
                for cx, cy, rr in ap:
                    # twice the distances, so that half-integer centres and radii stay integral
                    y, x = 2 * (e // cols) - int(2 * cy), 2 * (e % cols) - int(2 * cx)
                    c.append(y * y + x * x < int(2 * rr) ** 2 if rr > 0 else False)
        want.append(h.count(c))
    h.same_ints(r, want, scan, "number of electrons inside the apertures")
    s.unchanged()
    h.reach("done")
