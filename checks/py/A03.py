import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg["frame"])
    n, cols = int(np.prod(scan)), frame[1]
    s = S(h, scan, frame, lens_for(n, cfg["pat"]), cfg.get("ev", "uint32"), distinct=False)
    cen = tuple(h.pick("centre", cfg["centres"]))
    r = h.mod("stempy.image").radial_sum_sparse(s.sa, cen)
    nb = max(frame) // 2
    want = []
    for p in range(n):
        d2 = []
        for f in s.ev[p]:
            for e in f:
                x, y = e // cols - cen[0], e % cols - cen[1]
                d2.append(x * x + y * y)
        for k in range(nb):
            top = (k + 1) * (k + 1)
            want.append(h.count([h.all([d >= k * k, d <= top if k == nb - 1 else d < top]) for d in d2]))
    h.same_ints(r, want, scan + (nb,), "number of electrons at each radius")
    s.unchanged()
    h.reach("done")
