import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg["frame"])
    n = int(np.prod(scan))
    lens = lens_for(n, cfg["pat"])
    npix = int(np.prod(frame))
    evs = [[h.int("e%d_%d" % (p, i), 0, npix - 1) for i in range(sum(lens[p]))] for p in range(n)]
    arrs = [h.arr(e, cfg.get("ev", "uint32")) for e in evs]
    # one flat list of electrons per position (frames may also be listed separately)
    data = arrs if h.pick("as", [0, 1]) else h.obj(arrs, (n,))
    r = h.mod("stempy.image").calculate_sum_sparse(data, frame if h.pick("dims", [0, 1]) else list(frame))
    want = [h.count([e == q for es in evs for e in es]) for q in range(npix)]
    h.same_ints(r, want, frame, "electrons counted per pixel")
    h.reach("done")
