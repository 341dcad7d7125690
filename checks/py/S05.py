import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg.get("scan", (2,))), tuple(cfg["frame"])
    n = int(np.prod(scan))
    s = S(h, scan, frame, lens_for(n, cfg.get("pat", [[2], [1]])), cfg.get("ev", "uint32"))
    f = h.pick("factor", cfg.get("factors") or list(range(1, max(frame) + 2)))
    inpl = h.pick("in_place", [False, True])
    if any(x % f for x in frame):
        h.raises(lambda: s.sa.bin_frames(f, in_place=inpl), (ValueError,), "a factor that does not divide the frame shape is an error")
        s.unchanged()
        h.reach("error"); return
    r = s.sa.bin_frames(f, in_place=inpl)
    if inpl: h.check(r is s.sa, "in-place binning returns the array itself")
    new = tuple(x // f for x in frame)
    pix = np.arange(s.npix).reshape(frame)
    def members(q):
        i = np.unravel_index(q, new)
        return pix[tuple(slice(k * f, (k + 1) * f) for k in i)].ravel()
    check_sparse(h, r, scan, new, lambda p, q: h.sum([s.at(p, int(m)) for m in members(q)]), "binning the frames moves every electron to its own bin")
    w = [h.sum([s.at(p, int(m)) for m in members(q)]) for p in range(n) for q in range(int(np.prod(new)))]
    h.same_ints(r.to_dense(), w, scan + new, "densified, it equals summing the dense array over the bins")
    if not inpl: s.unchanged()
    h.reach("done")
