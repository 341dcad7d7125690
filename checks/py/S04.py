import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg.get("frame", (1, 2)))
    n = int(np.prod(scan))
    s = S(h, scan, frame, lens_for(n, cfg.get("pat", [[1], [2], [0], [1]])))
    f = h.cint("factor", 1, max(scan) + 1)
    inpl = h.pick("in_place", [False, True])
    if any(x % f for x in scan):
        h.raises(lambda: s.sa.bin_scans(f, in_place=inpl), (ValueError,), "a factor that does not divide the scan shape is an error")
        s.unchanged()
        h.reach("error"); return
    r = s.sa.bin_scans(f, in_place=inpl)
    if inpl: h.check(r is s.sa, "in-place binning returns the array itself")
    new = tuple(x // f for x in scan)
    pos = np.arange(n).reshape(scan)
    def members(p):
        i = np.unravel_index(p, new)
        return pos[tuple(slice(k * f, (k + 1) * f) for k in i)].ravel()
    check_sparse(h, r, new, frame, lambda p, q: h.sum([s.at(int(m), q) for m in members(p)]), "binning the scan sums the frames of each bin")
    total = h.sum([len(h.flat(r.data[p, k])) for p in range(r.data.shape[0]) for k in range(r.data.shape[1])])
    h.check(total == sum(sum(x) for x in s.lens), "no electron is lost or added")
    w = [h.sum([s.at(int(m), q) for m in members(p)]) for p in range(int(np.prod(new))) for q in range(s.npix)]
    h.same_ints(r.to_dense(), w, new + frame, "densified, it equals summing the dense array over the bins")
    if not inpl: s.unchanged()
    h.reach("done")
