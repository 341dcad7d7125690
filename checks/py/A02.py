import numpy as np


def run(h, cfg):
    shape = tuple(cfg["shape"])
    mx = cfg["max"]
    vals = [h.int("v%d" % i, 0, mx) * cfg.get("scale", 1) for i in range(int(np.prod(shape)))]
    if cfg.get("zero") is None:
        nf = shape[0] if len(shape) == 3 else 1
        k = len(vals) // nf
        for f in range(nf): h.assume(h.sum(vals[f * k:(f + 1) * k]) > 0)
    frames = h.arr(vals, cfg["dtype"], shape)
    r = h.mod("stempy.image").com_dense(frames)
    if len(shape) == 2: shape = (1,) + shape
    nf, rows, cols = shape
    if tuple(r.shape) != (2, nf): return h.check(False, "shape of the result")
    got = h.flat(r)
    for f in range(nf):
        v = vals[f * rows * cols:(f + 1) * rows * cols]
        m = h.sum(v)
        m = m if isinstance(m, int) else m.__index__()
        sx = h.sum([v[i] * (i % cols) for i in range(len(v))])
        sy = h.sum([v[i] * (i // cols) for i in range(len(v))])
        h.check(h.close(got[f], sx, m), "intensity-weighted mean column")
        h.check(h.close(got[nf + f], sy, m), "intensity-weighted mean row")
    h.check(h.all([h.eq(h.exact(a), b) for a, b in zip(h.flat(frames), vals)]), "the frames are unchanged")
    h.reach("done")
