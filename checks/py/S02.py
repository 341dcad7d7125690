import numpy as np
from sparse import *
from S01 import conv


def key(h, cfg, frame):
    k = cfg["key"]
    def sl(ax, nm):
        n = frame[ax]
        m = cfg.get("over", 1)
        a = h.pick(nm + "a", [None] + list(range(-n - m, n + m + 1)))
        b = h.pick(nm + "b", [None] + list(range(-n - m, n + m + 1)))
        st = h.pick(nm + "s", [None] + [x for x in range(-cfg.get("maxstep", 2), cfg.get("maxstep", 2) + 1) if x])
        return slice(a, b, st)
    def it(ax, nm): return h.cint(nm, -frame[ax], frame[ax] - 1)
    def mask(shape, nm): return np.array([h.pick("%s%d" % (nm, i), [False, True]) for i in range(int(np.prod(shape)))]).reshape(shape)
    N = slice(None)
    if k == "s": return (sl(0, "i"),)
    if k == "Ns": return (N, sl(1, "i"))
    if k == "ss": return (sl(0, "i"), sl(1, "j"))
    if k == "i": return (it(0, "i"),)
    if k == "ii": return (it(0, "i"), it(1, "j"))
    if k == "is": return (it(0, "i"), sl(1, "j"))
    if k == "si": return (sl(0, "i"), it(1, "j"))
    if k == "m": return (mask(frame, "m"),)
    if k == "ms": return (mask(frame[:1], "m"), sl(1, "j"))
    if k == "sm": return (sl(0, "i"), mask(frame[1:], "m"))
    if k == "oob":
        ax = h.cint("ax", 0, 1)
        return (N,) * ax + (h.pick("v", [frame[ax], -frame[ax] - 1]),)
    raise KeyError(k)


def run(h, cfg):
    scan, frame = tuple(cfg.get("scan", (2,))), tuple(cfg["frame"])
    n = int(np.prod(scan))
    s = S(h, scan, frame, lens_for(n, cfg.get("pat", [[1, 2], [0, 1]])), cfg.get("dtype", "uint32"), sparse_slicing=cfg.get("sparse", True), allow_full_expand=True)
    fk = key(h, cfg, frame)
    sk = tuple(slice(None) if x is None else (slice(*x) if isinstance(x, (list, tuple)) else x) for x in cfg.get("skey", [None] * len(scan)))
    k = sk + fk
    if cfg["key"] == "oob":
        h.raises(lambda: s.sa[conv(h, k)], (IndexError,), "an index outside the frame is an error")
        h.reach("done"); return
    # the positions are selected first, then the pixels of the frames (numpy would move the axis of a
    # mask to the front when an integer is in the same key)
    ix = s.dense_ix()[sk]
    ix = ix[(slice(None),) * (ix.ndim - 2) + fk]
    r = s.sa[conv(h, k)]
    check_result(h, s, r, ix, "selecting frame pixels equals selecting from the dense array")
    s.unchanged()
    h.reach("done")
