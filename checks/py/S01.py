import numpy as np
from sparse import *


def key(h, cfg, scan):
    "-> key over the scan axes (usable for numpy and for the package)"
    k = cfg["key"]
    def sl(ax, nm):
        n = scan[ax]
        m = cfg.get("over", 1)
        a = h.pick(nm + "a", [None] + list(range(-n - m, n + m + 1)))
        b = h.pick(nm + "b", [None] + list(range(-n - m, n + m + 1)))
        st = h.pick(nm + "s", [None] + [x for x in range(-cfg.get("maxstep", 2), cfg.get("maxstep", 2) + 1) if x])
        return slice(a, b, st)
    def it(ax, nm): return h.cint(nm, -scan[ax], scan[ax] - 1)
    def mask(shape, nm):
        return np.array([h.pick("%s%d" % (nm, i), [False, True]) for i in range(int(np.prod(shape)))]).reshape(shape)
    def ints(ax, nm, m=2):
        n = h.cint(nm + "n", 0, m)
        return [h.cint("%s%d" % (nm, i), -scan[ax], scan[ax] - 1) for i in range(n)]
    if k == "i": return it(0, "i")
    if k == "ii": return (it(0, "i"), it(1, "j"))
    if k == "s": return sl(0, "i")
    if k == "ss": return (sl(0, "i"), sl(1, "j"))
    if k == "is": return (it(0, "i"), sl(1, "j"))
    if k == "si": return (sl(0, "i"), it(1, "j"))
    if k == "e": return h.pick("ell", [Ellipsis, (Ellipsis,), (), (Ellipsis, slice(None), slice(None)), (slice(None), Ellipsis)])
    if k == "ei": return (Ellipsis, it(len(scan) - 1, "j"), slice(None), slice(None))
    if k == "ie": return (it(0, "i"), Ellipsis)
    if k == "m": return mask(scan, "m")
    if k == "ms": return (mask(scan[:1], "m"), sl(1, "j"))
    if k == "sm": return (sl(0, "i"), mask(scan[1:], "m"))
    if k == "a": return ints(0, "x")
    if k == "as": return (ints(0, "x"), sl(1, "j"))
    if k == "sa": return (sl(0, "i"), np.array(ints(1, "x"), dtype=int))
    if k == "aa":
        n = h.cint("n", 0, 2)
        return ([h.cint("x%d" % i, -scan[0], scan[0] - 1) for i in range(n)], np.array([h.cint("y%d" % i, -scan[1], scan[1] - 1) for i in range(n)], dtype=int))
    if k == "oob":
        ax = h.cint("ax", 0, len(scan) - 1)
        v = h.pick("v", [scan[ax], scan[ax] + 1, -scan[ax] - 1])
        return (slice(None),) * ax + (v,)
    raise KeyError(k)


def conv(h, k):
    "real numpy arrays inside a key -> the engine's"
    if isinstance(k, tuple): return tuple(conv(h, x) for x in k)
    if isinstance(k, np.ndarray): return h.np.array(k)
    return k


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg.get("frame", (1, 2)))
    n = int(np.prod(scan))
    s = S(h, scan, frame, lens_for(n, cfg.get("pat", [[1], [2], [0]])), sparse_slicing=cfg.get("sparse", True), allow_full_expand=True)
    k = key(h, cfg, scan)
    if cfg["key"] == "oob":
        h.raises(lambda: s.sa[k], (IndexError,), "an index outside the scan is an error")
        h.reach("done"); return
    ix = s.dense_ix()[k]
    r = s.sa[conv(h, k)]
    check_result(h, s, r, ix, "indexing equals indexing the dense array")
    s.unchanged()
    h.reach("done")
