import types
import numpy as np


class Arr(np.ndarray): pass


def run(h, cfg):
    io = h.mod("stempy.io")
    rows, cols = h.cint("rows", 1, cfg["max"]), h.cint("cols", 1, cfg["max"])
    nf = h.cint("frames", 0, cfg["maxf"])
    calls = []
    class R(io.SectorThreadedMultiPassReader):
        def __init__(self): pass
        def _scan_dimensions(self): return (cols, rows)
        def _num_frames_per_scan(self): return nf
        def _load_frames(self, image, frames):
            calls.append(image)
            image = h.exact(image)
            if not 0 <= image < 2**32: raise TypeError("incompatible function arguments")
            fr = [h.exact(f) for f in h.flat(frames)] if hasattr(frames, "shape") else list(frames)
            if image >= rows * cols: raise ValueError("out of bounds")
            out = []
            for f in fr:
                if f < 0: raise TypeError("incompatible function arguments")
                if f >= nf: raise ValueError("out of bounds")
                b = h.arr([image * 1000 + f, image, f, 0, 0, 0], "int64", (1, 2, 3))
                if not h.sym: b = b.view(Arr)
                b.header = ("header", image, f)
                out.append(b)
            return out
    rd = R()
    h.check(tuple(rd.scan_shape) == (rows, cols), "scan shape is rows x columns")
    h.check(h.eq(rd.num_frames_per_scan, nf), "number of frames per position")
    kind = cfg["pos"]
    if kind == "flat":
        pos = h.int("pos", -2, rows * cols + 1)
        if h.pick("np", [0, 1]): pos = h.np.int64(pos)
        flat = h.exact(pos)
    else:
        r, c = h.int("r", -2, rows + 1), h.int("c", -2, cols + 1)
        pos = h.pick("seq", [tuple, list])((r, c))
        flat = r * cols + c
        bad = h.any(r < 0, r >= rows, c < 0, c >= cols)
    if kind == "flat": bad = h.any(flat < 0, flat >= rows * cols)
    sel = cfg["sel"]
    idx = list(range(nf))
    single = False
    badsel = False
    args = ()
    if sel == "none": args = h.pick("none", [(), (None,)])
    elif sel == "int":
        i = h.int("i", -nf - 2, nf + 1)
        single = True
        badsel = h.any(i < -nf, i >= nf)
        args = (h.np.int64(i) if h.pick("npi", [0, 1]) else i,)
    elif sel == "slice":
        o = lambda n: h.pick(n, [None] + list(range(-nf - 1, nf + 2)))
        sl = slice(o("start"), o("stop"), h.pick("step", [None, 1, 2, -1, -2]))
        idx = idx[sl]
        args = (sl,)
    elif sel == "list":
        k = h.cint("k", 0, 2)
        l = [h.cint("l%d" % j, -nf - 1, nf) for j in range(k)]
        badsel = any(not -nf <= x < nf for x in l)
        idx = [] if badsel else [idx[x] for x in l]
        as_ = h.pick("as", ["list", "array"])
        args = (l if as_ == "list" else h.arr(l, "int64"),)
    elif sel == "mask":
        m = [bool(h.cint("m%d" % j, 0, 1)) for j in range(nf)]
        idx = [j for j in idx if m[j]]
        args = (h.arr(m, "bool") if h.pick("as", [0, 1]) else m,)
    if h.b(h.any(bad, badsel)):
        h.raises(lambda: rd.read_frames(pos, *args), (Exception,), "a selection out of range is an error")
        h.reach("error"); return
    res = rd.read_frames(pos, *args)
    if single:
        i = i.__index__()
        idx = [i + nf if i < 0 else i]
        res = [res]
    h.check(isinstance(res, list) and len(res) == len(idx), "number of frames")
    cond = []
    for b, f in zip(res, idx):
        cond += [b.header[0] == "header", h.eq(b.header[1], flat), h.eq(b.header[2], f), tuple(b.data.shape) == (2, 3), h.eq(h.exact(h.flat(b.data)[0]), flat * 1000 + f)]
    h.check(h.all(cond or [True]), "exactly the frames selected, in order")
    h.reach("done")
