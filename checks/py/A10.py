import itertools, types
import numpy as np


class Arr(np.ndarray): pass
KINDS = ["Reader", "SectorReader", "PyReader", "SectorThreadedReader", "SectorThreadedMultiPassReader"]
BASES = ["_reader", "_sector_reader", "_pyreader", "_threaded_reader", "_threaded_multi_pass_reader"]


def extra(sym, cfg):
    io = types.ModuleType("stempy._io")
    class base(object):
        script, made = (), None
        def __init__(self, *a, **k): self.args, self.kw, self.at, self.log = a, k, 0, []
        def read(self):
            self.at += 1
            return type(self).script[self.at - 1]
        def begin(self): return ("begin", self)
        def end(self): return ("end", self)
        def to_hdf5(self, *a, **k): self.log.append((a, k))
    for n in BASES: setattr(io, n, type(n, (base,), {}))
    io._sector_reader.H5Format = types.SimpleNamespace(Frame="frame", DataCube="cube")
    m = types.ModuleType("stempy._image")
    m.calls = []
    def rec(name):
        def f(*a, **k):
            m.calls.append((name, a, k))
            return m.ret(name, a, k)
        return f
    for n in "create_stem_images get_container create_stem_histogram radial_sum calculate_average maximum_diffraction_pattern electron_count calculate_thresholds".split(): setattr(m, n, rec(n))
    return {"stempy._io": io, "stempy._image": m}


def same(h, got, want):
    got = list(h.flat(got)) if hasattr(got, "dtype") else list(got)
    return len(got) == len(want) and h.all([h.eq(h.exact(a), b) for a, b in zip(got, want)] or [True])


def blocks(h, cfg, io, im):
    kind = cfg["kind"]
    n = cfg["n"]
    vs = [h.int("version%d" % i, 0, 5) for i in range(n)] + [0]
    px = [[h.int("p%d_%d" % (i, j), 0, 65535) for j in range(6)] for i in range(n)]
    script = []
    for i, v in enumerate(vs):
        b = h.arr(px[i] if i < n else [0] * 6, "uint16", (1, 2, 3))
        if not h.sym: b = b.view(Arr)
        b.header = types.SimpleNamespace(version=v, number=i)
        script.append(b)
    C = getattr(io, kind)
    C.script = script
    try:
        r = C("somewhere")
        how = h.pick("how", ["iter", "next", "read"])
        got = []
        if how == "iter":
            for b in r: got.append(b)
        elif how == "next":
            h.check(iter(r) is r, "a reader is its own iterator")
            while True:
                try: got.append(next(r))
                except StopIteration: break
        else:
            while True:
                b = r.read()
                if b is None: break
                got.append(b)
        k = len(got)
        h.check(k <= n and r.at == k + 1, "the core is read once for every block and once for the end")
        h.check(h.all([vs[i] > 0 for i in range(k)] + [h.eq(vs[k], 0)]), "the iteration ends at the first empty block, not before or after")
        # every block is examined after the last one was read
        for i, b in enumerate(got):
            h.check(b._block is script[i] and b.header is script[i].header and b.header.number == i, "every block keeps its own header")
            h.same_ints(b.data, px[i], (1, 2, 3), "every block keeps its own data")
        h.reach("blocks%d" % k)
    finally: C.script = ()


def dispatch(h, cfg, io, im):
    V = io.FileVersion
    h.check([V.VERSION1, V.VERSION2, V.VERSION3, V.VERSION4, V.VERSION5] == [1, 2, 3, 4, 5], "version numbers")
    ver = h.cint("version", 1, 5)
    backend = h.pick("backend", [None, "thread", "multi-pass", "threads", ""])
    path = h.pick("path", ["a.data", ("a", "b"), ["a", "b"]])
    opt = dict(threads=h.int("threads", 0, 9)) if h.pick("options", [0, 1]) else {}
    kw = dict(opt)
    pos = h.pick("positional", [0, 1])
    if not pos: kw["version"] = ver
    if backend is not None or h.pick("none", [0, 1]): kw["backend"] = backend
    if h.pick("default", [0, 1]):
        for k in ("version", "backend"): kw.pop(k, None)
        pos, ver, backend = 0, 1, None
    f = lambda: io.reader(path, *([ver] if pos else []), **kw)
    if ver >= 4 and (backend not in (None, "thread", "multi-pass") or backend == "multi-pass" and ver != 5):
        h.raises(f, (Exception,), "an unknown or unfit backend is an error")
        h.reach("error"); return
    r = f()
    if ver < 4: want, args, o = "Reader", (path, ver), {}
    elif backend is None: want, args, o = "SectorReader", (path, ver), {}
    elif backend == "thread": want, args, o = "SectorThreadedReader", (path, ver), opt
    else: want, args, o = "SectorThreadedMultiPassReader", (path,), opt
    h.check(type(r) is getattr(io, want), "the reader class of this version and backend")
    h.check(len(r.args) == len(args) and r.args[0] is path and list(r.args[1:]) == list(args[1:]), "path and version are handed over")
    h.check(sorted(r.kw) == sorted(o) and h.all([h.eq(r.kw[k], o[k]) for k in o] or [True]), "options are handed over")
    h.reach("done")


def hdf5(h, cfg, io, im):
    r = io.SectorReader("x", 5)
    fmt = h.pick("format", [None, "frame", "cube"])
    H = io.SectorReader.H5Format
    f = {None: None, "frame": H.Frame, "cube": H.DataCube}[fmt]
    io.write_hdf5("out.h5", r, *([] if f is None else [f]))
    h.check(len(r.log) == 1, "written once")
    a, k = r.log[0]
    a = list(a) + [k[x] for x in ("path", "format") if x in k]
    h.check(a == ["out.h5", H.Frame if f is None else f], "path and format are handed over")
    h.reach("done")


def images(h, cfg, io, im):
    image = h.mod("stempy.image")
    r = io.Reader("x", 1)
    kw = {}
    cen, sd = (-1, -1), (0, 0)
    if h.pick("give_centre", [0, 1]): cen = kw["center"] = (h.int("cx", -1, 600), h.int("cy", -1, 600))
    if h.pick("give_scan", [0, 1]): sd = kw["scan_dimensions"] = (h.int("sw", 0, 50), h.int("sh", 0, 50))
    def out(name, dtype, shape, lo=0, hi=999): return h.arr([h.int("%s%d" % (name, i), lo, hi) for i in range(int(np.prod(shape)))], dtype, shape)
    def begin_end(a): return a[0][0] == "begin" and a[1][0] == "end" and a[0][1] is r and a[1][1] is r
    what = cfg["f"]
    if what == "histogram":
        n, bins = cfg["images"], h.int("bins", 1, 20)
        ri, ro = [h.int("ri%d" % i, 0, 300) for i in range(n)], [h.int("ro%d" % i, 0, 600) for i in range(n)]
        ims = [types.SimpleNamespace(i=i) for i in range(n)]
        edges = [out("edge%d_" % i, "int64", (3,)) for i in range(n)]
        freqs = [out("freq%d_" % i, "int64", (3,)) for i in range(n)]
        im.ret = lambda name, a, k: list(ims) if name == "create_stem_images" else (edges if name == "get_container" else freqs)[a[0].i]
        b, f = image.create_stem_histogram(bins, r, ri, ro, **kw)
        st = [c for c in im.calls if c[0] == "create_stem_images"]
        if len(st) != 1: return h.check(False, "the images are made once")
        a = st[0][1]
        h.check(h.all(len(a) == 6, begin_end(a), same(h, a[2], ri), same(h, a[3], ro), same(h, a[4], sd), same(h, a[5], cen)), "arguments in the order of the imaging core")
        hs = [c[1] for c in im.calls if c[0] == "create_stem_histogram"]
        gs = [c[1] for c in im.calls if c[0] == "get_container"]
        h.check(h.all([len(hs) == n] + [x[0] is ims[i] and x[2] is edges[i] and h.eq(x[1], bins) for i, x in enumerate(hs)]), "every image is counted once, in its own bins")
        h.check(h.all([x[0] in ims and h.eq(x[1], bins) for x in gs] or [True]), "the bins of every image")
        h.check(len(b) == n and len(f) == n, "one histogram per image")
        for i in range(n):
            h.same_ints(b[i], [h.exact(x) for x in h.flat(edges[i])], (3,), "bins of image %d" % i)
            h.same_ints(f[i], [h.exact(x) for x in h.flat(freqs[i])], (3,), "frequencies of image %d" % i)
    elif what == "radial":
        res = out("r", "uint64", (2, 1, 3))
        im.ret = lambda *x: res
        g = image.radial_sum(r, **kw)
        if len(im.calls) != 1: return h.check(False, "one call")
        n, a, k = im.calls[0]
        h.check(h.all(n == "radial_sum", not k, len(a) == 4, begin_end(a), same(h, a[2], sd), same(h, a[3], cen)), "arguments in the order of the core")
        h.same_ints(g, [h.exact(x) for x in h.flat(res)], (2, 1, 3), "the radial sum of the core is returned")
    else:
        res = out("a", "float64", (2, 3))
        fn = "calculate_average" if what == "average" else "maximum_diffraction_pattern"
        im.ret = lambda *x: res
        av = image.calculate_average(r)
        n, a, k = im.calls[-1]
        h.check(len(im.calls) == 1 and n == "calculate_average" and len(a) == 2 and begin_end(a), "the reader is handed over")
        h.same_ints(av, [h.exact(x) for x in h.flat(res)], (2, 3), "the average of the core is returned")
        h.check(av._image is res, "with the image of the core")
        if what == "maximum":
            dark = h.pick("dark", ["no", "average", "part"])
            mx = out("m", "uint16", (2, 3))
            im.ret = lambda *x: mx
            d = {"no": None, "average": av, "part": av[:, ::-1] if dark == "part" else None}[dark]
            g = image.maximum_diffraction_pattern(r) if dark == "no" and h.pick("given", [0, 1]) == 0 else image.maximum_diffraction_pattern(r, d)
            n, a, k = im.calls[-1]
            h.check(len(im.calls) == 2 and n == fn and begin_end(a), "the reader is handed over")
            h.check(len(a) == 2 + (dark != "no") and (dark == "no" or a[2] is res), "and the dark reference's image")
            h.same_ints(g, [h.exact(x) for x in h.flat(mx)], (2, 3), "the maximum of the core is returned")
            h.check(g._image is mx, "with the image of the core")
    h.reach("done")


def run(h, cfg):
    im = h.mod("stempy._image")
    im.calls.clear()
    dict(blocks=blocks, dispatch=dispatch, hdf5=hdf5, images=images)[cfg["what"]](h, cfg, h.mod("stempy.io"), im)
