import collections, types
import numpy as np
from sparse import *
from S07 import Files, same_meta

FIELDS = "threshold_calculated background_threshold x_ray_threshold number_of_samples min_sample max_sample mean variance std_dev number_of_bins x_ray_threshold_n_sigma background_threshold_n_sigma optimized_mean optimized_std_dev".split()


def extra(sym, cfg):
    m = types.ModuleType("stempy._image")
    m.calls = []
    def rec(name):
        def f(*a, **k):
            m.calls.append((name, a, k))
            return m.ret(name, a, k)
        return f
    for n in "create_stem_images electron_count calculate_thresholds radial_sum calculate_average maximum_diffraction_pattern".split():
        setattr(m, n, rec(n))
    m.ElectronCountOptions = type("ElectronCountOptions", (object,), {})
    m.ElectronCountOptionsClassic = type("ElectronCountOptionsClassic", (object,), {})
    io = types.ModuleType("stempy._io")
    for n in "_reader _sector_reader _threaded_reader _threaded_multi_pass_reader".split(): setattr(io, n, type(n, (object,), {}))
    class _pyreader(object):
        def __init__(self, *a): self.args = a
        def begin(self): return ("begin", self)
        def end(self): return ("end", self)
    io._pyreader = _pyreader
    io._sector_reader.H5Format = types.SimpleNamespace(Frame=0, DataCube=1)
    return {"stempy._image": m, "stempy._io": io}


def aseq(h, got, want):
    got = list(h.flat(got)) if hasattr(got, "dtype") and hasattr(got, "shape") else list(got)
    return len(got) == len(want) and h.all([h.eq(h.exact(a), b) for a, b in zip(got, want)] or [True])


def is_data(h, got, s):
    "nested sequence of the electrons of s, one list of frames per position"
    sh = getattr(got, "shape", None)
    if sh is None or len(sh) != 2 or sh[0] != s.n or sh[1] != len(s.lens[0]): return False
    return h.all([len(h.flat(got[p, f])) == len(s.ev[p][f]) and aseq(h, got[p, f], s.ev[p][f]) for p in range(s.n) for f in range(sh[1])] or [True])


def carray(h, a, shape, vals, dtype):
    "C-contiguous array of this type, shape and values (as handed to C++)"
    return hasattr(a, "dtype") and a.dtype == np.dtype(dtype) and tuple(a.shape) == tuple(shape) and a.flags.c_contiguous and \
        h.all([h.eq(x, v) for x, v in zip(h.flat(a), vals)])


def layout(h, vals, shape, dtype, how):
    "array with these elements in the given memory layout"
    a = h.arr(vals, dtype, shape)
    if how == "C": return a
    if how == "T":
        b = h.arr([vals[i * shape[1] + j] for j in range(shape[1]) for i in range(shape[0])], dtype, (shape[1], shape[0]))
        return b.T
    b = h.arr([x for v in vals for x in (v, 0)], dtype, (shape[0], shape[1] * 2))
    return b[:, ::2]


def stem(h, cfg, im, image, io):
    kind = cfg["input"]
    k = cfg.get("radii", 1)
    ri, ro = [h.int("ri%d" % i, 0, 300) for i in range(k)], [h.int("ro%d" % i, 0, 600) for i in range(k)]
    inner, outer = (ri[0], ro[0]) if k == 1 and h.pick("scalar", [0, 1]) else (list(ri), tuple(ro))
    cen = (h.int("cx", -1, 600), h.int("cy", -1, 600))
    sd = (h.int("sw", 0, 50), h.int("sh", 0, 50))
    imgs = [h.arr([h.int("im%d_%d" % (i, j), 0, 999) for j in range(2)], "uint64", (1, 2)) for i in range(k)]
    im.ret = lambda n, a, kw: list(imgs)
    kw = {}
    if h.pick("give_centre", [0, 1]): kw["center"] = cen
    else: cen = (-1, -1)
    give_sd = h.pick("give_scan", [0, 1])
    if give_sd: kw["scan_dimensions"] = sd
    exp_sd = sd if give_sd else (0, 0)
    s = None
    class Rd(io.ReaderMixin, object):
        def begin(self): return ("begin", self)
        def end(self): return ("end", self)
    want_iter = want_obj = None
    sshape, fshape = tuple(cfg.get("scan", (1, 2))), tuple(cfg.get("frame", (2, 3)))
    if kind == "reader":
        inp = want_iter = Rd()
    elif kind in ("sparse", "counted", "inplace", "listed"):
        s = S(h, sshape, fshape, lens_for(int(np.prod(sshape)), cfg.get("pat", [[1, 0], [2, 1]])))
        inp = s.sa
        exp_sd, exp_fd = sshape[::-1], fshape[::-1]
        if kind in ("counted", "inplace"):
            inp._electron_counted_data = types.SimpleNamespace(scan_dimensions=sshape[::-1], frame_dimensions=fshape[::-1])
            want_obj = inp._electron_counted_data
        if kind == "inplace":
            want_obj = None
            h.pick("how", [lambda: s.sa.reshape(*(sshape[::-1] + fshape)), lambda: s.sa.reshape(*(sshape + fshape[::-1]))])()
            exp_sd, exp_fd = s.sa.scan_shape[::-1], s.sa.frame_shape[::-1]
    elif kind in ("v1", "v1_2d"):
        s = S(h, sshape, fshape, lens_for(int(np.prod(sshape)), [[2], [1]]))
        fd = (h.int("fw", 1, 600), h.int("fh", 1, 600))
        inp = collections.namedtuple("ElectronCountedData", "data scan_dimensions frame_dimensions")(s.data if kind == "v1_2d" else s.data[:, 0], sd, fd)
        exp_sd, exp_fd = sd, fd
    elif kind in ("nd_sparse", "nd_sparse_2d"):
        s = S(h, sshape, fshape, lens_for(int(np.prod(sshape)), [[2], [1]]))
        fd = (h.int("fw", 1, 600), h.int("fh", 1, 600))
        kw["frame_dimensions"] = fd
        inp = s.data if kind == "nd_sparse_2d" else s.data[:, 0]
        exp_fd = fd
    elif kind == "nd_raw":
        n = h.cint("frames", 1, 40)
        inp = h.np.zeros((n, 1, 1), dtype=h.np.uint16)
        bad = [not give_sd] if not give_sd else []
        if not give_sd or h.b(h.all([h.eq(sd[0], 0), h.eq(sd[1], 0)])):
            h.raises(lambda: image.create_stem_images(inp, inner, outer, **kw), (Exception,), "raw data without scan dimensions is an error")
            h.check(not im.calls, "nothing is computed without scan dimensions")
            h.reach("error"); return
    elif kind == "h5":
        n = h.cint("frames", 1, 3)
        hsd = (h.int("hw", 1, 50), h.int("hh", 1, 50))
        pos = [h.int("hp%d" % i, 0, 99) for i in range(n)]
        own, haspos = h.pick("attr", [0, 1]), h.pick("positions", [0, 1])
        with Files(h) as fs:
            with fs.h5.File(fs.path(), "w") as f:
                d = f.create_dataset("frames", data=h.np.zeros((n, 2, 3), dtype=h.np.uint16))
                if own: d.attrs["scan_dimensions"] = hsd
                else: f.create_dataset("stem/images", data=h.np.zeros((2, 4, 5)))
                if haspos: f.create_dataset("scan_positions", data=h.arr(pos, "int64"))
                if own: exp_r = hsd
                else: exp_r = (5, 4)
                image.create_stem_images(f, inner, outer, **kw)
                h.check(len(im.calls) == 1, "one call")
                rd = im.calls[0][1][0][1]
                h.check(h.all(len(rd.args) == 5, rd.args[0].shape == (n, 2, 3), aseq(h, rd.args[2], exp_r), h.eq(rd.args[4], n)), "the frames, their number and the scan size of the file")
                h.check(aseq(h, rd.args[1][()] if haspos else rd.args[1], pos if haspos else list(range(n))), "image numbers of the file")
                a = im.calls[0][1]
                h.check(h.all(a[0][0] == "begin", a[1][0] == "end", a[1][1] is rd, aseq(h, a[2], ri), aseq(h, a[3], ro), aseq(h, a[4], exp_sd), aseq(h, a[5], cen), len(a) == 6), "arguments in the order of the imaging core")
        h.reach("done"); return
    else:
        for bad in (None, "x", 3, [1, 2]):
            h.raises(lambda: image.create_stem_images(bad, inner, outer, **kw), (Exception,), "an unknown input is an error")
        h.check(not im.calls, "nothing is computed for an unknown input")
        h.reach("done"); return
    r = image.create_stem_images(inp, inner, outer, **kw)
    if len(im.calls) != 1 or im.calls[0][2]: return h.check(False, "one call of the imaging core")
    a = im.calls[0][1]
    if want_obj is not None:
        ok = len(a) == 4 and a[0] is want_obj and h.all(aseq(h, a[1], ri), aseq(h, a[2], ro), aseq(h, a[3], cen))
    elif s is not None:
        ok = len(a) == 6 and h.all(is_data(h, a[0], s), aseq(h, a[1], ri), aseq(h, a[2], ro), aseq(h, a[3], exp_sd), aseq(h, a[4], exp_fd), aseq(h, a[5], cen))
    else:
        ok = len(a) == 6 and a[0][0] == "begin" and a[1][0] == "end" and a[0][1] is a[1][1] and (want_iter is None or a[0][1] is want_iter) and \
            h.all(aseq(h, a[2], ri), aseq(h, a[3], ro), aseq(h, a[4], exp_sd), aseq(h, a[5], cen))
        if kind == "nd_raw" and ok is not False:
            g = a[0][1].args
            ok = h.all(ok, len(g) == 5, g[0] is inp, aseq(h, g[1], list(range(n))), aseq(h, g[2], sd), h.eq(g[4], n), g[3] > 0)
    h.check(ok, "arguments in the order and orientation of the imaging core")
    h.same_ints(r, [v for i in imgs for v in [h.exact(x) for x in h.flat(i)]], (k, 1, 2), "the images of the core are returned")
    h.reach("done")


def count(h, cfg, im, image, io):
    threaded, fshape = cfg["input"] != "classic", tuple(cfg.get("frame", (2, 3)))
    nf, npos = cfg.get("nf", 2), 2
    sshape = (1, 2) if h.pick("sshape", [0, 1]) else (2, 1)
    kw = {}
    opt = {}
    def arg(n, v):
        if h.pick("give_" + n, [0, 1]) if n in cfg.get("vary", []) else True: kw[n] = v; return v
        return dict(number_of_samples=40, background_threshold_n_sigma=4, xray_threshold_n_sigma=10, threshold_num_blocks=1, scan_dimensions=(0, 0), apply_row_dark=False, apply_row_dark_use_mean=True)[n]
    nb = arg("threshold_num_blocks", h.cint("nb", 1, 3))
    ns = arg("number_of_samples", h.int("ns", 0, 1000))
    bg = arg("background_threshold_n_sigma", h.int("bg", -10, 100))
    xr = arg("xray_threshold_n_sigma", h.int("xr", -10, 100))
    sd = arg("scan_dimensions", (h.int("sw", 0, 99), h.int("sh", 0, 99)))
    rd, um = arg("apply_row_dark", bool(h.cint("rd", 0, 1))), arg("apply_row_dark_use_mean", bool(h.cint("um", 0, 1)))
    dark = cfg.get("dark")
    if dark:
        npx = int(np.prod(fshape))
        dv = [h.int("d%d" % i, 0, 200) for i in range(npx)]
        darr = layout(h, dv, fshape, dark["dtype"], dark.get("layout", "C"))
        if dark.get("wrap"):
            darr = image.ImageArray(darr)
            darr._image = "another image"
        kw["darkreference"] = darr
    gain = cfg.get("gain")
    if gain:
        gv = [h.pick("g%d" % i, [0.5, 2.0, 4.0]) for i in range(2)] + [1.0] * (int(np.prod(fshape)) - 2)
        kw["gain"] = layout(h, gv, fshape, gain["dtype"], gain.get("layout", "C"))
    lens = lens_for(npos, cfg.get("pat", [[1, 2], [0, 1]]))
    evs = [[[h.int("e%d_%d_%d" % (p, f, i), 0, 5) for i in range(c)] for f, c in enumerate(l)] for p, l in enumerate(lens)]
    md = types.SimpleNamespace(**{n: h.int("md_" + n, 0, 9) for n in FIELDS})
    data = types.SimpleNamespace(data=[[h.arr(e, "uint32") for e in l] for l in evs], scan_dimensions=sshape[::-1], frame_dimensions=fshape[::-1], metadata=md)
    thr = types.SimpleNamespace(**{n: h.int("t_" + n, 0, 99) for n in "background_threshold xray_threshold optimized_mean number_of_samples min_sample max_sample mean variance std_dev number_of_bins xray_threshold_n_sigma background_threshold_n_sigma optimized_std_dev".split()})
    im.ret = lambda n, a, k: thr if n == "calculate_thresholds" else data
    log = []
    class Blk: pass
    blocks = []
    def mk(base):
        class R(base):
            def __init__(self): pass
            def begin(self): log.append("begin"); return ("begin", self)
            def end(self): return ("end", self)
            def reset(self): log.append("reset")
            def __next__(self):
                b = Blk(); b._block = len(blocks); blocks.append(b); log.append("next")
                return b
        return R()
    rdr = mk({"classic": io.Reader, "threaded": io.SectorThreadedReader, "multipass": io.SectorThreadedMultiPassReader, "pyreader": io.PyReader}[cfg["input"]])
    r = image.electron_count(rdr, **kw)
    names = [c[0] for c in im.calls]
    def gaineq(a): return carray(h, a, fshape, [1 / x for x in gv], "float32")
    if threaded:
        h.check(names == ["electron_count"], "counting is called once")
        a = im.calls[0][1]
        o = a[1]
        h.check(a[0] is rdr and isinstance(o, im.ElectronCountOptions), "reader and options are handed over")
        h.check(h.all(h.eq(o.threshold_number_of_blocks, nb), h.eq(o.number_of_samples, ns), h.eq(o.background_threshold_n_sigma, bg), h.eq(o.x_ray_threshold_n_sigma, xr),
                      aseq(h, o.scan_dimensions, sd), bool(o.apply_row_dark_subtraction) == rd, bool(o.apply_row_dark_use_mean) == um), "options as given by the user")
    else:
        h.check(names == ["calculate_thresholds", "electron_count"], "thresholds, then counting")
        t = list(im.calls[0][1])
        h.check([b for b in t[0]] == list(range(nb)) and log[:nb] == ["next"] * nb and len(blocks) == nb, "the thresholds are computed from the first blocks")
        h.check("reset" in log and log.index("reset") < log.index("begin") and log.index("reset") >= nb, "the reader is reset before counting")
        h.check(len(t) == 4 + bool(dark) + bool(gain), "arguments of the threshold calculation")
        if dark: h.check(carray(h, t.pop(1), fshape, dv, "float32"), "dark reference of the threshold calculation")
        h.check(h.all(h.eq(t[1], ns), h.eq(t[2], bg), h.eq(t[3], xr)), "samples and sigmas of the threshold calculation")
        if gain: h.check(gaineq(t[4]), "gain of the threshold calculation")
        a = im.calls[1][1]
        o = a[2]
        h.check(a[0][0] == "begin" and a[0][1] is rdr and a[1][0] == "end" and a[1][1] is rdr and isinstance(o, im.ElectronCountOptionsClassic), "reader and options are handed over")
        h.check(h.all(h.eq(o.background_threshold, thr.background_threshold), h.eq(o.x_ray_threshold, thr.xray_threshold), h.eq(o.optimized_mean, thr.optimized_mean),
                      aseq(h, o.scan_dimensions, sd), bool(o.apply_row_dark_subtraction) == rd, bool(o.apply_row_dark_use_mean) == um), "options as given by the user and the thresholds")
    h.check(carray(h, o.dark_reference, fshape, dv, "float32") if dark else getattr(o, "dark_reference", None) is None, "dark reference of the counting")
    h.check(gaineq(o.gain) if gain else getattr(o, "gain", None) is None, "gain of the counting")
    SA = io.SparseArray
    ok = isinstance(r, SA) and tuple(r.scan_shape) == sshape and tuple(r.frame_shape) == fshape and tuple(r.data.shape) == (npos, len(lens[0]))
    h.check(ok, "scan and frame shape of the result")
    h.check(h.all([len(h.flat(r.data[p, f])) == len(evs[p][f]) and aseq(h, r.data[p, f], evs[p][f]) for p in range(npos) for f in range(len(lens[0]))]), "events of the result")
    h.check(same_meta(h, r.metadata, {"electron_counting": {n: getattr(md, n) for n in FIELDS}}), "metadata of the result")
    h.reach("done")


def run(h, cfg):
    im = h.mod("stempy._image")
    im.calls.clear()
    io, image = h.mod("stempy.io"), h.mod("stempy.image")
    (stem if cfg["what"] == "stem" else count)(h, cfg, im, image, io)
