import types
import numpy as np
from S07 import Files


class Arr(np.ndarray): pass


def extra(sym, cfg):
    "the compiled reader classes; _pyreader delivers blocks of the data set as property B02 states"
    io = types.ModuleType("stempy._io")
    for n in "_reader _sector_reader _threaded_reader _threaded_multi_pass_reader".split(): setattr(io, n, type(n, (object,), {}))
    class _pyreader(object):
        def __init__(self, data, numbers, scan, size, total):
            self.data, self.numbers, self.scan, self.size, self.total, self.at = data, [x for x in numbers], [x for x in scan], size, total, 0
        def read(self):
            if self.at >= self.total: return types.SimpleNamespace(header=types.SimpleNamespace(version=0))
            end = min(self.at + self.size, self.total)
            b = self.data[self.at:end]
            if not sym: b = b.view(Arr)
            b.header = types.SimpleNamespace(version=3, image_numbers=self.numbers[self.at:end], scan_dimensions=self.scan, images_in_block=end - self.at)
            self.at = end
            return b
        def reset(self): self.at = 0
    io._pyreader = _pyreader
    io._sector_reader.H5Format = types.SimpleNamespace(Frame=0, DataCube=1)
    return {"stempy._io": io}


def stem(h, cfg):
    io = h.mod("stempy.io")
    shape = tuple(cfg["shape"])
    v = [h.int("v%d" % i, 0, 10**6) + (0 if i % 2 else 2**33 + 1) for i in range(int(np.prod(shape)))]
    im = h.arr(v, "uint64", shape)
    names = ["image%d" % i for i in range(h.cint("names", 0, shape[0] + 1))]
    with Files(h) as fs:
        if h.pick("raw", [0, 1]):
            with fs.h5.File(fs.path(), "w") as f: f.create_dataset("frames", data=h.np.zeros((1, 2, 2), dtype=h.np.uint16))
        if len(names) != shape[0]:
            h.raises(lambda: io.save_stem_images(fs.path(), im, names), (Exception,), "another number of names is an error")
            try:
                with fs.h5.File(fs.path(), "r") as f: h.check("stem/images" not in f, "nothing is written then")
            except FileNotFoundError: pass
            h.reach("error"); return
        io.save_stem_images(fs.path(), im if h.pick("arr", [0, 1]) else [im[i] for i in range(shape[0])], names)
        with fs.h5.File(fs.path(), "r") as f:
            d = f["stem/images"]
            h.same_ints(d[()], v, shape, "the images are written unchanged")
            h.check([n if isinstance(n, str) else n.decode() for n in h.flat(d.attrs["names"])] == names, "and their names")
    h.reach("done")


def run(h, cfg):
    if cfg.get("what") == "stem": return stem(h, cfg)
    io = h.mod("stempy.io")
    n, rows, cols = h.cint("n", *cfg["n"]), *cfg["frame"]
    k = cfg.get("sym", 4)
    # the first and the last frames hold arbitrary pixels
    v = [h.int("p%d_%d" % (f, i), 0, 65535) if f < k or f >= n - 1 else (f * 7 + i) % 60000 for f in range(n) for i in range(rows * cols)]
    data = h.arr(v, "uint16", (n, rows, cols))
    if cfg.get("layout"): data = h.arr([v[(f * rows + r) * cols + c] for f in range(n) for c in range(cols) for r in range(rows)], "uint16", (n, cols, rows)).transpose(0, 2, 1)
    sd = (h.int("sw", 1, 9999), h.int("sh", 1, 9999))
    pos = [h.int("n%d" % f, 0, 2**31 - 1) if f < k or f >= n - 1 else n - f for f in range(n)]
    haspos, hassd = h.pick("positions", [0, 1]), h.pick("dimensions", [0, 1])
    kw = {}
    if h.pick("zip", [0, 1]): kw["zip_data"] = True
    if haspos: kw["scan_positions"] = list(pos) if h.pick("list", [0, 1]) else h.arr(pos, "int64")
    if hassd: kw["scan_dimensions"] = h.pick("seq", [tuple, list])(sd)
    with Files(h) as fs:
        io.save_raw_data(fs.path(), data, **kw)
        with fs.h5.File(fs.path(), "a") as f:
            if not hassd:
                f.create_dataset("stem/images", data=h.np.zeros((1, 3, 2)))
                sd = (2, 3)
            rd = io.reader(f) if h.pick("reader", [0, 1]) else io.get_hdf5_reader(f)
            for turn in range(2):
                at = 0
                conds = []
                for b in rd:
                    m = b.data.shape[0]
                    if m == 0 or at + m > n: return h.check(False, "every frame once")
                    if tuple(b.data.shape[1:]) != (rows, cols): return h.check(False, "the frames keep their shape")
                    conds += [h.eq(h.exact(x), y) for x, y in zip(h.flat(b.data), v[at * rows * cols:(at + m) * rows * cols])]
                    num = [h.exact(x) for x in b.header.image_numbers]
                    if len(num) != m: return h.check(False, "one number per frame")
                    conds += [h.eq(x, pos[at + i] if haspos else at + i) for i, x in enumerate(num)]
                    conds += [h.eq(h.exact(x), y) for x, y in zip(b.header.scan_dimensions, sd)]
                    at += m
                h.check(at == n, "every frame once")
                h.check(h.all(conds or [True]), "frames, numbers and scan dimensions as saved")
                rd.reset()
    h.reach("done")
