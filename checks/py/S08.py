import numpy as np
from sparse import *
from S07 import Files


def run(h, cfg):
    scan, frame, v = tuple(cfg["scan"]), tuple(cfg["frame"]), cfg["version"]
    n, npix = int(np.prod(scan)), int(np.prod(frame))
    lens = cfg["lens"]                                   # electrons per stored frame
    evs, arrs = [], []
    for f, k in enumerate(lens):
        es = [h.int("e_%d_%d" % (f, i), 0, npix - 1) for i in range(k)]
        if v == 2 or cfg.get("distinct"):
            for a, b in itertools.combinations(es, 2): h.assume(a != b)
        evs.append(es)
        arrs.append(h.arr(es, "uint32"))
    if cfg["positions"] == "any": pos = [h.cint("p_%d" % i, 0, n - 1) for i in range(len(lens))]
    else:
        pos = []
        for i in range(len(lens)):                       # a permutation
            left = [x for x in range(n) if x not in pos]
            pos.append(h.pick("p_%d" % i, left))
    at = lambda p, q: h.count([e == q for f, es in enumerate(evs) if pos[f] == p for e in es])
    io = h.mod("stempy.io")
    if cfg["via"] == "convert":
        conv = h.mod("stempy.io.compatibility").convert_data_format
        data = h.obj(arrs, (len(arrs),))
        d = conv(data=data, scan_positions=h.arr(pos, cfg.get("ptype", "int64")), scan_shape=scan, frame_shape=frame, from_version=v, to_version=3)
        sa = io.SparseArray(d, scan, frame)
        oscan, keep = scan, range(n)
    else:
        with Files(h) as fs:
            with fs.h5.File(fs.path(), "w") as f:
                if v != 1 or h.pick("attr", [0, 1]): f.attrs["version"] = v
                g = f.require_group("electron_events")
                sp = g.create_dataset("scan_positions", data=h.arr(pos, "int64"))
                sp.attrs["Nx"], sp.attrs["Ny"] = scan[1], scan[0]
                fr = g.create_dataset("frames", (len(arrs),), dtype=fs.h5.special_dtype(vlen=np.uint32))
                fr.attrs["Nx"], fr.attrs["Ny"] = frame[0], frame[1]
                for i, a in enumerate(arrs): fr[i] = a
            fly = h.pick("keep_flyback", [True, False])
            sa = io.load_electron_counts(fs.path(), keep_flyback=fly)
            keep = range(n) if fly else [int(x) for x in np.arange(n).reshape(scan)[:, :-1].ravel()]
            oscan = scan if fly else (scan[0], scan[1] - 1)
            h.reach("fly%d" % fly)
    keep = list(keep)
    check_sparse(h, sa, oscan, frame, lambda p, q: at(keep[p], q), "conversion keeps exactly the electrons of every position")
    if v == 2:                                           # frames stay whole and in their order
        conds = []
        for i, p in enumerate(keep):
            mine = [es for f, es in enumerate(evs) if pos[f] == p]
            got = [h.flat(sa.data[i, f]) for f in range(sa.data.shape[1])]
            got, rest = got[:len(mine)], got[len(mine):]
            conds += [len(x) == 0 for x in rest] + [len(got) == len(mine)]
            for x, es in zip(got, mine):
                conds.append(len(x) == len(es))
                if len(x) == len(es): conds += [h.eq(h.exact(a), b) for a, b in zip(x, es)]
        h.check(h.all(conds or [True]), "conversion keeps every frame whole")
    h.reach("done")
