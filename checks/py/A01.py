import numpy as np
from sparse import *


def run(h, cfg):
    scan, frame = tuple(cfg["scan"]), tuple(cfg["frame"])
    n, cols = int(np.prod(scan)), frame[1]
    s = S(h, scan, frame, lens_for(n, cfg["pat"]), cfg.get("ev", "uint32"), distinct=False)
    com_sparse = h.mod("stempy.image").com_sparse
    ver = cfg["version"]
    crop = h.pick("crop", cfg.get("crops", [None]))
    if isinstance(crop, list): crop = tuple(crop)
    cen = h.pick("centre", cfg.get("centres", [None]))
    if isinstance(cen, list): cen = tuple(cen)
    rep = h.pick("replace", [True, False])
    rad = max(crop) if isinstance(crop, tuple) else crop
    # expected: per position the sums over the electrons inside the region
    exp = []
    for p in range(n):
        es = [e for f in s.ev[p] for e in f]
        rc = [(e // cols, e % cols) for e in es]
        m = len(es)
        if rad is None: exp.append((m, h.sum([y for x, y in rc]), h.sum([x for x, y in rc]))); continue
        ins = []
        for x, y in rc:
            if cen is not None:
                d, lim = (x - cen[0]) * (x - cen[0]) + (y - cen[1]) * (y - cen[1]), rad * rad
            else:
                sx, sy = h.sum([a for a, b in rc]), h.sum([b for a, b in rc])
                d, lim = (m * x - sx) * (m * x - sx) + (m * y - sy) * (m * y - sy), m * m * rad * rad
                if m not in (1, 2, 4): h.assume(h.no(h.eq(d, lim)))       # on the circle, up to rounding
            ins.append(d <= lim)
        exp.append((h.count(ins), h.sum([h.ite(i, y, 0) for i, (x, y) in zip(ins, rc)]), h.sum([h.ite(i, x, 0) for i, (x, y) in zip(ins, rc)])))
    kw = {}
    if crop is not None: kw["crop_to"] = crop
    if cen is not None: kw["init_center"] = cen
    if not rep or h.pick("explicit", [0, 1]): kw["replace_nans"] = rep
    if ver or h.pick("explicit2", [0, 1]): kw["version"] = ver
    r = com_sparse(s.sa, **kw)
    if tuple(r.shape) != (2,) + scan: return h.check(False, "shape of the result")
    got = h.flat(r)
    # split on which positions are empty, then compare with a small concrete denominator
    cnt = [c if isinstance(c, int) else c.__index__() for c, a, b in exp]
    full = [p for p in range(n) if cnt[p]]
    for k in (0, 1):
        conds = []
        for p in range(n):
            x = got[k * n + p]
            if cnt[p]: conds += [h.no(h.isnan(x)), h.close(x, exp[p][1 + k], cnt[p])]
        h.check(h.all(conds or [True]), "mean column" if k == 0 else "mean row")
        conds = []
        for p in range(n):
            x = got[k * n + p]
            if cnt[p]: continue
            if not rep or not full: conds.append(h.isnan(x)); continue
            # mean of the means of the positions with electrons
            D = int(np.lcm.reduce([cnt[q] for q in full]))
            num = h.sum([exp[q][1 + k] * (D // cnt[q]) for q in full])
            conds += [h.no(h.isnan(x)), h.close(x, num, D * len(full))]
        h.check(h.all(conds or [True]), "positions without electrons")
    s.unchanged()
    h.reach("done")
    if len(full) < n: h.reach("empty")
