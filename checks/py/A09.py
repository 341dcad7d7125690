import numpy as np


def run(h, cfg):
    rows, cols = cfg["shape"]
    mx = cfg["max"]
    n = rows * cols
    v = [[h.int("c%d_%d" % (k, i), 0, mx) for i in range(n)] for k in range(2)]
    lo, hi = h.int("lo", 0, mx + 1), h.int("hi", 0, mx + 1)
    nan = cfg.get("nan", [])
    com = h.arr([float("nan") if i in nan else v[k][i] for k in range(2) for i in range(n)], "float64", (2, rows, cols))
    bad = [False if i in nan else h.b(h.any(v[1][i] > hi, v[1][i] < lo)) for i in range(n)]
    if "most" in cfg: h.assume(h.count(bad) <= cfg["most"])
    r = h.mod("stempy.image").filter_bad_sectors(com, (lo, hi))
    if tuple(r.shape) != (2, rows, cols): return h.check(False, "shape of the result")
    got = h.flat(r)
    isbad = [bool(b) for b in bad]
    good = [i for i in range(n) if not isbad[i] and i not in nan]
    for k in range(2):
        for i in range(n):
            g = got[k * n + i]
            if i in nan: h.check(h.isnan(g), "positions without a centre of mass stay so"); continue
            if not isbad[i]:
                h.check(h.no(h.isnan(g)), "good positions are kept")
                h.check(h.close(g, v[k][i]), "good positions are kept")
                continue
            y, x = divmod(i, cols)
            nb = [a * cols + b for a in range(max(0, y - 1), min(rows, y + 2)) for b in range(max(0, x - 1), min(cols, x + 2)) if a * cols + b != i]
            ok = [j for j in nb if j in good]
            if not ok: h.reach("alone"); continue
            h.check(h.no(h.isnan(g)), "a bad position with a good neighbour gets a value")
            if all(j in ok or j in nan for j in nb):
                # twice the median of the neighbours, by rank
                w = [v[k][j] for j in ok]
                m = len(w)
                conds = []
                two = h.fl(g) * 2
                for a in range(m):
                    for b in range(m):
                        if (a != b) == (m % 2 == 1): continue
                        rank = lambda q: h.sum([h.ite(h.any(w[t] < w[q], h.all(h.eq(w[t], w[q]), t < q)), 1, 0) for t in range(m) if t != q])
                        conds.append(h.any(h.no(h.eq(rank(a), (m - 1) // 2)), h.no(h.eq(rank(b), m // 2)), h.close(two, w[a] + w[b])))
                h.check(h.all(conds), "the median of the neighbourhood")
                h.reach("median")
            else:
                h.check(h.any([h.fl(g) >= h.fl(v[k][j]) for j in good]) , "between the good values")
                h.check(h.any([h.fl(g) <= h.fl(v[k][j]) for j in good]), "between the good values")
                h.reach("several")
    h.reach("done")
