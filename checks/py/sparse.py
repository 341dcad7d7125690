"""symbolic sparse arrays and their dense meaning (independent of the package)"""
import itertools
import numpy as np


class S:
    "data: symbolic electrons; dense(p, q): electrons of position p at flat pixel q"
    def __init__(self, h, scan, frame, lens, ev="uint32", distinct=True, pre="e", **kw):
        """lens[p][f]: number of electrons of frame f of position p (every position has the same number of frames)"""
        self.h, self.scan, self.frame, self.lens = h, tuple(scan), tuple(frame), lens
        self.npix = int(np.prod(frame)); self.n = int(np.prod(scan))
        assert len(lens) == self.n
        self.ev = []
        arrs = []
        nf = len(lens[0])
        for p, fl in enumerate(lens):
            assert len(fl) == nf
            row = []
            for f, k in enumerate(fl):
                es = [h.int("%s_%d_%d_%d" % (pre, p, f, i), 0, self.npix - 1) for i in range(k)]
                if distinct:
                    for a, b in itertools.combinations(es, 2): h.assume(a != b)
                row.append(es)
                arrs.append(h.arr(es, ev))
            self.ev.append(row)
        self.data = h.obj(arrs, (self.n, nf))
        self.sa = h.mod("stempy.io").SparseArray(self.data, self.scan, self.frame, **kw)
        self._d = {}

    def at(self, p, q):
        "number of electrons of position p at pixel q"
        if (p, q) not in self._d:
            self._d[p, q] = self.h.count([e == q for fr in self.ev[p] for e in fr])
        return self._d[p, q]

    def dense_ix(self):
        "index array of the dense equivalent: position * npix + pixel"
        return np.arange(self.n * self.npix).reshape(self.scan + self.frame)

    def vals(self, ix):
        "values of an array of dense indices"
        return [self.at(int(i) // self.npix, int(i) % self.npix) for i in np.asarray(ix).ravel()]

    def unchanged(self, msg="the original array is unchanged"):
        h, sa = self.h, self.sa
        ok = tuple(sa.scan_shape) == self.scan and tuple(sa.frame_shape) == self.frame and tuple(sa.data.shape) == (self.n, len(self.lens[0]))
        conds = [ok]
        if ok:
            for p in range(self.n):
                for f in range(len(self.lens[0])):
                    x = h.flat(sa.data[p, f])
                    if len(x) != len(self.ev[p][f]): conds.append(False)
                    else: conds += [h.eq(h.exact(a), b) for a, b in zip(x, self.ev[p][f])]
        h.check(h.all(conds), msg)


def sparse_counts(h, sa):
    """meaning of a SparseArray returned by the package: {(position, pixel): count}, as a function; reads only .data"""
    data = sa.data
    rows = []
    for p in range(data.shape[0]):
        row = []
        for f in range(data.shape[1]):
            row += [h.exact(x) for x in h.flat(data[p, f])]
        rows.append(row)
    return rows


def check_sparse(h, sa, scan, frame, want, msg):
    """sa is a SparseArray of these shapes whose position p, pixel q holds want(p, q) electrons, nothing outside"""
    SA = h.mod("stempy.io").SparseArray
    if not isinstance(sa, SA): return h.check(False, msg + ": not a SparseArray")
    if tuple(sa.scan_shape) != tuple(scan) or tuple(sa.frame_shape) != tuple(frame): return h.check(False, msg + ": shape")
    n, npix = int(np.prod(scan)), int(np.prod(frame))
    if sa.data.shape[0] != n: return h.check(False, msg + ": number of positions")
    rows = sparse_counts(h, sa)
    conds = []
    for p in range(n):
        for x in rows[p]: conds += [x >= 0, x < npix]
        for q in range(npix):
            conds.append(h.eq(h.count([x == q for x in rows[p]]), want(p, q)))
    # no electron twice in one frame: reductions and expansion rely on it
    for p in range(n):
        for f in range(sa.data.shape[1]):
            xs = [h.exact(x) for x in h.flat(sa.data[p, f])]
            for a, b in itertools.combinations(xs, 2): conds.append(a != b)
    h.check(h.all(conds or [True]), msg)


def check_result(h, s, r, ix, msg):
    """r equals the dense equivalent at the dense indices ix: as a dense array, or as a SparseArray"""
    SA = h.mod("stempy.io").SparseArray
    ix = np.asarray(ix)
    if isinstance(r, SA):
        if tuple(r.scan_shape) + tuple(r.frame_shape) != ix.shape: return h.check(False, msg + ": shape")
        ns, nf = int(np.prod(r.scan_shape)), int(np.prod(r.frame_shape))
        w = s.vals(ix)
        check_sparse(h, r, r.scan_shape, r.frame_shape, lambda p, q: w[p * nf + q], msg)
        # and through the package's own expansion
        h.same_ints(r.to_dense(), w, ix.shape, msg + " (densified)")
    else:
        h.same_ints(r, s.vals(ix), ix.shape, msg)


def lens_for(n, pattern):
    "frames per position from a cyclic pattern of electron counts"
    return [pattern[p % len(pattern)] for p in range(n)]
