import contextlib, pathlib, shutil, tempfile


@contextlib.contextmanager
def directory(h, names, others):
    "a directory holding the files; symbolic: in memory, with digits that may be symbolic"
    if not h.sym:
        d = pathlib.Path(tempfile.mkdtemp(prefix="c01-"))
        try:
            for n in names + others: (d / n).touch()
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return
    import loader, symnp
    root = pathlib.Path("/mem-c01")
    old = pathlib.Path.glob, pathlib.Path.iterdir, symnp.SYMSTR
    def glob(self, pat, **k):
        assert self == root
        return iter([self / n for n in names + others if symnp.core.E.fork(loader.globmatch(str(pat), n))])
    pathlib.Path.glob = glob
    pathlib.Path.iterdir = lambda self: iter([self / n for n in names + others])
    symnp.SYMSTR = loader.symstr
    try: yield root
    finally: pathlib.Path.glob, pathlib.Path.iterdir, symnp.SYMSTR = old


def run(h, cfg):
    m = h.mod("stempy.contrib")
    SUF = [m.FileSuffix.STANDARD, m.FileSuffix.OFFSETS, m.FileSuffix.CENTERED]
    version = cfg["version"]
    import loader, symnp
    st = lambda v: loader.symstr(v.v) if isinstance(v, symnp.Sym) else str(v)
    files = []
    for k, kind in enumerate(cfg["files"]):
        num, id = h.int("num%d" % k, cfg.get("lo", 0), cfg["hi"]), h.int("id%d" % k, cfg.get("lo", 0), cfg["hi"])
        suf = SUF[h.pick("suf%d" % k, cfg.get("suf", [0, 1, 2]))]
        th = cfg.get("ths", [4])[h.pick("th%d" % k, list(range(len(cfg.get("ths", [4])))))] if kind == "th" else None
        if kind == "th": id = None
        tail = suf.value + "." + m.suffix_to_filetype[suf]
        if kind == "id": name = "data_scan" + st(num) + "_id" + st(id) + "_electrons" + tail
        elif kind == "th": name = "data_scan" + st(num) + "_th" + str(th) + "_electrons" + tail
        else: name = cfg.get("stamp", ["FOURD_240131_0955_", "FOURD_240131_1234_"])[k % 2] + st(id).zfill(5) + "_" + st(num).zfill(5) + tail
        f = dict(kind=kind, num=num, id=id, suf=suf, th=th, name=name)
        for g in files:
            if g["kind"] == kind and g["suf"] is suf and g["th"] == th and kind != "v1":
                h.assume(h.any(h.no(h.eq(g["num"], num)), h.no(h.eq(g["id"], id)) if id is not None else False))
        files.append(f)
    by = cfg["by"]
    suf = SUF[h.pick("suf", cfg.get("qsuf", [0, 1, 2]))]
    q = h.int("q", cfg.get("lo", 0), cfg["hi"])
    args = {"scan_id" if by == "id" else "scan_num": q}
    if by == "both":
        # the id decides; the number given with it is the scan's
        args = dict(scan_id=q, scan_num=h.int("qn", cfg.get("lo", 0), cfg["hi"]))
    th = None
    if cfg.get("qth"):
        th = cfg["qth"][h.pick("qth", list(range(len(cfg["qth"]))))]
        args["th"] = th
    if suf is not SUF[0] or h.pick("explicit", cfg.get("expl", [0, 1])): args["file_suffix"] = suf
    if version is not None: args["version"] = version
    def match(f):
        if f["suf"] is not suf: return False
        if by in ("id", "both"):
            if f["id"] is None: return False
            c = h.eq(f["id"], q)
            if by == "both": h.assume(h.any(h.no(c), h.eq(f["num"], args["scan_num"])))
            return c
        if th is not None and f["kind"] != "v1" and f["th"] != th: return False
        return h.eq(f["num"], q)
    hit = []
    for v in ([version] if version is not None else [1, 0]):
        hit = [f for f in files if (f["kind"] == "v1") == (v == 1) and bool(match(f))]
        if hit: break
    with directory(h, [f["name"] for f in files], ["notes.txt", "data_scan.txt"]) as d:
        try:
            p, num, id = m.get_scan_path(d, **args)
        except (FileNotFoundError, ValueError) as e:
            h.check(len(hit) != 1, "the file of the scan is found")
            h.check(isinstance(e, FileNotFoundError) == (not hit), "error for several files and for none")
            h.reach("error")
            return
        if not hit: h.fail("no path is returned when the scan has no file")
        if len(hit) > 1: h.fail("no path is returned when the scan has several files")
        f = hit[0]
        h.check(p.name == f["name"] and p.parent == d, "the path is that of the scan's file")
        h.check(h.eq(num, f["num"]), "scan number of the file")
        if f["id"] is None: h.check(id is None, "no id in the file name")
        else: h.check(h.eq(id, f["id"]), "scan id of the file")
        h.reach("found")
