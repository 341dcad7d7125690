import os
# Which harness configurations decide which property.
CHECKS = {}


def cxx(pid, **kw):
    CHECKS[pid] = kw


Q, T = ("quick", "thorough"), ("thorough",)

cxx("E01", src="E01.cpp", mods=["reader", "mask", "image"],
    bounds="frames 2x2..4x3 (quick), up to 5x4 (thorough); every uint16 pixel value",
    configs=[
        dict(name="3x3", d="-DW=3 -DH=3", validate=True),
        dict(name="4x3", d="-DW=4 -DH=3", cost=3),
        dict(name="2x3", d="-DW=2 -DH=3"),
        dict(name="2x2", d="-DW=2 -DH=2"),
    ])

ALLM = ["reader", "mask", "image"]
_e02 = []
for th in (0, 1):
    for dk in (0, 1):
        for gn in (0, 1):
            for pos, vert in ((0, 0), (1, 1)):
                _e02.append(dict(name="%s_d%dg%dp%d" % ("thr" if th else "cls", dk, gn, pos), validate=(dk and gn and pos),
                                 d="-DDARK=%d -DGAIN=%d -DPOS=%d -DVERT=%d -DGMAX=15 %s" % (dk, gn, pos, vert, "-DTHREADED" if th else "")))
cxx("E02", src="E02.cpp", mods=ALLM, configs=_e02,
    bounds="2-pixel frames (both orientations, both positions), every uint16 pixel, integral dark 0..65535, gain 0..15, thresholds multiples of 0.5 in [-2, 2^21]")
_e05 = []
def e05(name, um, w, h, ft="float", dark=0, gain=0, maxp=15, bg="-1e30", xr="1e30", om="8.0f", **kw):
    _e05.append(dict(name="%s_%s" % (name, "mean" if um else "median"),
                     d="-DUSEMEAN=%d -DW=%d -DH=%d -DFT=%s -DFINT=%d -DDARK=%d -DGAIN=%d -DMAXP=%d -DOM=%s -DBG=%s -DXR=%s" %
                       (um, w, h, ft, ft != "float", dark, gain, maxp, om, bg, xr), **kw))
for um in (1, 0):
    e05("f4x2", um, 4, 2)
    e05("f4x1dg", um, 4, 1, dark=1, gain=1, validate=not um)
    e05("f3x2g", um, 3, 2, gain=1)
    e05("f5x1", um, 5, 1)
    e05("u4x1d", um, 4, 1, ft="uint16_t", dark=1)
    e05("f2x2thr", um, 2, 2, bg="6", xr="9", maxp=7)
    e05("u3x1thr", um, 3, 1, ft="uint16_t", bg="6", xr="9", maxp=7)
for th in (0, 1):
    for dk, gn, um, sy in ((0, 0, 1, 0), (1, 0, 0, 2), (0, 1, 0, 0), (1, 1, 1, 2)):
        _e05.append(dict(name="%s_d%dg%dm%d" % ("thr" if th else "cls", dk, gn, um), src="E05e.cpp",
                         d="-DDARK=%d -DGAIN=%d -DUSEMEAN=%d -DSYM=%d %s" % (dk, gn, um, sy, "-DTHREADED" if th else "")))
cxx("E05", src="E05.cpp", mods=ALLM, configs=_e05,
    bounds="frames 4x2, 4x1, 3x2, 5x1, 2x2, 3x1; pixels and darks symbolic integers 1..15 (0..15), float and uint16 frames, gains {0.5,1,1.5}, optimizedMean 8")
_e03 = []
for i, (sw, sh, how) in enumerate(((3, 1, 0), (2, 2, 1), (1, 3, 2), (2, 2, 3))):
    _e03.append(dict(name="cls_%dx%d_h%d" % (sw, sh, how), d="-DSWD=%d -DSHD=%d -DHOW=%d -DNB=%d -DIPB=%d" % (sw, sh, how, *((2, 1) if i % 2 else (1, 2))), validate=i == 0))
    if how == 1 or how == 0:
        _e03.append(dict(name="thr_%dx%d_h%d" % (sw, sh, how), opts="--no-merge", d="-DTHREADED -DSWD=%d -DSHD=%d -DHOW=%d -DNB=%d -DIPB=%d" % (sw, sh, how, 2, 1)))
_e03.append(dict(name="thr_2x1_b3", opts="--no-merge", d="-DTHREADED -DSWD=2 -DSHD=1 -DHOW=1 -DNB=3 -DIPB=1"))
_e03.append(dict(name="thr_2x1_i2", opts="--no-merge", d="-DTHREADED -DSWD=2 -DSHD=1 -DHOW=2 -DNB=2 -DIPB=2", tiers=T))
_e03.append(dict(name="thr_2x2_b3", opts="--no-merge", d="-DTHREADED -DSWD=2 -DSHD=2 -DHOW=3 -DNB=3 -DIPB=1", tiers=T))
_e03.append(dict(name="errors", src="E03x.cpp", reach=["err", "ok"]))
cxx("E03", src="E03.cpp", mods=ALLM, configs=_e03, bounds="2-3 frames in 1-3 blocks, scans up to 2x2/3x1, arbitrary frame numbers (distinct for serial counting)")
_e04 = []
def e04(name, nums, nb, samples, pre, nt=2, inc=-1, xd="", **kw):
    _e04.append(dict(name=name, d=xd + ' -DTHREADED -DCONC -DSWD=2 -DSHD=1 -DHOW=0 -DNB=%d -DSAMPLES=%d -DPRE=%d -DNT=%d -DINCOMPLETE=%d -DFIXNUM={%s}' % (nb, samples, pre, nt, inc, ",".join(map(str, nums))), opts="--race", **kw))
e04("b3s1", (0, 1, 0), 3, 1, 1)
e04("b3s2i", (0, 1, 1), 3, 2, 1, inc=0)
e04("b2s2", (1, 1), 2, 2, 2)
e04("b3s1t3", (1, 0, 1), 3, 1, 0, nt=3)
e04("b3s1p2", (1, 0, 1), 3, 1, 2)
e04("b4s2p1", (0, 1, 0, 1), 4, 2, 1)
e04("readfail", (0, 1, 0), 3, 1, 1, xd="-DREADFAIL")
e04("short", (0, 1), 2, 3, 0)  # fewer complete blocks than samples requested: KF-E04-short
e04("b4s2", (0, 1, 0, 1), 4, 2, 1, inc=1, tiers=T)
cxx("E04", src="E03.cpp", mods=ALLM, configs=_e04, bounds="2-4 blocks, 2-3 worker threads, 1-2 sample blocks, preemption bound 0..2, every choice at blocking points; data races by happens-before on every explored schedule")
cxx("I01", src="I01.cpp", mods=["mask"], bounds="frames 3x2, 2x3, 5x1, 4x4(thorough 8x8); every radius 0..4096 (0..46340 thorough), every centre -3..4096",
    configs=[dict(name="3x2", d="-DW=3 -DH=2 -DRMAX=4095 -DCMAX=4092", validate=True), dict(name="2x3", d="-DW=2 -DH=3 -DRMAX=32767 -DCMAX=16380"),
             dict(name="5x1", d="-DW=5 -DH=1 -DRMAX=32767 -DCMAX=4092"), dict(name="1x4", d="-DW=1 -DH=4 -DRMAX=4095 -DCMAX=4092"),
             dict(name="4x4", d="-DW=4 -DH=4 -DRMAX=255 -DCMAX=252"), dict(name="8x8", d="-DW=8 -DH=8 -DRMAX=255 -DCMAX=252", tiers=T)])
def i02(name, w, h, sw, sh, nb, ipb, inner, outer, cx, cy, how, pre=0, **kw):
    return dict(name=name, d="-DW=%d -DH=%d -DSWD=%d -DSHD=%d -DNB=%d -DIPB=%d -DINNER={%s} -DOUTER={%s} -DCX=%d -DCY=%d -DHOW=%d -DPRE=%d" %
                (w, h, sw, sh, nb, ipb, inner, outer, cx, cy, how, pre), **kw)
cxx("I02", src="I02.cpp", mods=["reader", "mask"], bounds="frames up to 3x2/2x3 of arbitrary uint16 pixels, 1-3 blocks of 1-2 frames, scans up to 3 positions, 1-2 radius pairs, preemption bound 1",
    configs=[i02("a", 3, 2, 3, 1, 1, 2, "0,1", "2,3", 1, 0, 0, validate=True), i02("b", 2, 3, 1, 3, 2, 1, "1", "2", -1, -1, 1, opts="--race"),
             i02("c", 2, 2, 2, 1, 2, 1, "0", "9", 0, 5, 2, 1, opts="--race"), i02("d", 3, 2, 1, 2, 2, 1, "0,1", "1,2", 0, 1, 3, 0, opts="--race"),
             i02("e", 2, 1, 3, 1, 3, 1, "0", "2", 0, 0, 0, 1, opts="--race", tiers=T),
             i02("big", 257, 256, 1, 1, 1, 1, "0", "600", 0, 0, 0), i02("tall", 1, 9, 1, 1, 1, 1, "2", "5", -1, -1, 0), i02("wide", 9, 2, 1, 1, 1, 1, "1,3", "4,9", -1, -1, 0),
             dict(name="errors", src="I02x.cpp", reach=["err", "ok"])])
for c in CHECKS["I02"]["configs"]:
    if c["name"] == "big": c["d"] += " -DBIG"
cxx("I03", src="I03.cpp", mods=["reader", "mask"], bounds="3-4 positions, 1-2 frames per position, 0-3 electrons per frame at arbitrary pixels of 3x2/2x3/4x4 frames and at the 16 pixels around 65536 of 70000x1/1x70000 frames",
    configs=[i02("a", 3, 2, 3, 1, 1, 1, "0,1", "2,3", 1, 0, 0, validate=True), i02("b", 2, 3, 1, 3, 2, 1, "1", "2", -1, -1, 1), i02("c", 4, 4, 2, 2, 1, 1, "1,0", "3,2", -1, 2, 0),
             i02("big", 70000, 1, 1, 1, 1, 1, "2,0", "4400,5", 65540, -1, 0), i02("tall", 1, 70000, 1, 1, 1, 1, "0", "300", -1, 66000, 0)])
for c in CHECKS["I03"]["configs"]:
    if c["name"] in ("big", "tall"): c["d"] += " -DEVLO=65530 -DEVHI=65545"
    c["d"] += " -DFR=%d -DEV=%d" % ((1, 3) if c["name"] == "c" else (1, 2) if c["name"] in ("big", "tall") else (2, 2))
def i04(name, w, h, sw, sh, nb, ipb, clo, chi, how, pre=0, **kw):
    kw["opts"] = kw.get("opts", "") + " --no-merge"
    return dict(name=name, d="-DW=%d -DH=%d -DSWD=%d -DSHD=%d -DNB=%d -DIPB=%d -DCLO=%d -DCHI=%d -DHOW=%d -DPRE=%d" % (w, h, sw, sh, nb, ipb, clo, chi, how, pre), **kw)
cxx("I04", src="I04.cpp", mods=["reader", "mask"], bounds="frames up to 3x3 of arbitrary uint16 pixels, 1-2 blocks of 1-2 frames (also several per position), scans up to 3 positions, centres -1..5, preemption bound 1",
    configs=[i04("a", 3, 2, 2, 1, 1, 1, -1, 4, 0, validate=True), i04("b", 2, 3, 1, 2, 1, 2, 1, 2, 1), i04("c", 2, 2, 2, 1, 2, 1, 0, 1, 2, 1, opts="--race", cost=3),
             i04("d", 3, 3, 1, 1, 1, 1, -1, 5, 3), i04("e", 4, 1, 3, 1, 2, 1, 0, 0, 0, opts="--race"),
             i04("tall", 2, 6, 1, 1, 1, 1, -1, 0, 0), i04("wide", 7, 2, 1, 1, 1, 1, -1, 0, 0), i04("off", 2, 3, 1, 1, 1, 1, 9, 10, 0),
             dict(name="errors", src="I02x.cpp", d="-DRADIAL", reach=["err", "ok"])])
_i05 = [dict(name="b%d" % nb, d="-DNBINS=%d -DLO0=%d -DLO1=%d -DSPAN=%d" % (nb, lo0, lo1, sp), opts="--no-merge", cost=nb, validate=nb == 7)
        for nb, lo0, lo1, sp in ((1, 0, 3, 9), (2, 0, 2, 9), (3, 0, 3, 20), (5, 0, 1, 20), (7, 0, 2, 24), (10, 7, 8, 12), (49, 0, 0, 6))]
_i05 += [dict(name="user%d" % nb, d="-DUSERBINS -DNBINS=%d" % nb, cost=20) for nb in (1, 3)]
cxx("I05", src="I05.cpp", mods=["reader", "mask"], configs=_i05, bounds="3-pixel images; bins {1,2,3,5,7,10,49} over images with minimum 0..8 and range 0..24; arbitrary increasing integer edges < 2^20 with arbitrary values < 2^21 (1 and 3 bins)")
cxx("I06", src="I06.cpp", mods=["reader", "mask"], bounds="frames 2x2/3x1/1x2 of arbitrary uint16 pixels, 1-3 blocks with 1-3 frames each, dark reference of arbitrary integers",
    configs=[dict(name="avg_a", d="-DAVERAGE -DW=2 -DH=2 -DNB=2 -DIPBS={2,1}", validate=True), dict(name="avg_b", d="-DAVERAGE -DW=3 -DH=1 -DNB=3 -DIPBS={1,2,1}"), dict(name="avg_c", d="-DAVERAGE -DW=1 -DH=2 -DNB=2 -DIPBS={3,2}"),
             dict(name="avg_tall", d="-DAVERAGE -DW=1 -DH=5 -DNB=2 -DIPBS={1,1}"), dict(name="avg_wide", d="-DAVERAGE -DW=5 -DH=2 -DNB=1 -DIPBS={2}"),
             dict(name="avg_many", d="-DAVERAGE -DW=1 -DH=1 -DNB=2 -DIPBS={70000,2} -DBIG"),
             dict(name="max_a", d="-DDARK=0 -DW=2 -DH=2 -DNB=2 -DIPBS={2,1}"), dict(name="max_b", d="-DDARK=1 -DW=3 -DH=1 -DNB=2 -DIPBS={1,2}"), dict(name="max_c", d="-DDARK=1 -DW=1 -DH=2 -DNB=3 -DIPBS={1,2,1}")])
def t01(name, k, nt, pre, extra="", **kw):
    return dict(name=name, d="-DK=%d -DNT=%d -DPRE=%d %s" % (k, nt, pre, extra), opts="--race", **kw)
cxx("T01", src="T01.cpp", mods=[], bounds="1-3 workers, 1-3 tasks with arbitrary arguments (negative ones throw), a task adding a task during shutdown, a task waiting for a later one; preemption bound 1-3, every choice at blocking points",
    configs=[t01("w1k2", 2, 1, 2), t01("w2k2", 2, 2, 2), t01("w2k2e", 2, 2, 1, "-DEARLY"), t01("w3k2", 2, 3, 1), t01("w2k3", 3, 2, 1), t01("w0k0", 1, 1, 3),
             t01("nest1", 1, 1, 2, "-DNESTED", reach=["done", "queued", "rejected"]), t01("nest2", 1, 2, 1, "-DNESTED", reach=["done", "queued", "rejected"]),
             t01("wait2", 1, 2, 1, "-DWAITING"), t01("wait3", 1, 3, 0, "-DWAITING"), t01("w2k2p3", 2, 2, 3, tiers=T), t01("w3k3", 3, 3, 1, tiers=T)])
cxx("R01", src="R01.cpp", mods=["reader"], bounds="1-3 files of 1-3 blocks with 0-3 images of 1-3 rows x 2-3 columns; every other header word and every pixel arbitrary",
    configs=[dict(name="f1", d="-DFILES={2} -DIMLO=1 -DIMHI=2", validate=True), dict(name="f2", d="-DFILES={1,2} -DIMLO=1 -DIMHI=1 -DITER"),
             dict(name="f3", d="-DFILES={1,1,1} -DIMLO=0 -DIMHI=1"), dict(name="e1", d="-DFILES={1,0,1} -DIMLO=1 -DIMHI=3"), dict(name="big", d="-DFILES={1} -DIMLO=1014 -DIMHI=1014"),
             dict(name="reset", d="-DFILES={2,1} -DIMLO=1 -DIMHI=1 -DRESETS=1")])
cxx("R02", src="R02.cpp", mods=["reader"], bounds="2 version-3 blocks with every header field and every pixel arbitrary; one version-2 block with 9 arbitrary pixels spread over its 1600 frames",
    configs=[dict(name="v3", d="-DVER=3 -DNB=2", validate=True), dict(name="v2", d="-DVER=2")])
NM = "--no-merge"
def r03(name, ver, nb, lo=0, hi=0, nxt=False, **kw):
    kw.setdefault("reach", ["done", "whole", "cut"])
    return dict(name=name, opts=NM, d="-DTRUNC -DVER=%d -DNB=%d -DIMAGES=2 -DROWS=1 -DCOLS=3 %s %s" % (ver, nb, "-DALLCUTS -DCUTLO=%d -DCUTHI=%d" % (lo, hi) if hi else "", "-DNEXT" if nxt else ""), **kw)
cxx("R03", src="R03.cpp", mods=["reader"], bounds="version 1: one or two 2-image blocks cut at every byte from 0 to 48, 4080 to 4156 and 8184 to 8216 (thorough: every byte), alone or followed by a second file; version 3: two blocks cut at 27 places; every content",
    configs=[r03("v1a", 1, 1, 0, 48), r03("v1b", 1, 2, 4080, 4156), r03("v1c", 1, 2, 8184, 8216), r03("v1n", 1, 1, 4060, 4108, True, reach=["done", "whole", "cut", "border"]),
             r03("v1all", 1, 2, 0, 8216, tiers=T), r03("v3", 3, 2, validate=True), r03("v3n", 3, 1, nxt=True),
             dict(name="hdr", opts=NM, d="-DPIXELS=18", reach=["done", "read", "rejected"]), dict(name="hdr0", opts=NM, d="-DPIXELS=1", reach=["done", "read", "rejected"]),
             dict(name="errors", src="R03x.cpp", opts=NM)])
def r04(name, ver, nf, order, rev=0, **kw):
    return dict(name=name, d="-DVER=%d -DNF=%d -DORDER={%s} -DREV=%d %s" % (ver, nf, order, rev, kw.pop("xd", "")), **kw)
cxx("R04", src="R04.cpp", mods=["reader"], bounds="four files, 1-3 frames each; every header word and every pixel arbitrary; versions 4 and 5; four orders of files and frames; file names with several module numbers",
    configs=[r04("v4", 4, 1, "0,1,2,3"), r04("v5", 5, 1, "0,1,2,3"), r04("v4p", 4, 2, "2,0,3,1", 1), r04("v5p", 5, 2, "3,1,0,2", 1), r04("v5q", 5, 3, "1,3,2,0", 0), r04("name", 5, 1, "2,0,1,3", xd='-DPREFIX="module3_module21_"')])
def r05(name, ver, np_, orders, fixed, extra="", **kw):
    return dict(name=name, opts=NM, d="-DVER=%d -DNP=%d -DORDERS={%s} -DFIXED={%s} %s" % (ver, np_, orders, fixed, extra), **kw)
cxx("R05", src="R05.cpp", mods=["reader"], bounds="four files with any subset of the sectors of 2-3 positions (256 / 16 / 8 subsets), x and scan width arbitrary, y 0..3, six arbitrary pixels per sector",
    configs=[r05("v5a", 5, 2, "{0,1},{0,1},{0,1},{0,1}", "0,0,0,0"), r05("v4b", 4, 2, "{0,1},{1,0},{0,1},{1,0}", "1,0,1,0"),  r05("v5c", 5, 3, "{0,1,2},{2,1,0},{1,0,2},{2,0,1}", "1,1,0,1")])
cxx("R09", src="R05.cpp", mods=["reader"], bounds="version 1: 2 files of 2 and 1 blocks, 0-5 reads before the reset; sector files: 2-3 positions with any subset of their sectors, any number of reads before one or two resets",
    configs=[dict(name="v1", src="R01.cpp", d="-DFILES={2,1} -DIMLO=1 -DIMHI=1 -DRESETS=1"), dict(name="v1b", src="R01.cpp", d="-DFILES={1,2} -DIMLO=1 -DIMHI=2 -DRESETS=2", opts=NM),
             r05("v5", 5, 2, "{0,1},{1,0},{0,1},{1,0}", "1,0,1,0", "-DRESET=1"), r05("v4", 4, 2, "{0,1},{1,0},{1,0},{1,0}", "1,1,0,1", "-DRESET=2"),
             r05("v5b", 5, 3, "{0,1,2},{2,1,0},{1,0,2},{2,0,1}", "1,1,1,1", "-DRESET=1")])
def r08(name, mode, ver, mods="0,1,2,3", sw=2, sh=1, extra="", nt=1, **kw):
    kw.setdefault("reach", ["read", "rejected"] if "TRUNC" in extra else ["rejected"])
    return dict(name=name, opts=NM + kw.pop("xopts", ""), d="-DMODE=%d -DVER=%d -DMODS={%s} -DSW=%d -DSH=%d -DNT=%d %s" % (mode, ver, mods, sw, sh, nt, extra), **kw)
cxx("R08", src="R08.cpp", mods=["reader"], bounds="four files of one or two sectors; the first cut at 26 places in headers and data; modules 4, 17 and none; every header position; single-threaded, threaded and multi-pass readers (one worker); six arbitrary pixels per sector",
    configs=[r08("cut5", 0, 5, extra="-DTRUNC"), r08("cut4", 0, 4, "3,1,2,0", extra="-DTRUNC"), r08("mod4", 0, 5, "0,1,2,4"), r08("mod4v4", 0, 4, "4,1,2,0"), r08("nomod", 0, 5, "-1"), r08("mod17", 0, 4, "17"),
             r08("pos", 0, 5, extra="-DANYPOS", reach=["read"]),
             r08("mcut", 2, 5, extra="-DTRUNC"), r08("mmod4", 2, 5, "0,1,2,4"), r08("mnomod", 2, 5, "-1"), r08("mpos", 2, 5, extra="-DANYPOS", reach=["read", "rejected"]), r08("mpos0", 2, 5, sw=0, sh=3, extra="-DANYPOS"),
             r08("tcut", 1, 5, extra="-DTRUNC"), r08("tmod4", 1, 5, "0,1,2,4"), r08("tnomod", 1, 5, "-1"),
             r08("t2cut", 1, 5, extra="-DTRUNC", nt=2), r08("t2mod4", 1, 5, "0,1,2,4", nt=2), r08("m2cut", 2, 5, extra="-DTRUNC", nt=2)])

def r07(name, ver, nf, nt, pre, missing="-1,-1", mods="0,1,2,3", rev=0, base=3, **kw):
    return dict(name=name, opts="--race", d="-DVER=%d -DNF=%d -DNT=%d -DPRE=%d -DMISSING={%s} -DMODS={%s} -DREV=%d -DBASE=%d" % (ver, nf, nt, pre, missing, mods, rev, base), **kw)
cxx("R07", src="R07.cpp", mods=["reader"], bounds="four files, 1-2 frames (one possibly lacking a sector), 1-3 workers, preemption bound 0-1 and every choice at blocking points, arbitrary headers and six arbitrary pixels per sector; data races by happens-before on every explored schedule",
    configs=[r07("t1", 5, 2, 1, 0), r07("t2", 5, 1, 2, 0), r07("t2p1", 5, 1, 2, 1), r07("t2f2", 5, 2, 2, 0, "-1,2", "2,0,3,1", 1), r07("t2f2p1", 5, 2, 2, 1, "-1,-1", "0,1,2,3", 0), r07("t3", 4, 2, 3, 0), r07("o1", 5, 2, 1, 0, "-1,-1", "0,1,2,3", 3), r07("o3", 5, 3, 1, 0, "-1,2,-1", "1,0,3,2", 3)])
def r06(name, pos, miss, mods="0,1,2,3", sw=2, sh=2, nt=1, pre=0, byindex=0, **kw):
    kw.setdefault("reach", ["loaded", "range"] if byindex else ["done"])
    return dict(name=name, opts=NM if nt == 1 else NM + " --race", d="-DPOS={%s} -DNFR=%d -DMISS={%s} -DMODS={%s} -DSW=%d -DSH=%d -DNT=%d -DPRE=%d%s" % (pos, pos.count(",") + 1, miss, mods, sw, sh, nt, pre, " -DBYINDEX=%d" % byindex if byindex else ""), **kw)
N0 = "{0,0,0,0}"
def r10(name, fmt, ver, orders, fixed, sw=2, sh=2, **kw):
    return dict(name=name, opts=NM, hdf5=True, d="-DFORMAT=%d -DVER=%d -DNP=%d -DSW=%d -DSH=%d -DORDERS={%s} -DFIXED={%s}" % (fmt, ver, orders.split("}")[0].count(",") + 1, sw, sh, orders, fixed), **kw)
cxx("R10", src="R10.cpp", mods=["reader", "h5"], bounds="four files with the listed subsets of the sectors of 1-2 positions; scans of 3x2 and 2x1 positions, every position; six arbitrary pixels per sector; versions 4 and 5; dataCaptured: every scan dimension",
    configs=[r10("frame", 0, 5, "{0,1},{1,0},{0,1},{1,0}", "1,1,0,1", 3, 2), r10("cube", 1, 5, "{0,1},{1,0},{0,1},{1,0}", "1,1,1,0", 3, 2), r10("frame4", 0, 4, "{0},{0},{0},{0}", "0,0,0,1", 2, 1), r10("cube4", 1, 4, "{0},{0},{0},{0}", "1,0,0,0", 2, 3),
             r10("captured", 2, 5, "{0,1},{1,0},{0,1},{1,0}", "0,0,1,0"), r10("captured4", 2, 4, "{0},{0},{0},{0}", "1,0,0,0")])
cxx("R06", src="R06.cpp", mods=["reader"], bounds="four files with any of the listed subsets of the sectors of 2-3 frames at 1-2 scan positions, arbitrary frame numbers and six arbitrary pixels per sector; every index and position near and far out of range; 1-2 workers, preemption bound 0-1, data races by happens-before",
    configs=[r06("a", "3,1", "{1,1,1,1},{1,0,1,0}"), r06("b", "1,1", "{1,0,0,1},{0,1,1,0}", "2,0,3,1"), r06("c", "2,0,2", "{0,0,0,1},{0,1,0,0},{1,0,0,0}", "3,2,1,0", 3, 1),
             r06("i1", "1,1", "{1,0,0,0},{0,1,0,0}", byindex=1), r06("i2", "0,2,0", "{0,0,0,0},{0,0,1,0},{0,1,0,0}", "1,3,0,2", 1, 3, byindex=2),
             r06("t2", "1,1,0", ",".join(["{0,0,0,0}", "{0,1,0,0}", "{0,0,0,0}"]), nt=2), r06("t2p1", "1,1", ",".join([N0] * 2), nt=2, pre=1)])

# ---------------------------------------------------------------- Python part
def py(pid, **kw):
    CHECKS[pid] = dict(kw, engine="py")


_s01 = []
for key in ("i", "s", "e", "ei", "ie", "m", "a", "oob"):
    _s01.append(dict(name="1d_" + key, scan=(3,), key=key))
for key in ("i", "ii", "s", "is", "si", "e", "ei", "ie", "m", "ms", "sm", "a", "as", "sa", "aa", "oob"):
    _s01.append(dict(name="2d_" + key, scan=(2, 2), key=key))
for key in ("i", "ii", "m", "a", "aa"):
    _s01.append(dict(name="2df_" + key, scan=(2, 3), key=key, pat=[[1, 1], [0, 1], [2, 0]]))
    _s01.append(dict(name="2dd_" + key, scan=(3, 2), key=key, sparse=False))
py("S01", configs=_s01, bounds="1-D and 2-D scans of 2 to 6 positions, any integer index (also negative and out of range), slice bounds from beyond one end to beyond the other, steps up to +-2 (some keys +-1), ellipsis in every place, any boolean mask, integer arrays of up to 3 entries; 1-2 frames of 0-2 electrons per position at any pixel; sparse and dense slicing", funcs=["SparseArray.__getitem__", "_split_slices", "_slice_sparse", "_slice_dense", "_expand", "to_dense"])
for c in _s01:
    if c["name"] in ("2d_sa", "2d_as", "2d_ms", "2d_sm"): c.update(over=0, maxstep=1)
    if c["name"] in ("2d_is", "2d_si"): c.update(over=0)
for sc in ((2, 3), (3, 2), (1, 3)):
    _s01.append(dict(name="ss_%dx%d" % sc, scan=sc, key="ss", over=0, maxstep=1, tiers=T, cost=9))
_s02 = []
for key in ("s", "Ns", "i", "ii", "m", "oob"):
    _s02.append(dict(name="2x3_" + key, frame=(2, 3), key=key, pat=[[1, 0], [0, 1]]))
for key in ("is", "si", "ms", "sm"):
    _s02.append(dict(name="2x3_" + key, frame=(2, 3), key=key, over=0, maxstep=1, pat=[[1]], scan=(1,)))
_s02.append(dict(name="2x3_i2", frame=(2, 3), key="i"))
_s02.append(dict(name="3x2_m2", frame=(3, 2), key="m", scan=(1,), pat=[[3]]))
_s02.append(dict(name="2x2_ss", frame=(2, 2), key="ss", over=0, maxstep=1, scan=(1,), pat=[[1]], cost=5))
_s02.append(dict(name="3x2_ss", frame=(3, 2), key="ss", over=0, maxstep=2, tiers=T, cost=9))
_s02.append(dict(name="4x3_s", frame=(4, 3), key="s", maxstep=3, tiers=T, cost=9))
for key in ("s", "ii", "m"):
    _s02.append(dict(name="d3x2_" + key, frame=(3, 2), key=key, sparse=False, pat=[[1, 1], [0, 1]], over=0))
    _s02.append(dict(name="sk3x2_" + key, frame=(3, 2), key=key, scan=(2, 2), skey=[1, [None, None, -1]], pat=[[0], [0], [1], [0]], over=0))
    _s02.append(dict(name="sk2_3x2_" + key, frame=(3, 2), key=key, scan=(2, 2), skey=[1, 0], pat=[[0, 0], [0, 0], [1, 1], [1, 0]], over=0))
    _s02.append(dict(name="u8_3x2_" + key, frame=(3, 2), key=key, dtype="uint8" if key != "m" else "int64", over=0, pat=[[1], [0]]))
py("S02", configs=_s02, bounds="frames up to 3x2, 2x3 (thorough 4x3); integers, slices with any bounds and steps up to +-2, any boolean mask (2-D or per axis), all out-of-range integers; together with selections of scan positions; 1-3 electrons per frame at any pixel; sparse and dense slicing, dtypes uint32, uint8, int64", funcs=["SparseArray.__getitem__", "_split_slices", "_slice_sparse", "_slice_dense", "_expand", "to_dense"])
_s03 = []
for op in ("sum", "mean", "max", "min"):
    for ax in ("scan", "frame", "all"):
        _s03.append(dict(name="%s_%s_1d" % (op, ax), op=op, axis=ax, scan=(3,), frame=(1, 2)))
        _s03.append(dict(name="%s_%s_2d" % (op, ax), op=op, axis=ax, scan=(2, 2), frame=(2, 1), pat=[[1, 1], [2, 1], [0, 0], [1, 0]]))
    for ax in (0, 1, -1, [0, 2], [1, 3]):
        _s03.append(dict(name="%s_ax%s" % (op, str(ax).replace(" ", "")), op=op, axis=ax, scan=(2, 2), frame=(1, 2), pat=[[1, 1], [2, 1], [0, 0], [1, 0]]))
    _s03.append(dict(name="%s_scan_3x2" % op, op=op, axis="scan", scan=(2,), frame=(3, 2), pat=[[1, 1], [2, 0]]))
    _s03.append(dict(name="%s_frame_2x2" % op, op=op, axis="frame", scan=(1, 2), frame=(2, 2), pat=[[3, 1], [4, 0]]))
    for ax in ("scan", "frame"):
        _s03.append(dict(name="%s_%s_pairs" % (op, ax), op=op, axis=ax, scan=(2,), frame=(2, 2), pat=[[2, 2], [3, 1]]))
        _s03.append(dict(name="%s_%s_three" % (op, ax), op=op, axis=ax, scan=(1, 2), frame=(1, 3), pat=[[1, 2, 2], [3, 0, 1]]))
    for d in ("float32", "uint8"):
        for ax in ("scan", "frame"):
            _s03.append(dict(name="%s_%s_%s" % (op, ax, d), op=op, axis=ax, scan=(2,), frame=(1, 2), dtype=d, pat=[[1, 1], [2, 1]], ev="uint16"))
            _s03.append(dict(name="%s_%s_op%s" % (op, ax, d), op=op, axis=ax, scan=(2,), frame=(1, 2), opdtype="float64", pat=[[1, 1], [2, 1]], ev="int64"))
_s03 = list({c["name"]: c for c in _s03}.values())
py("S03", configs=_s03, bounds="1-D and 2-D scans of 2-4 positions, frames up to 3x2, 1-3 frames per position of 0-4 electrons at any pixel; axes scan, frame, all, and single or mixed axes; default, uint8, float32, float64 result types", funcs=["SparseArray.sum", "mean", "max", "min"])
py("S04", configs=[dict(name="%s" % "x".join(map(str, sc)), scan=sc, frame=fr, reach=["done", "error"], **kw) for sc, fr, kw in (
    ((4,), (1, 2), {}), ((2, 2), (2, 1), dict(pat=[[1, 1], [2, 0], [0, 1], [1, 1]])), ((2, 4), (1, 2), {}), ((4, 2), (1, 2), {}), ((3, 3), (1, 2), {}), ((2, 3), (1, 3), {}), ((6,), (1, 2), {}),
    ((4, 4), (1, 2), dict(tiers=T)), ((4, 6), (1, 1), dict(tiers=T)))], bounds="scans up to 6 or 3x3, 4x2 (thorough 4x6), every factor from 1 to the longest side + 1, 1-2 frames per position with 0-2 electrons at any pixel", funcs=["SparseArray.bin_scans"])
py("S05", configs=[dict(name="%s_%d" % ("x".join(map(str, fr)), i), frame=fr, reach=["done"] if "factors" in kw else ["done", "error"], **kw) for i, (fr, kw) in enumerate((
    ((2, 4), {}), ((4, 2), {}), ((2, 2), dict(pat=[[2, 1], [0, 1]])), ((2, 6), dict(pat=[[2], [0]])), ((4, 4), dict(pat=[[3]], scan=(1,))), ((4, 2), dict(pat=[[3], [2]], factors=[2])),
    ((2, 4), dict(pat=[[4], [0]], factors=[2])), ((2, 4), dict(pat=[[2], [2]], factors=[2])), ((4, 2), dict(pat=[[1, 1], [1, 2]], factors=[2], ev="int64")), ((2, 4), dict(pat=[[2], [1], [1], [0]], scan=(2, 2), factors=[2])),
    ((6, 3), dict(pat=[[2]], scan=(1, 1))), ((1, 3), dict(pat=[[3]], scan=(1,))), ((4, 6), dict(pat=[[4], [2]], tiers=T))))], bounds="frames up to 4x4, 2x6, 6x3 (thorough 4x6), every factor from 1 to the longest side + 1, 1-2 frames per position with up to 4 electrons at any pixel (so up to 4 in one bin)", funcs=["SparseArray.bin_frames"])
py("S06", configs=[dict(name="ravel_2x2", op="ravel", scan=(2, 2), frame=(1, 2)), dict(name="ravel_3", op="ravel", scan=(3,), frame=(1, 2)), dict(name="ravel_2x3", op="ravel", scan=(2, 3), frame=(2, 1)),
    dict(name="reshape_4", op="reshape", scan=(4,), frame=(1, 2), max=4, maxf=2, reach=["done", "error"]), dict(name="reshape_2x3", op="reshape", scan=(2, 3), frame=(1, 2), max=6, maxf=2, reach=["done", "error"]),
    dict(name="reshape_f", op="reshape", scan=(1, 2), frame=(2, 3), max=2, maxf=6, reach=["done", "error"])], bounds="scans up to 2x3, every target shape of 3 or 4 axes with sides up to 6, any electron positions", funcs=["SparseArray.reshape", "ravel_scans", "shape"])
_s07 = []
for sc, fr, pat, kw in (
    ((2, 3), (2, 3), [[1], [2], [0]], dict(meta=1)), ((2, 2), (1, 3), [[1, 1], [2, 0]], {}), ((3, 2), (3, 1), [[1], [1]], {}), ((2, 2), (2, 2), [[2]], {}), ((1, 2), (2, 3), [[0]], {}),
    ((2, 4), (1, 2), [[1, 0, 0], [0, 0, 0], [0, 1, 0]], {}), ((1, 3), (2, 2), [[1, 1]], {}), ((3, 3), (1, 2), [[0, 1], [1, 2]], dict(ev="uint16")), ((2, 3), (2, 2), [[0, 2], [3, 0]], dict(ev="int64")),
    ((4, 5), (2, 3), [[1, 2], [0, 1], [2, 0]], dict(tiers=T, meta=1)), ((5, 4), (3, 2), [[1], [0], [2], [1]], dict(tiers=T)), ((3, 4), (4, 3), [[3, 1, 2], [0, 0, 1], [1, 1, 0]], dict(tiers=T))):
    _s07.append(dict(name="%s_%d" % ("x".join(map(str, sc)), len(_s07)), scan=sc, frame=fr, pat=pat, reach=["full", "default", "noflyback", "done"], **kw))
py("S07", configs=_s07, bounds="scans of up to 3x3 positions (thorough: 5x4), 1 to 3 frames per position, 0 to 3 electrons per frame at any pixel of frames up to 2x3 (thorough 4x3), equal and unequal frame lengths, nested metadata with a symbolic integer; both API entries; keep_flyback given or default",
   funcs=["SparseArray.write_to_hdf5", "SparseArray.from_hdf5", "save_dict_to_h5", "load_h5_to_dict", "save_electron_counts", "load_electron_counts"],
   assumptions=["h5py is replaced by an in-memory model in the symbolic run (groups, attributes, fixed and variable-length data sets, including h5py's treatment of object arrays of equal-length elements); replays and validated paths use the real h5py on a scratch file"])
_s08 = []
for v in (1, 2):
    for via in ("convert", "file"):
        b = dict(version=v, via=via)
        r = dict(reach=["done"]) if via == "convert" else dict(reach=["done", "fly1", "fly0"])
        if v == 1:
            _s08.append(dict(b, **r, name="v1_%s_a" % via, scan=(1, 2), frame=(1, 2), lens=[3, 2], positions="perm"))
            _s08.append(dict(b, **r, name="v1_%s_b" % via, scan=(1, 3), frame=(2, 1), lens=[2, 2, 0], positions="perm"))
            _s08.append(dict(b, **r, name="v1_%s_c" % via, scan=(2, 2), frame=(1, 2), lens=[2, 1, 0, 2], positions="perm"))
            _s08.append(dict(b, **r, name="v1_%s_d" % via, scan=(2, 2), frame=(1, 3), lens=[2, 1], positions="perm"))
            _s08.append(dict(b, **r, name="v1_%s_T" % via, scan=(2, 2), frame=(1, 3), lens=[4, 2, 0, 1], positions="perm", tiers=T))
        else:
            _s08.append(dict(b, **r, name="v2_%s_a" % via, scan=(1, 2), frame=(2, 2), lens=[1, 2, 2], positions="any"))
            _s08.append(dict(b, **r, name="v2_%s_b" % via, scan=(2, 2), frame=(1, 2), lens=[1, 2, 0, 1], positions="any"))
            _s08.append(dict(b, **r, name="v2_%s_c" % via, scan=(1, 3), frame=(1, 2), lens=[1, 1], positions="any"))
            _s08.append(dict(b, **r, name="v2_%s_d" % via, scan=(2, 2), frame=(1, 3), lens=[1, 0, 2, 1, 1], positions="any", cost=5))
            _s08.append(dict(b, **r, name="v2_%s_T" % via, scan=(2, 3), frame=(2, 2), lens=[1, 3, 0, 2, 1], positions="any", tiers=T, cost=9))
py("S08", configs=_s08, bounds="2 to 4 positions (thorough 6), 2 to 5 stored frames of 0 to 3 electrons (v1: repeated electrons allowed), any assignment of frames to positions (v1: any order of the positions), any electron position; directly and through a file, with and without fly-back",
   funcs=["convert_data_format", "convert_data_v1_to_v2", "convert_data_v1_to_v3", "convert_data_v2_to_v3", "is_data_v1_format", "SparseArray.from_hdf5"], assumptions=["h5py replaced by an in-memory model in the symbolic run, real h5py in replays"])
_a01 = []
for v in (0, 1):
    for nm, kw in dict(
        plain=dict(scan=(1, 3), frame=(2, 3), pat=[[2, 1], [0, 0], [1, 2]]),
        plain2=dict(scan=(2, 1), frame=(3, 2), pat=[[3], [1]]),
        plain4=dict(scan=(1, 2), frame=(4, 2), pat=[[1, 1], [0, 1]], ev="int64"),
        plain3=dict(scan=(1, 1), frame=(2, 4), pat=[[2, 2, 1]]),
        square=dict(scan=(1, 2), frame=(3, 3), pat=[[2], [1]], ev="uint16"),
        empty=dict(scan=(1, 2), frame=(2, 3), pat=[[0, 0]]),
        crop=dict(scan=(1, 2), frame=(2, 4), pat=[[2, 0], [1, 0]], crops=[1, 2, [1, 0]], centres=[[0, 1], [1, 2], [0, 0]]),
        crop3=dict(scan=(1, 1), frame=(3, 4), pat=[[3]], crops=[1], centres=[[1, 2]]),
        cropc=dict(scan=(1, 2), frame=(2, 3), pat=[[2], [1]], crops=[0, 1, [0, 1]]),
        cropc3=dict(scan=(1, 1), frame=(2, 4), pat=[[2, 1]], crops=[1]),
        u8=dict(scan=(1, 1), frame=(1, 40), pat=[[1]], ev="uint8", crops=[18], centres=[[0, 20]]),
        big=dict(scan=(2, 2), frame=(3, 5), pat=[[2, 2], [3, 0], [0, 0], [1, 0]], tiers=T, cost=9),
        cropT=dict(scan=(1, 2), frame=(3, 5), pat=[[2], [2]], crops=[1, 2], centres=[None, [1, 2], [0, 4]], tiers=T, cost=9)).items():
        _a01.append(dict(kw, name="%s_v%d" % (nm, v), version=v))
py("A01", configs=_a01, bounds="scans up to 1x3, 2x1 (thorough 2x2), frames 2x3, 3x2, 4x2, 2x4, 3x3, 3x4, 1x40 (thorough 3x5), up to 3 frames per position and 0-5 electrons per position at any pixel, repeated electrons allowed; no crop, crop radii 0-2 and 18, given centres or the position's own mean; electrons exactly on a crop circle around a mean of 3 or 5 electrons are left out (rounding)", funcs=["com_sparse", "_com_sparse_v0", "_com_sparse_v1", "com_v1_kernel"])
py("S09", configs=[dict(name="raw_%dx%d" % tuple(fr), frame=fr, n=n, **kw) for fr, n, kw in (([1, 2], [1, 3], {}), ([2, 3], [2, 2], dict(layout="T")), ([3, 2], [2, 2], {}), ([1, 1], [31, 34], dict(sym=1)), ([2, 1], [64, 65], dict(sym=1)))] +
   [dict(name="stem_%d" % i, what="stem", shape=sh, reach=["done", "error"]) for i, sh in enumerate(([1, 2, 3], [2, 3, 1]))],
   bounds="1 to 3 frames of 1x2, 2 frames of 2x3 and 3x2 (also transposed in memory), 31 to 34 and 64 to 65 frames of 1x1 and 2x1 (the first and last with arbitrary pixels), every pixel value, scan dimensions up to 9999 and positions up to 2^31-1, given or not; stacks of one or two STEM images with up to one name too many or too few; HDF5 and the compiled reader are models (the latter as property B02 states it)", funcs=["save_raw_data", "get_hdf5_reader", "reader", "ReaderMixin.read", "save_stem_images"])
py("A02", configs=[dict(name="%s_%s" % ("x".join(map(str, sh)), d), shape=sh, dtype=d, max=m, **kw) for sh, d, m, kw in (
    ((2, 3), "uint16", 3, {}), ((3, 1), "uint16", 7, {}), ((1, 3), "int64", 7, {}), ((2, 2, 1), "uint16", 3, {}), ((2, 1, 2), "uint32", 4, {}), ((2, 2), "float64", 5, {}), ((1, 2), "uint8", 3, dict(scale=80)), ((1, 3), "uint8", 3, dict(scale=80)), ((3, 2), "uint8", 1, dict(scale=200)), ((1, 4), "uint16", 2, dict(scale=30000)), ((4, 1), "int32", 2, dict(scale=2 ** 30 - 1)), ((2, 2), "uint8", 1, dict(scale=250)),
    ((3, 3), "uint16", 2, dict(tiers=T)), ((2, 2, 3), "uint16", 2, dict(tiers=T)))], bounds="1 or 2 frames of up to 2x3 pixels (thorough 3x3, 2x2x3), pixel values 0 to 7, 0/80/160/240 0/200, 0/250, 0/30000/60000 and 0 to 2(2^30-1), uint8, uint16, uint32, int64 and float64, every frame with a positive sum", funcs=["com_dense"])
py("A03", configs=[dict(name="%s_%d" % ("x".join(map(str, fr)), i), scan=sc, frame=fr, pat=pat, centres=c, **kw) for i, (sc, fr, pat, c, kw) in enumerate((
    ((1, 2), (4, 6), [[1, 1], [2, 0]], [(2, 3), (0, 0), (3, 5)], {}), ((2, 1), (6, 4), [[2], [1]], [(3, 2), (0, 3)], {}), ((3,), (3, 5), [[1, 1], [0, 0], [2, 1]], [(1, 2)], {}),
    ((2, 2), (4, 4), [[1], [1], [0], [2]], [(2, 2), (1, 1)], {}), ((1, 1), (1, 8), [[3]], [(0, 4), (0, 0)], {}), ((1, 1), (4, 4), [[2]], [(1.5, 1.5)] if 0 else [(-1, 5)], {}), ((1, 1), (2, 40), [[1]], [(0, 20), (1, 0)], dict(ev="uint8")),
    ((2, 2), (8, 10), [[2, 1], [1, 0], [0, 0], [3, 1]], [(4, 5), (3, 3), (0, 9)], dict(tiers=T)), ((1, 1), (16, 16), [[2]], [(8, 8), (7, 9), (0, 0)], dict(tiers=T))))], bounds="1-D and 2-D scans of up to 4 positions, frames 4x6, 6x4, 3x5, 4x4, 1x8, 2x40 (thorough 8x10, 16x16), several integer centres inside and outside, 1-2 frames of 0-3 electrons at any pixel, uint32 and uint8 events", funcs=["radial_sum_sparse"])
py("A04", configs=[dict(name="%s_%d" % ("x".join(map(str, fr)), i), scan=sc, frame=fr, pat=pat, apertures=a, **kw) for i, (sc, fr, pat, a, kw) in enumerate((
    ((1, 2), (4, 6), [[1, 1], [2, 0]], [([0, 2, 5], [0, 3], [1, 2, 2.5])], {}), ((2, 1), (6, 4), [[2], [1]], [([1], [2], [2]), ([3, 1], [5, 2], [1, 3])], {}), ((3,), (3, 5), [[1, 1], [0, 0], [2, 1]], [([2], [1], [1, 2])], {}),
    ((2, 2), (3, 4), [[1], [1], [0], [2]], [([1.5], [0.5], [1, 1.5])], {}), ((1, 1), (1, 40), [[2]], [([20, 0], [0], [18, 3])], dict(ev="uint8")), ((1, 1), (2, 300), [[1]], [([0], [0], [10])], dict(ev="uint16")), ((1, 1), (5, 2), [[2]], [([-1, 3], [-2, 6], [0, 4])], {}),
    ((2, 2), (6, 8), [[2, 1], [1, 0], [0, 0], [3, 1]], [([3, 0], [2, 5], [1, 3.5]), ([7], [0], [2])], dict(tiers=T)), ((1, 1), (16, 24), [[2]], [([8, 23], [8, 0], [3, 7.5])], dict(tiers=T))))], bounds="1-D and 2-D scans of up to 4 positions, frames 4x6, 6x4, 3x5, 3x4, 1x40, 2x300, 5x2 (thorough 6x8, 16x24), one or two apertures with integer and half-integer centres and radii, 1-2 frames of 0-2 electrons at any pixel", funcs=["virtual_darkfield"])
py("A05", configs=[dict(name="%s_%d" % ("x".join(map(str, sc)), i), scan=sc, frame=fr, pat=pat, mask=m, **kw) for i, (sc, fr, pat, m, kw) in enumerate((
    ((2, 2), (1, 3), [[1, 1], [2, 0], [0, 1], [1, 0]], "bool", {}), ((1, 3), (2, 2), [[2], [1], [0]], "int64", {}), ((2, 3), (3, 1), [[1], [0], [1], [1]], "bool", {}), ((3, 2), (2, 1), [[1]], "uint8", dict(dtype="uint64")),
    ((3, 3), (2, 3), [[2, 1], [1, 0], [0, 1]], "bool", dict(tiers=T, cost=9))))], bounds="scans 2x2, 1x3, 2x3, 3x2 (thorough 3x3), every boolean mask and every integer mask of values 0-2, frames up to 2x2, 1-2 frames of 0-2 electrons at any pixel", funcs=["mask_real_space"])
py("A06", configs=[dict(name="%s_%d" % ("x".join(map(str, fr)), i), scan=sc, frame=fr, pat=pat, **kw) for i, (sc, fr, pat, kw) in enumerate((
    ((3,), (2, 3), [[2], [0], [3]], {}), ((2,), (3, 2), [[3], [1]], {}), ((1,), (1, 7), [[4]], dict(ev="uint16")), ((4,), (5, 3), [[1]], dict(ev="int64")), ((4,), (6, 4), [[3], [2]], dict(tiers=T))))], bounds="1 to 4 lists of up to 4 electrons at any pixel of frames 2x3, 3x2, 1x7, 5x3 (thorough 6x4)", funcs=["calculate_sum_sparse"])
py("A09", configs=[dict(name="%dx%d_%d" % (sh[0], sh[1], i), shape=sh, max=m, reach=rc, **kw) for i, (sh, m, rc, kw) in enumerate((
    ((1, 3), 7, ["done", "median", "several", "alone"], {}), ((3, 1), 7, ["done", "median", "several", "alone"], {}), ((2, 2), 7, ["done", "median", "several", "alone"], {}), ((2, 3), 3, ["done", "median", "several"], dict(most=2)), ((3, 2), 3, ["done", "median", "several"], dict(most=2)), ((3, 3), 3, ["done", "median"], dict(most=1)), ((2, 3), 3, ["done", "median"], dict(most=1, nan=[1]))))],
    bounds="scans of 1x3, 3x1, 2x2, 2x3, 3x2, 3x3 positions, centre-of-mass values 0 to 7 or 0 to 3, every pair of cut-offs, every set of bad positions (2x3 and 3x2: at most two, 3x3: at most one), optionally one position without a centre of mass", funcs=["filter_bad_sectors"])
_a07 = [dict(name="stem_" + k, what="stem", input=k, reach=["done", "error"] if k == "nd_raw" else ["done"], **kw) for k, kw in dict(reader=dict(radii=2), sparse={}, counted={}, inplace={}, v1={}, v1_2d={}, nd_sparse={}, nd_sparse_2d={}, nd_raw={}, h5={}, unknown={}).items()]
_a07 += [dict(name="stem_sparse2", what="stem", input="sparse", radii=2, scan=(3, 2), frame=(4, 2)), dict(name="stem_reader1", what="stem", input="reader")]
for k in ("classic", "threaded", "multipass", "pyreader"):
    i = "classic" if k == "pyreader" else k
    b = dict(what="count", input=i)
    _a07.append(dict(b, name="count_%s_plain" % k, vary=["number_of_samples", "scan_dimensions", "apply_row_dark_use_mean"]))
    _a07.append(dict(b, name="count_%s_vary" % k, vary=["background_threshold_n_sigma", "xray_threshold_n_sigma", "threshold_num_blocks", "apply_row_dark"], frame=(3, 2)))
    _a07.append(dict(b, name="count_%s_dark" % k, dark=dict(dtype="float64"), pat=[[0, 0], [1, 0]]))
    _a07.append(dict(b, name="count_%s_darkT" % k, dark=dict(dtype="float32", layout="T"), gain=dict(dtype="float32")))
    _a07.append(dict(b, name="count_%s_darkS" % k, dark=dict(dtype="uint16", layout="S"), gain=dict(dtype="float64", layout="T"), frame=(3, 2)))
    _a07.append(dict(b, name="count_%s_wrap" % k, dark=dict(dtype="float64", wrap=1), gain=dict(dtype="float32", layout="S")))
    _a07.append(dict(b, name="count_%s_gain" % k, gain=dict(dtype="float32"), vary=["scan_dimensions"]))
    _a07.append(dict(b, name="count_%s_gainT" % k, gain=dict(dtype="float64", layout="T"), frame=(3, 2), pat=[[0, 0], [1, 0]]))
_a07 = [c for c in _a07 if "pyreader" not in c["name"]]
py("A07", configs=_a07, bounds="every value of the radii, centre, scan and frame dimensions, sample and block counts, sigmas and flags within 0-1000 (given or left at their defaults); inputs: reader, HDF5 file (with and without scan dimensions and positions), sparse array, sparse array of the counting code (also reshaped in place), old counted data, sparse and raw numpy arrays, unknown inputs; threaded, multi-pass and block-wise counting with dark reference and gain of several types and memory layouts; the compiled core is replaced by a recorder",
   funcs=["create_stem_images", "electron_count", "_safe_cast", "_electron_counted_metadata_to_dict", "get_hdf5_reader", "ImageArray"], assumptions=["the compiled modules are replaced by recorders: what they do with the arguments is covered by the I and E properties"])
_a08 = [dict(name="%s_%s" % (p_, s_), pos=p_, sel=s_, max=2, maxf=2, reach=["done", "error"]) for p_ in ("flat", "pair") for s_ in ("none", "int", "slice", "list", "mask")]
_a08 += [dict(name="T%s_%s" % (p_, s_), pos=p_, sel=s_, max=3, maxf=4, reach=["done", "error"], tiers=T) for p_ in ("flat", "pair") for s_ in ("none", "int", "slice", "list", "mask")]
py("A08", configs=_a08, bounds="scans up to 2x2 (thorough 3x3), 0-2 (4) frames per position, every flat index and row/column pair up to two beyond either end, every index, slice (steps +-1, +-2), list of up to two indices and boolean mask of frames; Python and numpy integers",
   funcs=["SectorThreadedMultiPassReader.read_frames", "scan_shape", "num_frames_per_scan"], assumptions=["the compiled reader is replaced by one that answers with the frame asked for and rejects indices out of range, as readFrames of reader.h does"])
_a10 = [dict(name="blocks_" + k, what="blocks", kind=k, n=3, reach=["blocks%d" % i for i in range(4)]) for k in ("Reader", "SectorReader", "PyReader")]
_a10 += [dict(c, name="T" + c["name"], n=6, tiers=T, reach=["blocks%d" % i for i in range(7)]) for c in _a10]
_a10 += [dict(name="dispatch", what="dispatch", reach=["done", "error"]), dict(name="write_hdf5", what="hdf5")]
_a10 += [dict(name="histogram%d" % n, what="images", f="histogram", images=n) for n in (0, 1, 3)] + [dict(name=f, what="images", f=f) for f in ("radial", "average", "maximum")]
py("A10", configs=_a10, bounds="sequences of up to 3 (thorough 6) blocks with every header version and pixel value, read by iteration, next() and read(); every version, known and unknown backend; every bin count, radius, centre and scan size within 0-600, up to 3 images; the compiled core is replaced by a recorder",
   funcs=["ReaderMixin", "reader", "write_hdf5", "create_stem_histogram", "radial_sum", "calculate_average", "maximum_diffraction_pattern", "ImageArray"], assumptions=["the compiled modules are replaced by recorders: what they do with the arguments is covered by the I, R and B properties"])
py("P01", configs=[dict(name="p%d_%s" % (n, o), n=n, outer=o) for n in (0, 1, 2, 3) for o in ("first", "last")], bounds="pipelines of up to 3 parameters, every subset given, every value and default within -9..9 (or none)", funcs=["pipeline", "parameter"])
_c01 = []
_rc = dict(reach=["found", "error"])
for v in (0, 1, None):
    ks = {0: [["id"], ["id", "id"], ["id", "th"]], 1: [["v1"], ["v1", "v1"]], None: [["id", "v1"], ["th", "v1"]]}[v]
    for fs in ks:
        for by in ("num", "id", "both"):
            if fs == ["th", "v1"] and by != "num": continue
            n = len(fs)
            _c01.append(dict(_rc, name="v%s_%s_%s" % ("any" if v is None else v, "-".join(fs), by), version=v, files=fs, by=by, hi=12345 if n == 1 else 120, cost=n * n, **({} if n == 1 else dict(suf=[0, 2], qsuf=[0], expl=[0]))))
            if n == 2: _c01.append(dict(_rc, name="T_v%s_%s_%s" % ("any" if v is None else v, "-".join(fs), by), version=v, files=fs, by=by, hi=12345, tiers=T, cost=9))
_c01.append(dict(_rc, name="v0_th_th", version=0, files=["th", "th"], ths=[4, 4.5, 45], by="num", hi=30, qth=[4, 4.5, 45], suf=[0], qsuf=[0], cost=3))
_c01.append(dict(_rc, name="v0_th_id", version=0, files=["th", "id"], by="num", hi=30, qth=[4, 40], suf=[0], qsuf=[0], cost=3))
_c01.append(dict(_rc, name="vany_th", version=None, files=["th", "th"], by="num", hi=30, qth=[4, None], suf=[0, 1], qsuf=[0, 1], cost=3))
py("C01", configs=_c01, bounds="directories of one or two scan files (and unrelated files) of both naming schemes and every suffix, every scan number and id up to 12345 for one file, 120 for two (thorough 12345), queries by number, by id, by both, with and without threshold and version", funcs=["get_scan_path", "get_scan_path_version_0", "get_scan_path_version_1"], assumptions=["the directory listing is modelled in memory (shell patterns with * and ?) in the symbolic run; replays use real files"])
_e06 = []
def e06(name, w, h, samples=1, nsym=None, plo=0, phi=15, rest=0, dark=0, gain=0, dhi=7, ipbs=(1,), entry=0, xs="10.0", bs="4.0", lo=None, hi=None, full=1, mayfail=0, few=0, **kw):
    lo, hi = (-dhi * (2 if gain else 1) if dark else 0) if lo is None else lo, (2 * phi if gain else phi) if hi is None else hi
    _e06.append(dict(name=name, d="-DW=%d -DH=%d -DSAMPLES=%d -DNSYM=%d -DPLO=%d -DPHI=%d -DREST=%d -DDARK=%d -DDHI=%d -DNB=%d -DIPBS={%s} -DENTRY=%d -DXSIGMA=%s -DBSIGMA=%s -DLO=%d -DHI=%d -DMAYFAIL=%d %s %s" %
        (w, h, samples, w * h if nsym is None else nsym, plo, phi, rest, dark, dhi, len(ipbs), ",".join(map(str, ipbs)), entry, xs, bs, lo, hi, mayfail, ("-DFULLRANGE" if full else "") + (" -DFEWBINS" if few else ""), "" if gain else "-DNULLGAIN"), opts="--fp-split --no-merge", **kw))
e06("u2x2", 2, 2, nsym=2, phi=5, rest=3)
e06("u2x1d", 2, 1, nsym=1, phi=6, rest=4, dark=1, dhi=3)
e06("f2x1", 2, 1, nsym=1, phi=4, rest=3, gain=1)
e06("f2x1d", 2, 1, nsym=1, phi=3, dhi=3, rest=1, dark=1, gain=1, entry=1)
e06("f2x2d", 2, 2, nsym=1, phi=3, dhi=4, rest=1, dark=1, gain=1, xs="0.5", full=0)
e06("u2x1s2", 2, 1, nsym=1, phi=7, rest=4, samples=2, ipbs=(2, 1), dark=1, dhi=2, entry=1, mayfail=1, bs="-1.5", reach=["done", "error"])
e06("u16x8", 16, 8, nsym=1, phi=6, rest=2, full=0)
e06("u2x1big", 2, 1, nsym=1, plo=40000, phi=40001, rest=0, lo=0, hi=0, full=0, few=1)
e06("u4x1x", 4, 1, nsym=2, phi=9, rest=1, xs="0.0", full=0, tiers=T, cost=9)
e06("u2x2T", 2, 2, nsym=3, phi=5, rest=2, tiers=T, cost=9)
cxx("E06", src="E06.cpp", mods=ALLM, configs=_e06, reach=["done"], bounds="frames 2x1, 2x2 and 16x8, 1-2 samples of 1-3 frames in 1-2 blocks; one or two pixels in 0..7 (the others fixed), without gain integral darks 0..3, with gains 0.5..1.5 integral and half-integral darks up to 2; every outcome of the fit (mean -0.5..3, deviation -1.5..1.5), background and X-ray sigmas 4, -1.5, 10, 0.5", assumptions=["random draws are arbitrary values of their range", "the Levenberg-Marquardt optimiser is replaced by one returning arbitrary parameters and reporting arbitrary convergence"])
cxx("B01", src="B01.cpp", mods=["reader", "mask", "image", "pyreader", "electron"], bounds="blocks up to 3x4x4, images up to 4x4 and radial sums up to 3x3x3 with every element's address; the described shapes and strides for heights and counts up to 65535 and widths {1,2,3,7,576,4095,65535} (images: every width)",
    configs=[dict(name="io", validate=True, reach=["done"]), dict(name="io_any", d="-DSYMD", reach=["done"]), dict(name="image", d="-DIMG", reach=["done"]), dict(name="image_any", d="-DIMG -DSYMD", reach=["done"])])
cxx("B02", src="B02.cpp", mods=["reader"], bounds="0-3 frames of 2x3/3x2/1x1 arbitrary pixels, block sizes 1..frames+1, arbitrary image numbers and scan sizes, five memory layouts of the returned slices, every number of reads before a reset",
    configs=[dict(name="n%d_%dx%d" % (n, w, h), d="-DNTOT=%d -DW=%d -DH=%d" % (n, w, h), validate=n == 2, reach=["done"]) for n, w, h in ((0, 2, 2), (1, 3, 2), (2, 2, 3), (3, 3, 2), (5, 1, 1))])
cxx("B03", src="B03.cpp", mods=["reader", "mask", "image", "pyreader", "electron"], bounds="every value of the options; counted data with 1-2 positions of 0-2 frames with 0-2 arbitrary electrons; sparse frames of 2-3 electrons on 3x2 frames in three memory layouts",
    configs=[dict(name="classic", d="-DMODE=0", reach=["done"]), dict(name="threaded", d="-DMODE=0 -DTHREADED", reach=["done"]), dict(name="counted", d="-DMODE=1", reach=["done"]),
             dict(name="sparse", d="-DMODE=2", validate=True, reach=["done"]), dict(name="names", d="-DMODE=3", reach=["done"]), dict(name="patterns", d="-DMODE=4", reach=["done"])])

def m01(name, pos, miss, ranks, sw=2, sh=2, **kw):
    xd = kw.pop("xd", "")
    return dict(name=name, opts=NM, mpi=True, mods=["reader", "reader_mpi"], d="-DPOS={%s} -DNFR=%d -DMISS={%s} -DSW=%d -DSH=%d -DRANKS=%d %s" % (pos, pos.count(",") + 1, miss, sw, sh, ranks, xd), **kw)
def m01g(name, mode, ranks, xd="", **kw):
    return dict(name=name, src="M01g.cpp", opts=NM, mpi=True, mods=["reader", "mask", "image", "electron", "electron_mpi", "reader_mpi"], d="-DMODE=%d -DRANKS=%d %s" % (mode, ranks, xd), **kw)
def m01e(name, samples, nbs, **kw):
    return dict(name=name, src="M01e.cpp", opts=NM, mpi=True, mods=["reader", "mask", "image", "electron_mpi", "reader_mpi"], d="-DSAMPLES=%d -DNBS={%s} -DRANKS=%d" % (samples, nbs, nbs.count(",") + 1), **kw)
cxx("M01", src="M01.cpp", mods=["reader", "reader_mpi"], reach=["done"], bounds="1-5 ranks, scans of 2-6 positions, four files with any of the listed subsets of the sectors of 2-3 frames, arbitrary frame numbers and six arbitrary pixels per sector; events and sample blocks of up to three ranks; thresholds of any value, any number of sample blocks, 1-5 ranks; one schedule of the ranks",
    assumptions=["MPI is modelled by threads, collectives by barriers, sends are synchronous; the serialisation library (cereal, an empty submodule here) by a stand-in with the same layout"],
    configs=[m01("r2", "3,1,1", "{1,0,0,0},{0,0,1,0},{0,0,0,0}", 2), m01("r3", "0,2,5", "{0,0,0,0},{0,1,0,1},{0,0,1,0}", 3, 3, 2), m01("r1", "1,1", "{0,0,1,0},{0,0,0,1}", 1, 2, 1),
             m01("r4", "1,0", "{0,0,0,0},{1,0,0,0}", 4, 1, 2), m01("r5c", "1,0", "{0,0,0,0},{1,0,0,0}", 5, 1, 2, xd="-DCOUNTFIRST"), m01("r3i", "3,1,1", "{0,0,0,0},{0,1,0,0},{0,0,0,0}", 3, xd="-DBYINDEX"),
             m01g("ev2", 0, 2, "-DFR={{1,0,2},{1,2,0}}"), m01g("ev3", 0, 3, "-DFR={{0,1,0},{0,0,0},{1,1,0}}"), m01g("ev1", 0, 1, "-DFR={{1,0,1}}"),
             m01g("bl3", 1, 3, "-DNBS={1,2,1}"), m01g("bl2", 1, 2, "-DNBS={0,2}"), m01g("bl3z", 1, 3, "-DNBS={2,0,1}"),
             m01e("count2", 2, "2,1"), m01e("count3", 4, "1,2,2"), m01e("few3", 2, "1,1,2"), m01e("few2", 1, "1,2")] + [m01g("th%d" % n, 2, n) for n in (1, 2, 3, 5)])
