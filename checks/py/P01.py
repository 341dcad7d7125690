def run(h, cfg):
    p = h.mod("stempy.pipeline")
    n = cfg["n"]
    names = ["p%d" % i for i in range(n)]
    defs = [h.int("d%d" % i, -9, 9) if h.pick("default%d" % i, [0, 1]) else None for i in range(n)]
    vals = {x: h.int("v%d" % i, -9, 9) for i, x in enumerate(names) if h.pick("give%d" % i, [0, 1])}
    x = h.int("x", -9, 9)
    seen = []
    def f(frame, **kw):
        "doc of f"
        seen.append((frame, kw))
        return ("result", frame)
    g = f
    order = list(range(n))
    if cfg.get("outer") == "first": g = p.pipeline("name", "what", input=p.PipelineIO.FRAME, output=p.PipelineIO.IMAGE, aggregation=p.PipelineAggregation.MEAN)(g)
    for i in order: g = p.parameter(names[i], type="t%d" % i, label="l%d" % i, description="s%d" % i, default=defs[i])(g)
    if cfg.get("outer") == "last": g = p.pipeline("name", "what", aggregation=p.PipelineAggregation.MAX)(g)
    h.check((g.NAME, g.DESCRIPTION, g.INPUT, g.OUTPUT) == ("name", "what", "frame", "image"), "description of the pipeline")
    h.check(g.AGGREGATION == ("mean" if cfg["outer"] == "first" else "max"), "its aggregation")
    h.check(list(g.PARAMETERS) == [names[i] for i in order], "the parameters are declared once each")
    h.check(h.all([True] + [g.PARAMETERS[names[i]]["type"] == "t%d" % i and g.PARAMETERS[names[i]]["label"] == "l%d" % i and g.PARAMETERS[names[i]]["description"] == "s%d" % i
                   and (g.PARAMETERS[names[i]]["default"] is None if defs[i] is None else h.eq(g.PARAMETERS[names[i]]["default"], defs[i])) for i in range(n)]), "with type, label, description and default")
    for rnd in range(2):
        seen.clear()
        given = vals if rnd == 0 else {}
        r = g(x, **given)
        h.check(len(seen) == 1 and r[0] == "result" and seen[0][0] is x and r[1] is x, "the function is called once, on the frame given, and its result returned")
        kw = seen[0][1]
        h.check(sorted(kw) == sorted(names), "every parameter is passed")
        h.check(h.all([True] + [kw[k] is None if k not in given and defs[i] is None else h.eq(kw[k], given[k] if k in given else defs[i]) for i, k in enumerate(names)]), "with the value given or its own default")
    h.reach("done")
