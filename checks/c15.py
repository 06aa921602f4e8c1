def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("qtab")
    inv = ["HistoryFree", "SizesMatch", "Sharing", "Supplied", "Rejects"]
    base = {"MaxRules": 3 if th else 2, "MaxPts": 2, "MaxElems": 3, "MaxSteps": 4, "Mismatch": "FALSE", "Emit": "FALSE"}
    ctx.model("MC_QTables", consts=base, inv=inv)
    gen = []
    for mm, steps in (("TRUE", 2), ("FALSE", 4)):
        c, _ = ctx.model("MC_QTables", consts=dict(base, Mismatch=mm, MaxSteps=steps, MaxRules=2 if mm == "TRUE" else 3 if th else 2, Emit="TRUE"),
                         inv=inv + ["EmitInv"], name="Gen_QTables_" + mm)
        rng.shuffle(c)
        gen += c[:6000 if th else 700]
    cases = []
    def coords(v, dim): return [v % 97, 3 * v - 50, 1000 - v][:dim]
    def queries(c, n):
        ops = []
        ne = len(c["P"]) if c["kind"] == "general" else len(c["map"]) if c["kind"] == "compact" else 4
        def size(e):
            if not 0 <= e < ne: return 1
            i = e if c["kind"] == "general" else c["map"][e] if c["kind"] == "compact" else 0
            return len(c["P"][i]) if i < len(c["P"]) else 0
        for _ in range(n):
            e = rng.randrange(ne) if ne and rng.random() < .92 else ne + rng.randint(0, 2)
            s = size(e) if rng.random() < .9 else rng.randint(0, 3)
            k = rng.choice(["size", "quad", "data", "both", "buf", "buf", "bufwp", "keep"] + (["with"] if c["kind"] == "uniform" else []) + (["parts"] if c["kind"] == "general" else []))
            if k == "size" or k in ("buf", "bufwp"): ops.append({"op": k, "e": e})
            elif k == "quad": ops.append({"op": k, "e": e, "np": s, "nw": s if rng.random() < .9 else rng.randint(0, 3)})
            elif k in ("data", "both"): ops.append({"op": k, "e": e, "n": s})
            elif k == "keep": ops.append({"op": k, "how": rng.randint(0, 1)})
            elif k == "with": ops.append({"op": k, "d": rng.randint(1, 99)})
            else: ops.append({"op": k})
        return ops
    def ok(c):
        return len(c["P"]) == len(c["W"]) == len(c["D"]) and all(len(a) == len(b) == len(d) for a, b, d in zip(c["P"], c["W"], c["D"])) and \
            (c["kind"] != "compact" or all(m < len(c["P"]) for m in c["map"]))
    def add(c, more, n):
        dim, unit = rng.randint(1, 3), int(rng.random() < .35)
        d = dict(c, op="new", how=rng.randint(0, 1))
        d["P"] = [[coords(v, dim) for v in r] for r in c["P"]]
        if c["kind"] == "uniform" and rng.random() < .3 and c["W"] and c["W"][0]: d["D"] = [[5] * len(c["D"][0])]
        ops = [d]
        for o in more:
            if o["op"] == "buf": ops.append({"op": "buf", "e": o["e"]})
            elif o["op"] == "with": ops.append({"op": "with", "d": o["d"]})
        # with unit data the data cannot be inconsistent
        cc = dict(c, D=c["W"]) if unit else c
        if ok(cc): ops += queries(c, n)
        return dim, unit, ops
    def push(dim, unit, ops): cases.append({"dim": dim, "unit": unit, "ops": ops})
    for h in gen:
        push(*add(h[0]["c"], h[1:], rng.randint(2, 6)))
    # larger tables; several tables per session (the buffer stays)
    for _ in range(4000 if th else 500):
        sess, dim0, unit0 = [], rng.randint(1, 3), int(rng.random() < .35)
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(["general", "compact", "compact", "uniform"])
            k = 1 if kind == "uniform" else rng.randint(0, 6)
            ls = [rng.choice([0, 1, 2, 3, 5, 9]) for _ in range(k)]
            v = [[rng.randint(-99, 999) for _ in range(n)] for n in ls]
            c = {"kind": kind, "P": [[abs(x) for x in r] for r in v], "W": [[rng.randint(-9, 99) for _ in r] for r in v],
                 "D": [[rng.randint(1, 9) for _ in r] for r in v], "map": [rng.randrange(k) for _ in range(rng.randint(0, 12))] if kind == "compact" and k else []}
            r = rng.random()
            if r < .05 and k: c["W"][rng.randrange(k)].append(1)
            elif r < .1 and kind != "uniform": c["D"].append([])
            elif r < .15 and k: c["D"][rng.randrange(k)].append(1)
            elif r < .2 and kind == "compact": c["map"].insert(rng.randint(0, len(c["map"])), k + rng.choice([0, 0, 1]))
            elif r < .22 and kind != "uniform": c["P"].append([])
            dim, unit, ops = add(c, [], rng.randint(0, 10))
            if not sess: dim0, unit0 = dim, unit
            if dim == dim0 and unit == unit0: sess += ops
        for _ in range(rng.randint(0, 2)):
            n = rng.randint(0, 5)
            sess.insert(0, {"op": "rule", "p": [coords(rng.randint(0, 999), dim0) for _ in range(n)], "w": [rng.randint(-9, 99) for _ in range(n)],
                            "d": [rng.randint(1, 99) for _ in range(n)]})
        push(dim0, unit0, sess)
    for _ in range(10 if th else 4):      # more rules and elements than a byte counts
        k = 300
        v = [[rng.randint(0, 999) for _ in range(rng.randint(0, 3))] for _ in range(k)]
        kind = rng.choice(["general", "compact", "compact"])
        c = {"kind": kind, "P": v, "W": [[rng.randint(-9, 99) for _ in r] for r in v], "D": [[rng.randint(1, 9) for _ in r] for r in v],
             "map": [rng.choice([rng.randrange(k), rng.randrange(256, k)]) for _ in range(350)] if kind == "compact" else []}
        push(*add(c, [], 40))
    ctx.validate("Trace_QTables", ctx.harness("qtab", cases))
    ctx.assumptions += ["integer coordinates, weights and data"]
