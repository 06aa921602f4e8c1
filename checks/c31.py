def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("sdf")
    ginv = ["GridFits", "NotTiny"]
    exts, hs = ("{1, 2, 3, 5, 7, 11}", "{1, 2, 3, 5, 9}") if th else ("{1, 2, 3, 7}", "{2, 3, 5}")
    base = {"Mode": '"grid"', "Exts": exts, "Hs": hs, "Shapes": '"flat"', "Bug": '"none"', "Emit": "TRUE"}
    grids, _ = ctx.model("MC_Sdf", consts=base, inv=ginv + ["EmitInv"], name="Sdf_grid")
    ctx.refuted("MC_Sdf", consts=dict(base, Bug='"floor"', Emit="FALSE"), inv=["GridFits"], name="Bug_floor")
    ctx.refuted("MC_Sdf", consts=dict(base, Bug='"tight"', Emit="FALSE"), inv=["GridFits"], name="Bug_tight")
    shapes, _ = ctx.model("MC_Sdf", consts=dict(base, Mode='"shape"', Hs="{2, 3, 5}" if th else "{3, 5}", Shapes='"deep"' if th else '"flat"'), inv=["SignIsMembership", "Lipschitz", "BoxHolds", "EmitInv"], name="Sdf_shape")
    cases = []
    for c in grids:
        a = [rng.randint(-4, 4) for _ in range(2)]
        cases.append({"do": "vox", "box": [a, [a[0] + c["ex"], a[1] + c["ey"]]], "h": c["h"]})
    for _ in range(1500 if th else 150):
        a = [rng.randint(-8, 8) for _ in range(2)]
        e = [rng.randint(1, 12) for _ in range(2)]
        if rng.random() < .2: e[rng.randrange(2)] = rng.choice([1, 20])
        h = rng.randint(1, 24)
        while e[0] * e[1] * 16 / h / h > 900: h += 1
        cases.append({"do": "vox", "box": [a, [a[0] + e[0], a[1] + e[1]]], "h": h})
    def leaf():
        a = [rng.randint(-4, 4) for _ in range(2)]
        if rng.random() < .5: return ["c", a, rng.randint(1, 4)]
        return ["b", a, [x + rng.randint(1, 5) for x in a]]
    def tree(d):
        return leaf() if d == 0 or rng.random() < .3 else ["u", tree(d - 1), tree(d - 1)]
    def ext(S):
        if S[0] == "c": return [[x - S[2] for x in S[1]], [x + S[2] for x in S[1]]]
        if S[0] == "b": return [S[1], S[2]]
        a, b = ext(S[1]), ext(S[2])
        return [[min(x, y) for x, y in zip(a[0], b[0])], [max(x, y) for x, y in zip(a[1], b[1])]]
    def boxes(S): return S[0] == "b" or S[0] == "u" and (boxes(S[1]) or boxes(S[2]))
    def add(S, h, tri):
        lo, hi = ext(S)
        limit = 60 if tri else 260
        while (hi[0] - lo[0] + h / 4) * (hi[1] - lo[1] + h / 4) * 16 / h / h > limit: h += 1
        at = [[1000 * rng.randint(l - 2, h_ + 2) if rng.random() < .5 else rng.randint(1000 * l - 900, 1000 * h_ + 900) for l, h_ in zip(lo, hi)] for _ in range(8)]
        c = {"do": "sdf", "shape": S, "h": h, "tri": int(tri), "at": at}
        if rng.random() < .3: c["scale"] = rng.choice([1, 2, 3]) if boxes(S) else rng.choice([-30, -12, -5, 8, 24])
        cases.append(c)
    rng.shuffle(shapes)
    for c in shapes[:1500 if th else 60]: add(c["S"], c["h"], rng.random() < .6)
    for _ in range(1500 if th else 130):
        add(tree(rng.choice([0, 1, 1, 2, 3])), rng.randint(1, 12), rng.random() < .6)
    # boundaries that run along grid lines, where everything is exact
    for _ in range(150 if th else 16):
        a = [rng.randint(-3, 3) for _ in range(2)]
        ticks = [0, 4, 21, 25]
        def side(full=False): return (0, 25) if full else tuple(sorted(rng.sample(ticks, 2)))
        bs = []
        for k in range(2):
            s = [side(), side()]
            s[k] = (0, 25)
            bs.append(s)
        for _ in range(rng.randint(0, 2)): bs.append([side(), side()])
        T = [["b", [a[i] + b[i][0] for i in range(2)], [a[i] + b[i][1] for i in range(2)]] for b in bs]
        S = T[0]
        for t in T[1:]: S = ["u", S, t] if rng.random() < .5 else ["u", t, S]
        at = [[1000 * (x + rng.randint(-1, 26)) for x in a] for _ in range(4)]
        cases.append({"do": "sdf", "shape": S, "h": 17, "tri": 1, "at": at, "ex": 1})
    for c in cases:
        if c["do"] == "vox" and rng.random() < .3: c["scale"] = rng.choice([-30, -12, 8, 24])
    rng.shuffle(cases)
    ctx.validate("Trace_Sdf", ctx.harness("sdf", cases, jobs=8))
    ctx.assumptions += ["shapes with integer centres, corners and radii; a cell whose corners are within 3/1000 of the boundary may be kept or not"]
