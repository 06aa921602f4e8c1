def run(ctx):
    th = ctx.thorough
    ctx.build("dirichlet")
    inv = ["AlgorithmOK", "DecoupledOK", "AgainSame"]
    cases = []
    runs = [(2, 1, "{1,3,6}", True), (2, 2, "{1,3,6}", True), (3, 1, "{3,8}", False), (4, 2, "{10}", True)]
    if th:
        runs += [(3, 1, "{2,3,5}", False), (4, 2, "{0,7}", False), (4, 1, "{6}", True)]
    for dim, sd, vals, emit in runs:
        cs, _ = ctx.model("MC_Dirichlet", "MSpec", {"Dim": dim, "SD": sd, "Vals": vals, "Emit": "TRUE" if emit else "FALSE"},
                          inv=inv + ["EmitInv"], name="MC_Dirichlet_%d_%d" % (dim, sd), timeout=1500)
        if len(cs) > 3000:
            ctx.rng.shuffle(cs); cs = cs[:3000]
        cases += cs
    rng = ctx.rng
    for c in cases:
        c["steps"] = [c.pop("nodes")] + ([[rng.randrange(c["dim"] // c["s"]) for _ in range(rng.randrange(3))]] if rng.random() < 0.5 else [])
        if rng.random() < 0.3:
            c["steps"].append(list(reversed(c["steps"][0])))
    for k in range(3000 if th else 500):
        sd = rng.randint(1, 3)
        nn = rng.randint(1, 6) if k % 50 else rng.randint(17, 24)
        dim = nn * sd
        dens = rng.choice([0.1, 0.4, 1.0]) if dim < 20 else rng.choice([0.02, 0.1])
        keys = {(i, i) for i in range(dim)}
        for i in range(dim):
            for j in range(i):
                if rng.random() < dens:
                    keys |= {(i, j), (j, i)}
        zero = rng.random()
        m = [[i, j, 0 if rng.random() < zero * 0.5 else rng.randint(-9, 9)] for i, j in sorted(keys)]
        if rng.random() < 0.1:
            m = [[i, j, 0 if i == j else v] for i, j, v in m]
        steps = [[rng.randrange(nn) for _ in range(rng.randrange(4))] for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.5:
            s0 = steps[0] + steps[0]
            rng.shuffle(s0)
            steps.append(s0)
        cases.append({"s": sd, "dim": dim, "m": m, "steps": steps})
    for _ in range(10 if th else 3):     # many unknowns, a long row
        sd = rng.choice([1, 2]); nn = rng.choice([60, 130, 280]) // sd
        dim = nn * sd
        keys = {(i, i) for i in range(dim)}
        hub = rng.randrange(dim)
        for j in range(dim):
            if rng.random() < .6: keys |= {(hub, j), (j, hub)}
            k = rng.randrange(dim); keys |= {(k, j), (j, k)}
        m = [[i, j, rng.randint(-9, 9)] for i, j in sorted(keys)]
        steps = [[a for a in rng.sample(range(nn), 12) if a != hub // sd], [hub // sd] + [rng.randrange(nn) for _ in range(rng.randint(0, 3))] + [nn - 1], [rng.randrange(nn // 2, nn)]]
        cases.append({"s": sd, "dim": dim, "m": m, "steps": steps, "sparse": 1})
    ctx.validate("Trace_Dirichlet", ctx.harness("dirichlet", cases))
    ctx.assumptions += ["patterns are structurally symmetric and store the diagonal of prescribed unknowns, as assembled matrices do"]
