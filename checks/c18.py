def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("newton")
    inv = ["Accepted", "OnlyOne", "Success", "Limit", "Decrease"]
    ctx.model("MC_Newton", consts={"Fs": "{0, 1, 2, 3}", "MaxEvals": 7 if th else 6, "MaxIters": 3, "WithNaN": "TRUE", "Emit": "FALSE"}, inv=inv)
    e, _ = ctx.model("MC_Newton", consts={"Fs": "{0, 1, 2, 3}", "MaxEvals": 5 if th else 4, "MaxIters": 2, "WithNaN": "TRUE", "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Gen_Newton")
    s, _ = ctx.model("MC_Newton", consts={"Fs": "{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}", "MaxEvals": 30, "MaxIters": 6, "WithNaN": "TRUE", "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Sim_Newton",
                     simulate=(20000 if th else 4000, 60))
    rng.shuffle(e)
    cases = e[:20000 if th else 1500] + rng.sample(s, min(len(s), 8000 if th else 800))
    # several components, real directions, values around the decrease condition |f|^2 <= (1 - 1e-4 alpha) |f0|^2
    def near(v, d):
        return [v + d]
    for _ in range(8000 if th else 900):
        n = rng.choice([1, 1, 2, 3])
        k = rng.choice([2, 4, 8, 14])
        F = []
        if rng.random() < .5:      # around the threshold: f0 = 200, Sq = 40000, next one 199.99.. is not an integer: use two components
            n = 2
            # |f0|^2 = 40000; |f|^2 in {39994 .. 40001} as sums of two squares
            sums = {}
            for a in range(0, 201):
                for b in range(a, 201):
                    if 39985 <= a * a + b * b <= 40003: sums.setdefault(a * a + b * b, []).append([a, b])
            F.append([200, 0])
            for _ in range(k): 
                q = rng.choice(sorted(sums)); F.append(rng.choice(sums[q]))
        else:
            lo = rng.choice([2, 5, 30])
            for _ in range(k):
                F.append([rng.randint(-lo, lo) for _ in range(n)] if rng.random() < .93 else [])
            if rng.random() < .5: F.append([0] * n)
        if rng.random() < .2: F = F[:1] + [F[0]] * 3 + F[1:]
        J = [([rng.randint(-2, 2) for _ in range(n)] if rng.random() < .94 else []) for _ in range(8)]
        cases.append({"x": [rng.randint(-3, 3) for _ in range(n)], "tol2": rng.choice([0, 0, 1, 2, 4, 9]), "max": rng.choice([-1, 0, 1, 2, 3, 5, 8]),
                      "ls": rng.choice(["bt", "bt", "none"]), "F": F, "J": J})
    for c in cases:
        c["via"] = rng.randint(0, 1)
        if not c["J"]: c["J"] = [[]]
        if c["max"] < 0 and c["ls"] == "none":      # an endless full-step iteration is correct: bound it by the script
            c["max"] = 12
        if c["max"] < 0: c["max"] = 12 if [] != c["F"][-1] and any(c["F"][-1]) else -1
    rng.shuffle(cases)
    ctx.validate("Trace_Newton", ctx.harness("newton", cases))
    ctx.assumptions += ["points are integers and step lengths multiples of 2^-22, for which the arithmetic of the code is exact"]
