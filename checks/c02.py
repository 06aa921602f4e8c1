def run(ctx):
    th = ctx.thorough
    ctx.build("subsets")
    cases = []
    cs, _ = ctx.model("MC_Coloring", "MSpec", {"Ix": "{0,1,2}", "MaxLen": 2, "MaxSubs": 4 if th else 3, "Emit": "TRUE"}, inv=["GreedyOK", "EmitInv"], timeout=1500)
    ctx.rng.shuffle(cs)
    cases += cs[:15000 if th else 2500]
    ctx.model("MC_Coloring", "MSpec", {"Ix": "{0,1,2,3}", "MaxLen": 2, "MaxSubs": 3, "Emit": "FALSE"}, inv=["GreedyOK"], name="Wide")
    rng = ctx.rng
    for _ in range(4000 if th else 600):
        n = rng.choice([3, 6, 12, 40, 3000])
        m = rng.randint(0, 14)
        cases.append({"F": [[rng.randrange(n) if rng.random() < 0.8 else rng.randrange(min(n, 4)) for _ in range(rng.randint(0, 5))] for _ in range(m)]})
    for _ in range(200 if th else 40):     # many subsets, few indices: many colors; and meshes-like families
        n = rng.randint(2, 60)
        m = rng.randint(10, 60)
        cases.append({"F": [rng.sample(range(n), min(n, rng.randint(1, 4))) for _ in range(m)]})
    for _ in range(120 if th else 30):     # wide subsets, sharing few indices or many
        n = rng.choice([60, 200, 900])
        F = [rng.sample(range(n), rng.randint(20, min(n, rng.choice([40, 130])))) for _ in range(rng.randint(2, 8))]
        if rng.random() < .6:      # only one late index is shared
            at = rng.sample(range(n * 10), 8 * 40)
            F = [at[40 * i:40 * i + 40] for i in range(rng.randint(2, 8))]
            for f in F[1:]:
                if rng.random() < .7: f[rng.choice([39, 39, 33, 28, 0])] = rng.choice(F[0][25:])
        cases.append({"F": F})
    for _ in range(20):
        cases.append({"F": [[rng.choice([0, 1, 5, 100000, 99999, 31]) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(1, 6))]})
    for n in ([130, 260, 300, 520] if th else [130, 260, 300]):   # fans: more colors than small counters hold
        hub = rng.choice([0, 7])
        F = [[hub, 8 + i] if i % 3 else [hub] for i in range(n)] + [[n + 200], [3], []]
        cases.append({"F": F})
        cases.append({"F": [[hub, 8 + i] for i in range(n)] + [[2 * n], [3]]})
        cases.append({"F": F[-3:] + F[:n // 2] + [[2 * n + 90, 8]] + F[n // 2:n]})
    ctx.validate("Trace_Coloring", ctx.harness("subsets", cases))
    ctx.assumptions += ["any coloring that satisfies the stated relation is accepted, not only the greedy one"]
