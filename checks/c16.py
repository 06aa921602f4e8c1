def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("reuse")
    inv = ["Refines", "Once", "GotRight", "HistoryFree"]
    ctx.model("MC_Workspace", consts={"Types": "{0, 1, 2}", "Vals": "{1, 2}", "MaxN": 2, "MaxSteps": 5 if th else 4, "Emit": "FALSE"}, inv=inv)
    gen, _ = ctx.model("MC_Workspace", consts={"Types": "{0, 1, 4}", "Vals": "{1, 2}", "MaxN": 1, "MaxSteps": 3, "Emit": "TRUE"},
                       inv=inv + ["EmitInv"], name="Gen_Workspace")
    sim, _ = ctx.model("MC_Workspace", consts={"Types": "{0, 1, 2, 3, 4, 5}", "Vals": "{0, 1, 2, 3}", "MaxN": 1, "MaxSteps": 12, "Emit": "TRUE"},
                       inv=["EmitInv"], name="Sim_Workspace", simulate=(2000, 14))
    rng.shuffle(gen)
    cases = [{"ws": [dict(o, w=0) for o in h]} for h in gen[:4000 if th else 500]]
    cases += [{"ws": [dict(o, w=rng.randint(0, 2), fail=int(rng.random() < .2)) for o in h]} for h in sim[:2000 if th else 300]]
    # computations in random order with reused storage: long mixtures, and dense mixtures of few computations
    for _ in range(24 if th else 4):
        cases.append({"steps": [rng.randrange(10 ** 6) for _ in range(500)]})
    for _ in range(200 if th else 40):
        few = [rng.randrange(10 ** 6) for _ in range(rng.randint(2, 8))]
        cases.append({"steps": [rng.choice(few) for _ in range(40)]})
    ctx.validate("Trace_Workspace", ctx.harness("reuse", cases))
    ctx.assumptions += ["answers are compared by a 64-bit hash of the bits of the numbers"]
