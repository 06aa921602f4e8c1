from checks import asmgen as g
def run(ctx):
    th = ctx.thorough
    ctx.build("asm")
    inv = ["NoConflictInFlight", "SumExact", "ErrorIffFailure", "AccIsVal"]
    base = {"Families": "<- AllFamilies", "AnyColoring": "FALSE", "MaxFail": 1, "Barrier": "TRUE", "MaxLen": 2}
    # design: colors one after another with non-atomic scatters refine the contract, for all small families and all colorings
    ctx.model("MC_ParAssembly", "Spec", dict(base, NNodes=3, Threads=3, MaxElems=3 if th else 2), inv=inv, props=["RefinesContract"])
    ctx.model("MC_ParAssembly", "Spec", dict(base, NNodes=2, Threads=2, MaxElems=2, MaxLen=2), inv=inv, props=["Terminates"], name="Live")
    if th:
        ctx.model("MC_ParAssembly", "Spec", dict(base, NNodes=4, Threads=4, MaxElems=3, MaxLen=2, MaxFail=0), inv=inv, props=["RefinesContract"], name="Four", timeout=1500)
    # the model is sensitive: without a barrier, or with a coloring that ignores sharing, it loses updates
    for name, ch in (("NoBarrier", {"Barrier": "FALSE"}), ("AnyColoring", {"AnyColoring": "TRUE"})):
        _, r = ctx.model("MC_ParAssembly", "Spec", dict(base, NNodes=2, Threads=2, MaxElems=2, **ch), inv=["SumExact"], name=name, must_hold=False)
        if r["rc"] == 0:
            raise Exception("the model does not need the coloring: vacuous")
    discs, _ = ctx.model("MC_Assembly", "MSpec", {"NN": 3, "MaxElems": 3 if th else 2, "MaxLen": 3 if th else 2, "Distinct": "TRUE", "Emit": "TRUE"},
                         inv=["PatternOK", "ScatterOK", "EmitInv"], name="Gen_Assembly")
    rng = ctx.rng
    if th:
        rng.shuffle(discs); discs = discs[:4000]
    cases = []
    for d in discs:
        cases.append(dict(d, threads=rng.choice([1, 2, 4]), ops=[g.asm_op(rng, "mat", d["elems"], p, i, n=d["n"], s=d["s"]) for p, i in ((1, 0), (1, 1), (0, 0))]))
    for k in range(1200 if th else 200):
        d = g.disc(rng, big=k % 3 == 0)
        ops = []
        cur = d
        for _ in range(rng.randint(3, 6)):
            ops.append(g.asm_op(rng, "mat", cur["elems"], 1 if rng.random() < 0.75 else 0, rng.randrange(2), n=cur["n"], s=cur["s"]))
            if rng.random() < 0.3:
                cur = g.disc(rng, big=rng.random() < 0.3)
                ops.append(dict(cur, op="mesh"))
        cases.append(dict(d, threads=rng.choice([1, 2, 3, 4, 8]), ops=ops))
    for t in range(24 if th else 6):
        d = g.huge_disc(rng)
        kinds = rng.choice([((1, 0), (1, 1)), ((1, 0), (0, 1)), ((1, 1), (0, 0))])
        cases.append(dict(d, threads=rng.choice([2, 4, 8]), ops=[g.asm_op(rng, "mat", d["elems"], p, i, n=d["n"], s=d["s"]) for p, i in kinds]))
    for _ in range(100 if th else 16):
        d = g.wide_dim(rng)
        cases.append(dict(d, threads=rng.choice([2, 4]), ops=[g.asm_op(rng, "mat", d["elems"], p, i, n=d["n"], s=d["s"]) for p, i in ((1, 0), (0, 1))]))
    sessions = ctx.harness("asm", cases)
    ctx.validate("Trace_Assembly", sessions)
    ctx.assumptions += ["local matrices are integer valued so that floating-point sums are exact in any order",
                        "rayon is driven with 1 to 8 threads and elements that linger until a conflicting one starts; work-stealing decisions themselves are rayon's"]
