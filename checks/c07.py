from checks import asmgen as g
def run(ctx):
    th = ctx.thorough
    ctx.build("asm")
    inv = ["ErrorIffFailure", "SumExact"]
    base = {"Families": "<- AllFamilies", "AnyColoring": "FALSE", "Barrier": "TRUE", "MaxLen": 2}
    ctx.model("MC_ParAssembly", "Spec", dict(base, MaxFail=3, NNodes=3 if th else 2, Threads=2, MaxElems=3 if th else 2), inv=inv, props=["RefinesContract"])
    ctx.model("MC_ParAssembly", "Spec", dict(base, MaxFail=2, NNodes=2, Threads=2, MaxElems=2), inv=inv, props=["Terminates"], name="Live")
    discs, _ = ctx.model("MC_Assembly", "MSpec", {"NN": 3, "MaxElems": 2, "MaxLen": 2, "Distinct": "TRUE", "Emit": "TRUE"}, inv=["EmitInv"], name="Gen_Assembly")
    rng = ctx.rng
    cases = []
    def ops_for(d, k, pf):
        ops = []
        for _ in range(k):
            kind = rng.choice(["mat", "vec", "sca"])
            m = len(d["elems"])
            r = rng.random()
            fail = [] if r < 0.35 else ([rng.randrange(m)] if r < 0.7 and m else [e for e in range(m) if rng.random() < pf])
            ops.append(g.asm_op(rng, kind, d["elems"], 1 if rng.random() < 0.6 else 0, 0 if kind == "sca" else rng.randrange(2), fail=fail, n=d["n"], s=d["s"]))
        return ops
    # every set of failing elements of every small discretisation
    for d in discs:
        m = len(d["elems"])
        ops = []
        for mask in range(2 ** m):
            fail = [e for e in range(m) if mask >> e & 1]
            for kind in ("mat", "vec", "sca"):
                for par in (0, 1):
                    if d["s"] == 1 or rng.random() < 0.3:
                        ops.append(g.asm_op(rng, kind, d["elems"], par, 0, fail=fail, n=d["n"], s=d["s"]))
        rng.shuffle(ops)
        cases.append(dict(d, threads=rng.choice([1, 2, 4]), ops=ops))
    for k in range(1200 if th else 200):
        cur = d = g.disc(rng, big=k % 3 == 0)
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops += ops_for(cur, rng.randint(1, 4), rng.choice([0.1, 0.5, 1.0]))
            if rng.random() < 0.4:
                cur = g.disc(rng, big=rng.random() < 0.3)
                ops.append(dict(cur, op="mesh"))
        cases.append(dict(d, threads=rng.choice([1, 2, 4, 8]), ops=ops))
    for t in range(24 if th else 6):
        d = g.huge_disc(rng)
        ops = ops_for(d, 2, rng.choice([0.02, 1.0]))
        m = len(d["elems"])
        for kind in ("mat", "vec", "sca"):
            for par in (0, 1) if kind != "mat" else (t % 2,):
                ops.append(g.asm_op(rng, kind, d["elems"], par, 0, fail=g.one_failing(rng, m), n=d["n"], s=d["s"]))
        rng.shuffle(ops)
        cases.append(dict(d, threads=rng.choice([2, 4, 8]), ops=ops))
    sessions = ctx.harness("asm", cases)
    ctx.validate("Trace_Assembly", sessions)
