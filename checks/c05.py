from checks import asmgen as g
def run(ctx):
    th = ctx.thorough
    ctx.build("asm")
    discs, _ = ctx.model("MC_Assembly", "MSpec", {"NN": 3, "MaxElems": 3 if th else 2, "MaxLen": 2, "Distinct": "FALSE", "Emit": "TRUE"},
                         inv=["PatternOK", "EmitInv"], name="Gen_Assembly")
    ctx.model("MC_ParAssembly", "Spec", {"Families": "<- AllFamilies", "AnyColoring": "FALSE", "MaxFail": 0, "Barrier": "TRUE", "MaxLen": 2,
              "NNodes": 2, "Threads": 2, "MaxElems": 3 if th else 2}, inv=["SumExact", "AccIsVal", "NoConflictInFlight"], props=["RefinesContract"])
    rng = ctx.rng
    cases = []
    def ops_for(d, k):
        ops = []
        for _ in range(k):
            kind = rng.choice(["vec", "vec", "sca"])
            ops.append(g.asm_op(rng, kind, d["elems"], rng.randrange(2), 0 if kind == "sca" else rng.randrange(2), n=d["n"], s=d["s"]))
        return ops
    def gather(n, s):
        idx = [rng.randrange(n) for _ in range(rng.randrange(0, 6 if n < 60 else 50))] if n else []
        return {"op": "gather", "idx": idx, "s": s, "global": [rng.randrange(-50, 50) for _ in range(n * s)]}
    for d in discs:
        # the parallel vector assembler and the serial one, creating and accumulating
        ops = [g.asm_op(rng, "vec", d["elems"], p, i, n=d["n"], s=d["s"]) for p, i in ((1, 0), (0, 0), (1, 1), (0, 1))]
        ops += [g.asm_op(rng, "sca", d["elems"], p) for p in (0, 1)] + [gather(d["n"], d["s"])]
        rng.shuffle(ops)
        cases.append(dict(d, threads=rng.choice([1, 2, 4]), ops=ops))
    for k in range(1500 if th else 250):
        distinct = rng.random() < 0.5
        cur = d = g.disc(rng, big=k % 3 == 0, distinct=distinct)
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops += ops_for(cur, rng.randint(1, 3))
            cur = g.disc(rng, big=rng.random() < 0.3, distinct=distinct)
            ops += [dict(cur, op="mesh"), gather(rng.randint(0, 8), rng.randint(1, 4))]
        cases.append(dict(d, threads=rng.choice([1, 2, 4, 8]), ops=ops))
    for _ in range(100 if th else 20):
        d = g.wide_dim(rng)
        cases.append(dict(d, threads=rng.choice([2, 4]), ops=ops_for(d, 4) + [gather(rng.randint(1, 8), rng.randint(4, 7))]))
    for _ in range(24 if th else 6):
        d = g.huge_disc(rng)
        cases.append(dict(d, threads=rng.choice([2, 4, 8]), ops=ops_for(d, 4) + [gather(rng.choice([70, 300, 520]), rng.randint(1, 4))]))
    sessions = ctx.harness("asm", cases)
    ctx.validate("Trace_Assembly", sessions)
    ctx.assumptions += ["local vectors and scalars are integer valued so that sums are exact in any order"]
