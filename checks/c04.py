from checks import asmgen as g
def run(ctx):
    th = ctx.thorough
    ctx.build("asm")
    # design: per-node neighbour sets give exactly the couplings (repeated nodes inside an element included)
    discs, _ = ctx.model("MC_Assembly", "MSpec", {"NN": 3, "MaxElems": 3 if th else 2, "MaxLen": 3, "Distinct": "FALSE", "Emit": "TRUE"},
                         inv=["PatternOK", "RowsSorted", "Symmetric", "EmitInv"])
    rng = ctx.rng
    rng.shuffle(discs)
    cases = []
    for k in range(0, min(len(discs), 20000 if th else 3300), 4):   # the same assembler over several discretisations
        ch = discs[k:k + 4]
        cases.append(dict(ch[0], threads=rng.choice([1, 2, 4]), ops=[{"op": "pat"}] + [x for d in ch[1:] for x in (dict(d, op="mesh"), {"op": "pat"})]))
    for k in range(1500 if th else 250):
        big = k % 3 == 0
        d = g.disc(rng, big=big, distinct=rng.random() < 0.5)
        ops = [{"op": "pat"}]
        for _ in range(rng.randint(1, 4)):
            ops += [dict(g.disc(rng, big=rng.random() < 0.4, distinct=rng.random() < 0.5), op="mesh"), {"op": "pat"}]
        cases.append(dict(d, threads=rng.choice([1, 2, 3, 8]), ops=ops))
    # more elements and nodes than the batches the parallel assembler works in
    for k in range(120 if th else 30):
        n = rng.randint(15, 70)
        d = {"n": n, "s": rng.randint(1, 3), "elems": g.rand_elems(rng, n, rng.choice([9, 10, 11, 19, 20, 21, 25, 40, 41, 55]), 3, True, 0.05)}
        cases.append(dict(d, threads=rng.choice([2, 4, 8]), ops=[{"op": "pat"}]))
    for _ in range(60 if th else 12):
        d = g.wide_dim(rng, rng.random() < 0.5)
        cases.append(dict(d, threads=rng.choice([2, 4]), ops=[{"op": "pat"}]))
    for t in range(24 if th else 8):
        d = g.huge_disc(rng, rng.random() < 0.5)
        if t % 4 == 0: d["elems"] = d["elems"][:101] if len(d["elems"]) > 101 else d["elems"][:61]
        cases.append(dict(d, threads=rng.choice([2, 4, 8]), ops=[{"op": "pat"}]))
    sessions = ctx.harness("asm", cases)
    ctx.validate("Trace_Assembly", sessions)
