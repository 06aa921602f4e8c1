def n_el(t):
    return len(t["el"]) if t["k"] == "leaf" else sum(map(n_el, t["of"])) if t["k"] == "agg" else n_el(t["of"])

def nodes(t): return t["n"] if t["k"] in ("leaf", "map") else nodes(t["of"][0]) if t["k"] == "agg" else nodes(t["of"])

def leaf(rng, n, s):
    m = rng.choice([0, 0, 1, 1, 2, 3, 5])
    el = [[rng.randrange(n) for _ in range(rng.randint(0, 4))] for _ in range(m)]
    return {"k": "leaf", "n": n, "s": s, "el": el, "tag": rng.randint(0, 50), "fail": [int(rng.random() < .12) for _ in el]}

def tree(rng, d, n, s):
    """a random composition with node space n and solution dimension s"""
    r = rng.random()
    if d == 0 or r < .1: return leaf(rng, n, s)
    if r < .5:
        parts = [tree(rng, d - 1, n, s) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
        if rng.random() < .04: parts[rng.randrange(len(parts))] = tree(rng, 0, n + 1, s)
        if rng.random() < .04: parts[rng.randrange(len(parts))] = tree(rng, 0, n, s + 1)
        return {"k": "agg", "of": parts}
    if r < .65:
        k = rng.randint(1, 5)
        sub = tree(rng, d - 1, k, s)
        return {"k": "map", "n": n, "f": [rng.randrange(n) for _ in range(k + 1)], "of": sub}
    return {"k": rng.choice(["ts", "tv", "tm"]), "a": rng.choice([-1, 1, 2]), "c": rng.randint(-3, 3),
            "m": rng.choice([0, 0, 5, 7]), "r": rng.randint(0, 4), "of": tree(rng, d - 1, n, s)}

def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("compose")
    inv = ["Found", "ConcatLaw", "Flatten", "TransformDistributes", "MapComposes", "Sizes"]
    ctx.model("MC_Compose", consts={"MaxSteps": 3, "MaxParts": 3 if th else 2, "Emit": "FALSE"}, inv=inv)
    gen, _ = ctx.model("MC_Compose", consts={"MaxSteps": 2, "MaxParts": 3, "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Gen_Compose")
    rng.shuffle(gen)
    trees = gen[:8000 if th else 900]
    trees += [tree(rng, rng.randint(1, 4), rng.randint(1, 5), rng.randint(1, 3)) for _ in range(6000 if th else 900)]
    trees.append({"k": "agg", "of": []})
    cases = []
    for t in trees:
        ne = n_el(t)
        ask = [[op, e, rng.randint(0, 1)] for e in range(ne + 2) for op in ("nodes", "scalar", "vector", "matrix")]
        rng.shuffle(ask)
        if t["k"] != "agg": ask = [a for a in ask if a[1] < ne]     # only aggregates promise to reject elements out of range
        cases.append({"tree": t, "ask": ask[:60]})
    ctx.validate("Trace_Compose", ctx.harness("compose", cases))
    ctx.assumptions += ["integer local quantities; transformations that depend on position and fail on some values"]
