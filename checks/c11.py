from checks import meshgen as g
def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("mesh")
    small, _ = ctx.model("MC_Mesh", "MSpec", {"NV": 4, "MaxC": 2, "MaxSteps": 2, "Emit": "TRUE", "WithRefine": "TRUE"},
                         inv=["StepRel", "BoundaryCommutes", "AreaKept", "Wrong", "EmitInv"])
    small = [c for c in small if any(h[0] == "refine" for h in c["hist"])]
    rng.shuffle(small)
    cases = []
    for c in small[:3000 if th else 400]:
        k = 0
        while k < len(c["hist"]) and c["hist"][-1 - k][0] == "refine": k += 1
        ops = [["keep", h[1], 1] if h[0] == "keep" else ["refine"] for h in c["hist"]]
        cases.append({"ct": c["ct"], "V": c["V"], "C": c["C"], "ops": ops + ([["repeat", j] for j in range(k + 1)] if k else [])})
    cases.append(dict(g.empty("tri3"), ops=[["refine"], ["repeat", 1], ["repeat", 0]]))
    for i in range(1500 if th else 200):
        deep = i % 5 == 0
        m = g.manifold(rng, "tri3", 4 if deep else 24) if rng.random() < .8 else None
        while m is None:      # non-manifold: any positively oriented triangles
            s = g.soup(rng, "tri3", 7)
            V = s["V"]; C = []
            for c in s["C"]:
                a = (V[c[1]][0]-V[c[0]][0])*(V[c[2]][1]-V[c[0]][1])-(V[c[1]][1]-V[c[0]][1])*(V[c[2]][0]-V[c[0]][0])
                if a: C.append(c if a > 0 or rng.random() < .2 else [c[0], c[2], c[1]])
            m = dict(s, C=C)
        ops = [["refine"]] * (3 if deep and len(m["C"]) <= 3 and i % 10 == 0 else 2 if deep else 1)
        n = len(ops)
        ops = ops + [["repeat", j] for j in range(n + 1)]
        cases.append(dict(m, ops=ops))
    cases.append(dict(g.wide(rng, "tri3"), ops=[["refine"], ["repeat", 1]]))
    for n in ([4, 5] if th else [4]):       # a single triangle, many times
        m = g.shuffle(rng, {"ct": "tri3", "V": [[0, 0], [64, 0], [rng.choice([0, 32]), 96]], "C": [[0, 1, 2]]})
        cases.append(dict(m, ops=[["refine"]] * n + [["repeat", n]]))
    sessions = ctx.harness("mesh", g.scaled(rng, cases))
    ctx.validate("Trace_Mesh", sessions)
    ctx.assumptions += ["triangles have non-zero area"]
