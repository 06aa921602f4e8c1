from checks import meshgen as g, polygen as p
def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("mesh")
    small, _ = ctx.model("MC_Mesh", "MSpec", {"NV": 4, "MaxC": 2, "MaxSteps": 2, "Emit": "TRUE", "WithRefine": "FALSE"},
                         inv=["StepRel", "Wrong", "EmitInv"])
    rng.shuffle(small)
    cases = [{"ct": c["ct"], "V": c["V"], "C": c["C"], "ops": [["keep", h[1], 1] for h in c["hist"]]} for c in small[:6000 if th else 700]]
    for ct in g.ALL2D3D + ["tet20", "seg2"]:
        cases.append(dict(g.empty(ct), ops=[["keep", []]]))
        for _ in range(220 if th else 28):
            m = g.any_mesh(rng, ct)
            n, ops = len(m["C"]), []
            for _ in range(3):
                k = rng.randint(0, n)
                l = rng.sample(range(n), k)
                if n and rng.random() < .3: l += [rng.randrange(n) for _ in range(rng.randint(1, 3))]   # repeated cells
                if rng.random() < .3: l.sort()
                st = rng.random() < .5
                ops.append(["keep", l, 1 if st else 0])
                if st: n = len(l)
            cases.append(dict(m, ops=ops))
    for ct in ("tri3", "quad4", "hex8", "tet4"):
        m = g.wide(rng, ct)
        n = len(m["C"])
        cases.append(dict(m, ops=[["keep", rng.sample(range(n), n), 0], ["keep", sorted(rng.sample(range(n), n - 3)), 1], ["keep", list(range(n - 3)), 0]]))
    # polyhedral meshes: cells that share faces, and cells cut off by planes
    ctx.build("poly")
    polys = []
    for _ in range(600 if th else 90):
        m = p.linear(rng, rng.choice(["hex8", "hex8", "tet4"]), 12) if rng.random() < .8 else p.raw3(rng)
        polys.append(dict(m, ops=[o for o in p.ops3(rng, m, rng.randint(2, 6), ["keep"]) if o[0] == "keep"]))
    ctx.validate("Trace_Poly", ctx.harness("poly", g.scaled(rng, polys)))
    sessions = ctx.harness("mesh", g.scaled(rng, cases))
    ctx.validate("Trace_Mesh", sessions)
