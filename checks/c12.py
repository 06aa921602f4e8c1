from checks import meshgen as g

def quads(rng):
    """positively oriented simple quads, convex and concave, no straight corners; arbitrary sharing"""
    def cross(a, b, c): return (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0])
    n = rng.randint(4, 9)
    V = [[rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(n)]
    C, tries, want = [], 0, rng.randint(0, 6)
    while len(C) < want and tries < 400:
        tries += 1
        c = rng.sample(range(n), 4)
        p = [V[i] for i in c]
        k = [cross(p[i - 1], p[i], p[(i + 1) % 4]) for i in range(4)]
        if 0 in k: continue
        neg = sum(x < 0 for x in k)
        area = cross(p[0], p[1], p[2]) + cross(p[0], p[2], p[3])
        if area <= 0 or neg > 1: continue
        # with at most one reflex corner and positive area the quad is simple unless opposite sides cross
        def crosses(a, b, c, d):
            return (cross(a,b,c) > 0) != (cross(a,b,d) > 0) and (cross(c,d,a) > 0) != (cross(c,d,b) > 0)
        if crosses(p[0],p[1],p[2],p[3]) or crosses(p[1],p[2],p[3],p[0]): continue
        C.append(c)
    return {"ct": "quad4", "V": V, "C": C}

def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("mesh")
    small, _ = ctx.model("MC_Mesh", "MSpec", {"NV": 5 if th else 4, "MaxC": 3, "MaxSteps": 0, "Emit": "TRUE", "WithRefine": "FALSE"},
                         inv=["EnrichOK", "EmitInv"])
    rng.shuffle(small)
    cases = [{"ct": c["ct"], "V": c["V"], "C": c["C"], "ops": [["convert", "tri6"]]} for c in small[:6000 if th else 500]]
    k = 6 if th else 1
    for ct, tos in (("tri3", ["tri6"]), ("quad4", ["quad9"]), ("tet4", ["tet10", "tet20"]), ("hex8", ["hex20", "hex27"])):
        cases.append(dict(g.empty(ct), ops=[["convert", t] for t in tos]))
        for _ in range(110 * k):
            m = g.manifold(rng, ct, {"tet4": 18, "hex8": 9}.get(ct, 24)) if rng.random() < .6 else g.soup(rng, ct, 5, dup=False)
            ops = [["convert", t] for t in tos]
            if ct == "tet4": ops = [["convert", "tet20"], ["convert", "tet10", 1], ["convert", "tet4", 1]]
            cases.append(dict(m, ops=ops))
    for _ in range(60 * k):
        cases.append(dict(g.any_mesh(rng, "tet10"), ops=[["convert", "tet4", 1], ["convert", "tet10"]]))
    for _ in range(250 * k):
        cases.append(dict(quads(rng), ops=[["convert", "tri3"]]))
    for _ in range(40 * k):
        cases.append(dict(g.manifold(rng, "quad4"), ops=[["convert", "tri3"]]))
    for i in range(60 * k):     # hexahedra to tetrahedra: parallelepipeds in any arrangement, holes included
        m = g.grid(rng, "hex8", [rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)], [rng.randint(1, 3) for _ in range(3)])
        if rng.random() < .7: m = g.affine(rng, m, big=False)
        m = g.shuffle(rng, m, rotate=False)
        if rng.random() < .4: m = g.delete(rng, m, .3)
        cases.append(dict(m, ops=[["convert", "tet4"]]))
    cases.append(dict(g.wide(rng, "tri3"), ops=[["convert", "tri6"]]))
    cases.append(dict(g.wide(rng, "quad4"), ops=[["convert", "quad9"]]))
    cases.append(dict(g.wide(rng, "quad4"), ops=[["convert", "tri3"]]))
    cases.append(dict(g.wide(rng, "tet4"), ops=[["convert", rng.choice(["tet10", "tet20"])]]))
    cases.append(dict(g.wide(rng, "hex8"), ops=[["convert", rng.choice(["hex20", "hex27"])]]))
    sessions = ctx.harness("mesh", g.scaled(rng, cases))
    ctx.validate("Trace_Mesh", sessions)
    ctx.assumptions += ["no two cells have the same vertices",
                        "quadrilaterals are simple, positively oriented and without straight corners",
                        "hexahedra are parallelepipeds (every face planar)"]
