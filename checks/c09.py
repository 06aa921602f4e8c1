from checks import meshgen as g

def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("mesh")
    small, _ = ctx.model("MC_Mesh", "MSpec", {"NV": 5 if th else 4, "MaxC": 3, "MaxSteps": 0, "Emit": "TRUE", "WithRefine": "FALSE"},
                         inv=["SurfaceOK", "EmitInv"])
    rng.shuffle(small)
    cases = [{"ct": c["ct"], "V": c["V"], "C": c["C"], "ops": [["boundary"], ["surface"]]} for c in small[:6000 if th else 700]]
    for ct in g.ALL2D3D:
        cases.append(dict(g.empty(ct), ops=[["boundary"], ["surface"]]))
        solid = ct in ("tet4", "hex8", "hex20", "hex27", "tet10")
        for _ in range(220 if th else 28):
            m = g.any_mesh(rng, ct)
            ops = [["boundary"], ["surface", int(solid)]]
            # the surface of a solid is a mesh of its own: its boundary is empty where the surface is closed
            if solid: ops += [["boundary"], ["surface"]]
            cases.append(dict(m, ops=ops))
    for ct, to in (("tri3", "tri3"), ("quad4", "quad4"), ("hex8", "hex8"), ("tet4", "tet4"), ("tri3", "tri6"), ("hex8", "hex27"))[:6 if th else 4]:
        m = g.wide(rng, ct)
        if ct == "tet4": m["C"] = m["C"][:150]      # still more than 256 vertices
        elif rng.random() < .8: m = g.delete(rng, m, .3)
        if to != ct: m = g.shuffle(rng, g.enrich(m, to), rotate=False)
        cases.append(dict(m, ops=[["boundary"], ["surface", 0]]))
    for ct in ("quad9", "quad8s", "hex20", "hex27", "tri6", "tet10"):     # faces that differ in one node only
        for _ in range(40 if th else 8):
            m = g.any_mesh(rng, ct)
            V, C = [list(v) for v in m["V"]], [list(c) for c in m["C"]]
            for c in C:
                if rng.random() < .5:
                    i = rng.randrange(len(c))
                    V.append(list(V[c[i]])); c[i] = len(V) - 1
            cases.append(dict(m, V=V, C=C, ops=[["boundary"], ["surface", 0]]))
    sessions = ctx.harness("mesh", g.scaled(rng, cases))
    ctx.validate("Trace_Mesh", sessions)
    ctx.assumptions += ["cells have pairwise distinct vertices"]
