from checks import meshgen as g
CTS = ["seg2", "tri3", "tri6", "quad4", "quad9", "tri3s", "tri6s", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"]
def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("views")
    inv = ["Kept", "Commutes", "BoxHolds", "FacesInside", "EveryNodeOnAFace", "EmitInv"]
    cts = "{" + ", ".join('"%s"' % c for c in CTS) + "}"
    gen, _ = ctx.model("MC_Views", consts={"MaxSteps": 2 if not th else 3, "Cts": cts, "Emit": "TRUE"}, inv=inv)
    rng.shuffle(gen)
    cases = gen[:2500 if th else 260]
    def vec(d, k=200): return [rng.randint(-k, k) for _ in range(d)]
    def ops(m, n):
        d, out = len(m["V"][0]) if m["V"] else 2, []
        for _ in range(n):
            k = rng.choice(["translate", "translated", "map", "all", "poke", "clone"])
            if k in ("translate", "translated"): out.append([k, vec(d)])
            elif k == "map":
                A = [[0] * d for _ in range(d)]
                for i, j in enumerate(rng.sample(range(d), d)): A[i][j] = rng.choice([-1, 1, 1, 2])
                if rng.random() < .3: A[rng.randrange(d)][rng.randrange(d)] += 1
                out.append([k, A, vec(d)])
            elif k == "all": out.append([k, rng.randint(1, 5)])
            elif k == "poke" and m["V"]: out.append([k, rng.randrange(len(m["V"])), vec(d)])
            elif k == "clone": out.append([k])
        return out
    for _ in range(2500 if th else 300):
        m = g.any_mesh(rng, rng.choice(CTS))
        if not m["V"]: continue
        if rng.random() < .3: m["V"].insert(rng.randint(0, len(m["V"])), [9999] * len(m["V"][0])); 
        if any(i >= len(m["V"]) for c in m["C"] for i in c): continue
        c = dict(m, ops=ops(m, rng.randint(0, 5)))
        if m["C"] and rng.random() < .5:
            n = len(m["V"])
            bad = list(rng.choice(m["C"]))
            bad[rng.randrange(len(bad))] = rng.choice([n, n + 1, n + 1000, rng.randrange(n)])
            c["bad"] = bad
        cases.append(c)
    for ct in CTS: cases.append({"ct": ct, "V": [], "C": [], "ops": [["clone"]]})
    for ct in ["tri3", "quad4", "tet4", "hex8"]: cases.append(dict(g.wide(rng, ct), ops=[["translate", [3] * (2 if ct in ("tri3", "quad4") else 3)]]))
    for c in cases:
        if rng.random() < .3: c["scale"] = rng.choice([-40, -24, -8, 9, 24])
    rng.shuffle(cases)
    ctx.validate("Trace_Views", ctx.harness("views", cases, jobs=8))
    ctx.assumptions += ["integer coordinates (times a power of two)", "cells that refer to missing vertices: a cell must not be made up, None and a panic are both accepted"]
