"""Quadrature rules: every rule the library hands out against exact moments of the reference domains."""
BEST = {"tri": 20, "quad": 21, "tet": 10, "hex": 11, "pri": 10, "pyr": 10}
EL = {"tri3": ("tri", 1), "tri6": ("tri", 2), "quad4": ("quad", 1), "quad9": ("quad", 2), "tet4": ("tet", 1), "tet10": ("tet", 2), "tet20": ("tet", 3), "hex8": ("hex", 1), "hex20": ("hex", 2), "hex27": ("hex", 2)}


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("quadrature")
    gen, _ = ctx.model("MC_Quadrature", consts={"MaxDeg": 8 if th else 6, "MaxS": 5 if th else 4, "Emit": "TRUE"},
                       inv=["TriangleRight", "TetRight", "PyrRight", "SumRule", "ZeroRight", "CountRight", "Selected", "NoneRight", "EmitInv"])
    cases = []
    for t in ["f64", "f32"]:
        for dom in BEST:
            n = BEST[dom] + 3
            cases.append({"kind": "select", "t": t, "dom": dom, "ss": list(range(n)) + [40, 100] if t == "f64" or th else sorted(rng.sample(range(n), 6))})
        for el, (dom, q) in EL.items():
            for what in ["mass", "stiffness"]:
                s = 2 * q if what == "mass" or dom in ("quad", "hex") else 2 * q - 2
                cases.append({"kind": "canonical", "t": t, "el": el, "what": what, "dom": dom, "s": s})
        if t == "f32" and not th: continue
        for k in (list(range(0, 65)) + [100, 128, 200] if th else list(range(0, 65))): cases.append({"kind": "gauss", "t": t, "dom": "seg", "k": k})
        for k in range(0, 25 if th else 17): cases.append({"kind": "gauss", "t": t, "dom": "quad", "k": k})
        for k in range(0, 10 if th else 9): cases.append({"kind": "gauss", "t": t, "dom": "hex", "k": k})
        for k in list(range(0, 36)) + [63, 64, 65, 127, 128, 129] + ([256, 512, 1000] if th else [256, 512]): cases.append({"kind": "lobatto", "t": t, "k": k})
        for s in range(0, 8 if not th else 14):
            for k in sorted(set(range(0, 5)) | {rng.randint(5, 12), rng.randint(5, 40)}):
                if k: cases.append({"kind": "subdiv", "t": t, "dom": "seg", "s": s, "k": k})
                if k <= (12 if th else 6) and s <= (12 if k <= 5 else 5): cases.append({"kind": "subdiv", "t": t, "dom": "tri", "s": s, "k": k})
    # what the model has visited
    for g in gen:
        if g["dom"] in ("seg", "quad", "hex") and g["s"] > 0: cases.append({"kind": "gauss", "t": "f64", "dom": g["dom"], "k": (g["s"] + 2) // 2})
        elif g["dom"] in BEST: cases.append({"kind": "select", "t": "f64", "dom": g["dom"], "ss": [g["s"]]})
    seen = {}
    for c in cases: seen.setdefault(str(c), c)
    cases = [seen[k] for k in sorted(seen)]; rng.shuffle(cases)
    ctx.validate("Trace_Quadrature", ctx.harness("quadrature", cases, jobs=8))
    ctx.assumptions += ["moments are compared on a grid of 1e-8 relative to the exact integral (f32: 2e-4), and their distance from it within 2e-11 for f64"]
