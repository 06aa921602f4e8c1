def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("calculus")
    inv = ["Restored", "Right", "Asked", "ExactForQuadratics", "ForwardDiffers"]
    gen = []
    for n, m, quad in [(0, 1, False), (1, 2, False), (2, 1, False), (1, 1, True), (2, 1, True)] + ([(2, 2, False), (3, 1, False)] if th else []):
        vals = "{0, 4096, 12288}" if n * m < 2 or th and n < 3 else "{0, 4096}"
        ctx.model("MC_Calculus", consts={"N": n, "M": m, "H": 32, "Vals": vals, "Quad": str(quad).upper(), "Bug": '"none"', "Emit": "FALSE"}, inv=inv, name=f"Calculus_{n}{m}{int(quad)}")
        if quad:
            g, _ = ctx.model("MC_Calculus", consts={"N": n, "M": m, "H": 16, "Vals": "{0}", "Quad": "TRUE", "Bug": '"none"', "Emit": "TRUE"}, inv=inv + ["EmitInv"], name=f"Gen_Calculus_{n}")
            rng.shuffle(g)
            gen += g[:1500 if th else 150]
    ctx.refuted("MC_Calculus", consts={"N": 2, "M": 1, "H": 32, "Vals": "{0, 4096}", "Quad": "FALSE", "Bug": '"norestore"', "Emit": "FALSE"}, inv=["Restored"], name="Bug_norestore")
    ctx.refuted("MC_Calculus", consts={"N": 1, "M": 1, "H": 32, "Vals": "{0, 4096}", "Quad": "FALSE", "Bug": '"add"', "Emit": "FALSE"}, inv=["Right"], name="Bug_add")
    cases = []
    def case(n, m, do, kind, co=None, x=None):
        if do == "grad": m = 1
        return {"do": do, "via": rng.randint(0, 1), "fail": rng.randint(0, 1), "n": n, "m": m, "kind": kind, "h": rng.choice([-6, -4, -3, -1, 0, 1, 3]), "seed": rng.randrange(1 << 40),
                "x": x if x is not None else [rng.choice([0, rng.randint(-640, 640), 64 * rng.randint(-5, 5)]) for _ in range(n)],
                "co": [[rng.randint(-4, 4) for _ in range(2 * n + 2)] for _ in range(m)] if co is None else co}
    for c in gen:
        cases.append(case(c["n"], c["m"], rng.choice(["jac", "jacfd", "grad"]) if c["m"] == 1 else rng.choice(["jac", "jacfd"]), 1, c["co"], c["x"]))
    for do in ["jac", "jacfd", "grad"]:
        for n in [0, 1, 2, 3]:
            for m in [0, 1, 2, 3]:
                if do != "grad" or m == 1: cases += [dict(case(n, m, do, k), via=v) for k in (0, 1) for v in (0, 1)]
    for _ in range(6000 if th else 600):
        n, m = rng.choice([1, 2, 3, 4, 6, 9]), rng.choice([1, 2, 3, 5, 8])
        cases.append(case(n, m, rng.choice(["jac", "jacfd", "jacfd", "grad"]), rng.randint(0, 1)))
    for _ in range(60 if th else 8):
        cases.append(case(rng.choice([17, 33, 40]), rng.choice([1, 18, 31]), rng.choice(["jac", "jacfd", "grad"]), rng.randint(0, 1)))
    for _ in range(400 if th else 60):
        q = lambda: [rng.randint(-10 ** 6, 10 ** 6), rng.choice([3, 7, 10, 1000, 10 ** 6 + 3])]
        cases.append({"do": "kept", "via": rng.randint(0, 1), "x": [q() for _ in range(rng.randint(1, 5))], "h": [1, rng.choice([3, 10, 1000, 10 ** 6, 10 ** 12])]})
    rng.shuffle(cases)
    ctx.validate("Trace_Calculus", ctx.harness("calculus", cases, jobs=4))
    ctx.assumptions += ["points, steps and values are dyadic, so that the differences are exact"]
