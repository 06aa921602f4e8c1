from checks import meshgen as g, polygen as p
KINDS = ["clip"] * 5 + ["poly"] * 2 + ["keep", "concat", "dedup", "split", "tri", "tet", "translate"]
def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("poly")
    inv = ["StepRel", "AlwaysClosed", "Complement", "Wrong"]
    allops = '{"clip", "keep", "concat", "dedup", "split", "tri"}'
    ctx.model("MC_Poly", consts={"MaxSteps": 2, "Starts": "{1, 2, 3, 4, 5}" if th else "{2, 5}", "Ops": allops, "Emit": "FALSE"}, inv=inv)
    gen, _ = ctx.model("MC_Poly", consts={"MaxSteps": 1 , "Starts": "{1, 2, 3, 4, 5}", "Ops": allops, "Emit": "TRUE"},
                       inv=inv + ["EmitInv"], name="Gen_Poly")
    if th:
        two, _ = ctx.model("MC_Poly", consts={"MaxSteps": 2, "Starts": "{1, 2, 3, 4}", "Ops": '{"clip", "tri", "keep"}', "Emit": "TRUE"},
                           inv=["EmitInv"], name="Gen2_Poly")
        rng.shuffle(two)
        gen += two[:1500]
    cases = []
    for c in gen:
        ops = []
        for h in c["hist"]:
            if h[0] == "clip": ops.append(["clip", h[1][0], h[1][1], 1])
            elif h[0] == "keep": ops.append(["keep", h[1], 1])
            elif h[0] == "concat": ops.append(["concat", [{"F": "self"}, {"F": "self"}], 1])
            elif h[0] == "split": ops.append(["split", 2])
            else: ops.append([h[0], 1])
        cases.append({"ct": c["ct"], "V": c["V"], "C": c["C"], "ops": ops + [["vol"], ["tri", 1], ["tet"], ["vol"]]})
    cases.append({"ct": "hex8", "V": [[60*x for x in q] for q in g.HEXPOS], "C": [list(range(8))], "ops": [["tri", 1], ["tet"], ["split", 1], ["tet"], ["tri", 1], ["tet"]]})
    for _ in range(2500 if th else 350):
        m = p.linear(rng, rng.choice(["hex8", "hex8", "tet4"])) if rng.random() < .8 else p.raw3(rng)
        cases.append(dict(m, ops=[["vol"], ["bnd"], ["fcc"]] + p.ops3(rng, m, rng.randint(1, 4), KINDS)))
    for _ in range(400 if th else 60):      # planes in general position
        m = p.linear(rng, rng.choice(["hex8", "tet4"])) if rng.random() < .8 else p.raw3(rng)
        ops = []
        for _ in range(3):
            n = [rng.randint(-9, 9) for _ in range(3)]
            a = rng.choice(p.points(m))
            if any(n): ops.append(["clip", n, [x + rng.randint(-90, 90) for x in a], 0])
        if rng.random() < .4: ops.insert(0, ["clip", *p.plane(rng, m), 1])
        cases.append(dict(m, ops=ops))
    # several cells in one mesh, edge splitting, conversion to tetrahedra and back
    for _ in range(600 if th else 80):
        m = p.linear(rng, rng.choice(["hex8", "tet4"]), 12)
        cases.append(dict(m, ops=[["tri", 1], ["tet"], ["vol"], ["bnd"]] + p.ops3(rng, m, 2, ["clip", "keep", "dedup", "concat"])))
    for _ in range(1500 if th else 200):
        d = rng.choice([2, 3])
        m = p.junk(rng, d)
        of = [{"F": "self"} for _ in range(rng.randint(0, 2))] + [{k: v for k, v in p.junk(rng, d, 0).items() if k != "d"} for _ in range(rng.randint(0, 2))]
        rng.shuffle(of)
        ops = [["bnd"], ["fcc"], ["dedup", 1], ["fcc"], ["split", rng.randint(0, 1)], ["concat", of, 1], ["bnd"], ["dedup", 1], ["tri", 0]]
        cases.append(dict(m, ops=ops))
    for _ in range(400 if th else 50):
        m = p.linear(rng, rng.choice(["tri3", "quad4"]), 12)
        cases.append(dict(m, ops=[["bnd"], ["fcc"], ["concat", [{"F": "self"}] * 2, 1], ["dedup", 1], ["split", 2], ["bnd"], ["fcc"]]))
    ctx.validate("Trace_Poly", ctx.harness("poly", g.scaled(rng, cases)))
    ctx.assumptions += ["integer coordinates; cuts whose vertices are not on the integer grid are checked through volumes and topology only"]
