def run(ctx):
    inv = ["StorageDenotesValue", "NoGaps", "AppenderCount"]
    ctx.build("nested")
    # design: storage refines the abstract sequence of sequences
    ctx.model("MC_NestedVec", consts={"Vals": "{1,2}", "MaxLen": 2, "MaxSteps": 8 if ctx.thorough else 6, "Emit": "FALSE"},
              inv=inv, view="View")
    # all short behaviours, and long random ones, replayed in the real code
    short, _ = ctx.model("MC_NestedVec", consts={"Vals": "{1,2}", "MaxLen": 1, "MaxSteps": 6 if ctx.thorough else 5, "Emit": "TRUE"},
                         inv=inv + ["EmitInv"], name="Gen_NestedVec")
    long_, _ = ctx.model("MC_NestedVec", consts={"Vals": "{1,2,3}", "MaxLen": 3, "MaxSteps": 30, "Emit": "TRUE"},
                         inv=inv + ["EmitInv"], name="Sim_NestedVec", simulate=(6000 if ctx.thorough else 600, 32))
    # long containers: more arrays and elements than small counters hold
    rng = ctx.rng
    for k in range(30 if ctx.thorough else 6):
        e = lambda op, a=(), i=0, j=0, x=0: dict(op=op, a=list(a), i=i, j=j, x=x)
        c, lens = [], []
        def one(m):
            if rng.random() < 0.3 and m < 40:
                c.append(e("begin")); c.extend(e("single", x=rng.randrange(100)) for _ in range(m)); c.append(e("end"))
            else:
                c.append(e("push", [rng.randrange(1000) for _ in range(m)]))
            lens.append(m)
        for _ in range(rng.choice([3, 8])):
            one(rng.choice([255, 256, 257, 300, 700]))
        for _ in range(0 if k % 3 else 290):
            c.append(e("push", [rng.randrange(10)] * (len(lens) % 3))); lens.append((len(lens)) % 3)
        for _ in range(12):
            r = rng.random()
            if r < 0.5:
                i = rng.choice([0, len(lens) - 1, rng.randrange(len(lens))])
                if lens[i]:
                    c.append(e("set", i=i, j=rng.choice([0, lens[i] - 1, rng.randrange(lens[i])]), x=rng.randrange(1000, 2000)))
            elif r < 0.9:
                one(rng.choice([0, 1, 20, 256]))
            else:
                c.append(e("copy"))
        c += [e("clear"), e("push", [1, 2, 3]), e("begin"), e("single", x=5), e("end")]
        long_.append(c)
    sessions = ctx.harness("nested", short + long_)
    ctx.validate("Trace_NestedVec", sessions)
    ctx.assumptions += ["element type is integers; the container is parametric in the element type",
                        "public accessors project the whole state"]
