def run(ctx):
    th = ctx.thorough
    ctx.build("subsets")
    inv = ["ExactlyOnce", "PiecesDisjoint"]
    ctx.model("MC_DisjointIter", "MSpec", {"MaxSteps": 6 if th else 5, "MaxSubs": 3, "Emit": "FALSE"}, inv=inv, view="View")
    short, _ = ctx.model("MC_DisjointIter", "MSpec", {"MaxSteps": 4 if th else 3, "MaxSubs": 3, "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Gen_DisjointIter")
    long_, _ = ctx.model("MC_DisjointIter", "MSpec", {"MaxSteps": 14, "MaxSubs": 4, "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Sim_DisjointIter",
                         simulate=(8000 if th else 1600, 16))
    rng = ctx.rng
    rng.shuffle(short)
    cases = []
    def finish(c, runs):
        f = c["F"]
        mx = max([x for s in f for x in s], default=-1)
        ln = mx + 1 + rng.choice([0, 0, 1, 3])
        tries = []
        if rng.random() < .3:      # no storage is needed for these: large indices, with and without a repeated one
            pool = rng.sample([5, 63, 64, 255, 256, 300, 1000, 65535, 65536, 65541, 131072, 131077, 10**6, 16777216, 16777221], 9)
            for _ in range(3):
                g = [[], [], []]
                for x in rng.sample(pool, rng.randint(2, 9)): g[rng.randrange(3)].append(x)
                if rng.random() < .4: g[rng.randrange(3)].insert(0, rng.choice(pool))
                tries.append(g)
        for _ in range(2):
            g = [list(s) for s in f]
            if g and rng.random() < 0.7:
                g[rng.randrange(len(g))].insert(0, rng.randrange(max(1, ln)))
            tries.append(g)
        kind = rng.choice(["slice", "block", "csr"])
        return dict(F=f, labels=c["labels"], len=ln, w=1 if kind == "slice" else rng.randint(1, 3), kind=kind, runs=runs, tries=tries,
                    lens=sorted({0, max(0, mx), mx + 1, mx + 2}), threads=rng.choice([1, 2, 4]))
    for c in (short[:12000 if th else 1500] + long_):
        cases.append(finish(c, [["script", c["ops"]]]))
    for t in range(2500 if th else 400):
        n = rng.choice([0, 1, 2, 5, 9, 20]) if t % 40 else rng.choice([70, 140, 300])
        ix = list(range(rng.randint(0, 3 * n + 2)))
        if t % 16 == 5:        # wide subsets and gaps between the indices
            n = rng.randint(1, 4)
            ix = list(range(rng.choice([60, 130])))
            ix += [max(ix) + rng.choice([200, 1500, 3000])]
        rng.shuffle(ix)
        f = [[] for _ in range(n)]
        for x in ix:
            if n and rng.random() < 0.8:
                k = rng.randrange(n)
                f[k].append(x)
                if rng.random() < 0.1:
                    f[k].append(x)
        runs = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.2:
                runs.append(["all", 0, rng.choice([0, 1, 2])])
            elif r < 0.35:
                runs.append(["rev", 0, rng.choice([0, 1])])
            elif r < 0.7:
                runs.append([rng.choice(["take", "skip"]), rng.choice([0, 1, n // 2, max(0, n - 1), n, n + 1]), rng.choice([0, 1, 3])])
            else:       # a random legal script over n subsets
                pieces = {0: [0, n, False]}
                nid, ops = 1, []
                for _ in range(rng.randint(4, min(4 * n, 90) + 8)):
                    p = rng.choice(list(pieces))
                    lo, hi, op = pieces[p]
                    if not op and rng.random() < 0.5:
                        k = rng.choice([0, hi - lo, rng.randint(0, hi - lo)])
                        ops.append(["split", p, k])
                        del pieces[p]
                        pieces[nid], pieces[nid + 1] = [lo, lo + k, False], [lo + k, hi, False]
                        nid += 2
                    elif not op:
                        ops.append(["open", p, 0]); pieces[p][2] = True
                    else:
                        e = rng.choice(["next", "back"])
                        ops.append([e, p, 0])
                        if lo < hi:
                            pieces[p][0 if e == "next" else 1] += 1 if e == "next" else -1
                runs = [["script", ops]] if not runs else runs
        cases.append(finish({"F": f, "labels": [rng.randrange(40) for _ in f]}, runs))
    ctx.validate("Trace_DisjointIter", ctx.harness("subsets", cases))
    ctx.assumptions += ["splits are driven through rayon's own with_producer interface, i.e. any split tree a scheduler may choose"]
