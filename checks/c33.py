from checks import meshgen as g
def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("smallalg")
    def consts(kind, n, vals, bug="none", emit=False): return {"Kind": '"%s"' % kind, "N": n, "Vals": vals, "Bug": '"%s"' % bug, "Emit": str(emit).upper()}
    svd, view, file = ["Rotations", "Product", "Accepted", "EmitInv"], ["SameEntries", "OnlyThen"], ["ReadsBack", "EmitInv"]
    gen = []
    for n, vals in [(2, "{0, 1, 2, 5}"), (3, "{1, 4}" if not th else "{0, 1, 4}")]:
        gen += ctx.model("MC_SmallAlg", consts=consts("svd", n, vals, emit=True), inv=svd, name=f"SVD{n}")[0]
    ctx.model("MC_SmallAlg", consts=consts("view", 1, "{0}"), inv=view, name="View")
    for n, vals in [(1, "{0, 64, 5}"), (2, "{0, 64, 5}")] + ([(3, "{0, 7}")] if th else []):
        gen += ctx.model("MC_SmallAlg", consts=consts("file", n, vals, emit=True), inv=file, name=f"File{n}")[0]
    ctx.refuted("MC_SmallAlg", consts=consts("svd", 2, "{1, 2}", "keepvalue"), inv=["Product"], name="Bug_keepvalue")
    ctx.refuted("MC_SmallAlg", consts=consts("svd", 2, "{1, 2}", "all"), inv=["Product"], name="Bug_all")
    ctx.refuted("MC_SmallAlg", consts=consts("view", 1, "{0}", "unchecked"), inv=["SameEntries"], name="Bug_unchecked")
    ctx.refuted("MC_SmallAlg", consts=consts("file", 2, "{0, 5}", "skipzero"), inv=["ReadsBack"], name="Bug_skipzero")
    ctx.refuted("MC_SmallAlg", consts=consts("file", 2, "{0, 5}", "zerobased"), inv=["ReadsBack"], name="Bug_zerobased")
    seen, cases = set(), []
    rng.shuffle(gen)
    cap = {"svd": 1500 if th else 150, "csr": 1500 if th else 150}
    for c in gen:
        if str(c) in seen or cap[c["do"]] == 0: continue
        seen.add(str(c)); cap[c["do"]] -= 1
        cases.append({"do": "svd", "A": c["A"]} if c["do"] == "svd" else
                     {"do": "csr", "nr": 3, "nc": 3, "ent": rng.sample(c["ent"], len(c["ent"]))})
    def ri(k): return rng.randint(-k, k)
    def mat(m, n, k): return [[ri(k) for _ in range(n)] for _ in range(m)]
    def orth(d):                       # M / N is orthogonal
        f = rng.random()
        if d == 2 and f < .5:
            a, b, n = rng.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (1, 0, 1), (0, 1, 1)])
            s = rng.choice([-1, 1])
            return n, [[a, -s * b], [b, s * a]]
        if f < .6:
            while True:
                v = [ri(2) for _ in range(d)]
                n = sum(x * x for x in v)
                if n: return n, [[n * (i == j) - 2 * v[i] * v[j] for j in range(d)] for i in range(d)]
        p = rng.sample(range(d), d)
        return 1, [[(p[i] == j) * rng.choice([-1, 1]) for j in range(d)] for i in range(d)]
    def rotation():
        while True:
            a, b, c, d = [ri(3) for _ in range(4)]
            n = a * a + b * b + c * c + d * d
            if n: return [a, b, c, d], n, [[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]
    for _ in range(3000 if th else 300):
        n = rng.choice([2, 3])
        A = mat(n, n, rng.choice([1, 2, 5]))
        f = rng.random()
        if f < .15: A[1] = list(A[0])                                   # singular
        elif f < .25: A = [[(i == j) * rng.choice([-3, 3, 2]) for j in range(n)] for i in range(n)]
        elif f < .35: A = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        cases.append({"do": "svd", "A": A})
    for _ in range(2000 if th else 250):
        q, n, m = rotation()
        # diagonally dominant and symmetric
        o = [rng.choice([0, ri(3)]) for _ in range(3)]
        dg = [rng.randint(7, 14) for _ in range(3)] if rng.random() < .8 else [7] * 3
        P = [[dg[0], o[0], o[1]], [o[0], dg[1], o[2]], [o[1], o[2], dg[2]]]
        ax = [ri(3) for _ in range(3)]
        if not any(ax): ax = [0, 1, 0]
        cases.append({"do": "apd", "it": rng.choice([6, 8, 30]), "q": q, "N": n, "M": m, "P": P, "guess": ax + [rng.choice([0, 1, 50, 200, 400])]})
    for _ in range(1500 if th else 200):
        m, n = rng.choice([(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 1)])
        cases.append({"do": "diag", "d": [ri(9) for _ in range(m)], "A": mat(m, n, 30)})
        x = rng.choice([[ri(5), ri(5), ri(5)], [ri(50), ri(1), ri(1)], [0, 0, rng.choice([-1, 4])], [0, ri(3), 0], [ri(2), 0, 0], [1, 1, ri(1)]])
        cases.append({"do": "cross", "x": x})
        if any(x): cases.append({"do": "ortho", "x": x})
        d = rng.choice([1, 2, 2, 3, 3, 4, 5])
        n, m = orth(d)
        while sum(map(abs, sum(m, []))) * n > 3000: n, m = orth(d)
        L = rng.choice([[ri(9) for _ in range(d)], [rng.randint(-9, -1) for _ in range(d)], [rng.randint(1, 60) for _ in range(d)], [rng.choice([-7, 7, 2, -2]) for _ in range(d)]])
        cases.append({"do": "eig", "N": n, "M": m, "L": L, "via": rng.randint(0, 1) if d in (2, 3) else 0})
        dd, nn = rng.choice([1, 2, 3]), rng.randint(1, 8)
        cases.append({"do": "extract", "u": [ri(500) for _ in range(dd * nn)], "idx": [rng.randrange(nn) for _ in range(rng.choice([0, 1, 3, 8]))], "d": dd})
        form = rng.choice(["own", "static", "part", "rows", "shape"])
        m, n = (3, 2) if form == "static" else (rng.randint(1, 4), rng.randint(1, 4))
        cases.append({"do": "coerce", "form": form, "A": mat(m, n, 40), "at": [rng.randrange(m), rng.randrange(n)], "w": rng.choice([777, -5]), "mut": rng.randint(0, 1)})
        nc = rng.choice([1, 1, 2, 3, 7])
        cases.append({"do": "text", "A": mat(rng.choice([0, 1, 2, 5]), nc, rng.choice([3, 900, 100000])), "nc": nc})
        nr, nc = rng.choice([0, 1, 2, 4, 9]), rng.choice([1, 2, 5, 12])
        cases.append({"do": "csr", "nr": nr, "nc": nc, "ent": [[rng.randrange(nr), rng.randrange(nc), rng.choice([0, ri(9), ri(100000)])] for _ in range(rng.randint(0, 14) if nr else 0)]})
    for _ in range(100 if th else 20):
        cases.append({"do": "cast", "v": [ri(100) for _ in range(rng.choice([0, 1, 5]))]})
    for _ in range(1500 if th else 150):
        ct = rng.choice(["tri3", "quad4", "tri6", "quad9", "tet4", "tet10", "hex8", "hex20", "hex27"])
        m = g.any_mesh(rng, ct, 8)
        if m["C"] and any(i >= len(m["V"]) for c in m["C"] for i in c) or any(len(set(c)) < len(c) for c in m["C"]): continue
        if len(m["V"]) > 70: continue
        cases.append(dict(m, do="mesh"))
    for c in cases:
        if c["do"] in ("svd", "diag", "cross", "eig", "coerce", "text", "csr") and rng.random() < .3: c["scale"] = rng.choice([-40, -9, 5, 30])
    rng.shuffle(cases)
    ctx.validate("Trace_SmallAlg", ctx.harness("smallalg", cases, jobs=8))
    ctx.assumptions += ["rotations, eigenvalues and factors are compared to about 1e-3; polar rotations are sought from guesses at most 0.4 radians away, for stretches between about 0.1 and 2.5"]
