"""Material models: energies, stresses and contractions on exact deformation gradients."""
def ident(d, s=1): return [[s if i == j else 0 for j in range(d)] for i in range(d)]
def det(m):
    if len(m) == 1: return m[0][0]
    if len(m) == 2: return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum(m[0][j] * (m[1][(j + 1) % 3] * m[2][(j + 2) % 3] - m[1][(j + 2) % 3] * m[2][(j + 1) % 3]) for j in range(3))
def rmat(rng, d, r): return [[rng.randint(-r, r) for _ in range(d)] for _ in range(d)]
def rvec(rng, d, r): return [rng.randint(-r, r) for _ in range(d)]


def ops(rng, d, n, M, k):
    """k random calls for one deformation"""
    J = det(M)
    r = []
    small = 1 if d == 3 else 2
    for _ in range(k):
        kind = rng.choice(["le", "stvk", "nh", "nh", "custom"])
        via = rng.choice(["F", "du", "op"])
        if kind == "nh" and (J <= 0 or J > 60):
            if J <= 0: r.append({"op": "barrier", "kind": "nh", "via": via})
            kind = rng.choice(["le", "stvk", "custom"])
        a = 1 if kind == "nh" else 3
        w = rng.random()
        if w < .2: r.append({"op": "energy", "kind": kind, "via": via})
        elif w < .4: r.append({"op": "stress", "kind": kind, "via": rng.choice(["F", "du", "op", "opT"])})
        elif w < .65: r.append({"op": "contract", "kind": kind, "via": via, "a": rvec(rng, d, min(a, small) if kind == "nh" else a), "b": rvec(rng, d, small)})
        elif w < .95:
            m = rng.choice([0, 1, 1, 2, 3, 4] if rng.random() < .96 else [21, 24])
            bs = [rvec(rng, d, small if kind == "nh" else 2) for _ in range(m)]
            As = [list(b) for b in bs] if rng.random() < .7 else [rvec(rng, d, small if kind == "nh" else 2) for _ in range(m)]
            out = [[rng.randint(-3, 3) for _ in range(m * d)] for _ in range(m * d)]
            if rng.random() < .12:          # output of the wrong size
                if rng.random() < .5 or not out: out.append([0] * (m * d))
                else: out = [row[:-1] for row in out]
            r.append({"op": "batch", "kind": kind, "via": via, "alpha": rng.choice([1, 1, -1, 2, 3, 0]), "as": As, "bs": bs, "out": out})
        else: r.append({"op": "sym", "kind": kind, "via": via})
    w = rng.random()
    if w < .4: r.append({"op": "grad", "G": rmat(rng, d, 3)})
    if w < .6 and J <= 1200: r.append({"op": "logdet"})
    if w > .6: r.append({"op": "logsmall", "H": rmat(rng, d, 3), "exp": rng.choice([28, 36, 44, 51, 56, 70, 110])})
    if w > .8: r.append({"op": "gravity", "g": rvec(rng, d, 9), "x": rvec(rng, d, 5), "rho": rng.randint(0, 9)})
    if w < .3: r.append({"op": "lame", "young": rng.randint(1, 200), "pn": rng.choice([0, 1, 2, 3, 4, -3]), "pd": rng.choice([10, 20, 9])})
    if w > .95: r.append({"op": "default"})
    return r


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("materials")
    inv = ["StressRight", "ContractRight", "CofRight", "InverseRight", "Rest", "Frame", "Linearised", "LnAdd", "LnAnchor", "EmitInv"]
    cases = []
    for d, hi in [(1, 4), (2, 2)]:
        gen, _ = ctx.model("MC_Materials", consts={"Dim": d, "Low": 2, "High": hi, "Dens": "{1, 2}", "Emit": "TRUE"}, inv=inv, name="MC_Materials_d%d" % d)
        cases += gen
    gen, _ = ctx.model("MC_Materials", consts={"Dim": 3, "Low": 1, "High": 2, "Dens": "{1, 2}", "Emit": "TRUE"}, inv=inv,
                       name="MC_Materials_d3", simulate=(240 if th else 16, 10))
    cases += gen
    cases.sort(key=str); rng.shuffle(cases)
    cases = cases[:3000 if th else 300]
    for _ in range(6000 if th else 700):
        d = rng.choice([1, 2, 3, 3])
        n = rng.choice([1, 1, 2, 4] if d < 3 else [1, 1, 2])
        w = rng.random()
        if w < .1: M = ident(d, n)
        elif w < .3: M = [[x + (n if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(rmat(rng, d, 1))]
        else: M = rmat(rng, d, 2 if d == 3 else 3)
        if det(M) < 0 and rng.random() < .8: M[0] = [-x for x in M[0]]
        cases.append({"n": n, "M": M, "mu": rng.randint(0, 3), "lam": rng.randint(0, 3)})
    for c in cases: c["ops"] = ops(rng, len(c["M"]), c["n"], c["M"], 6)
    ctx.validate("Trace_Materials", ctx.harness("materials", cases, jobs=8))
    ctx.assumptions += ["the logarithm of the Neo-Hookean material is compared in fixed point (1e-4), everything polynomial is compared exactly",
                        "entries of batched contractions below the diagonal of the output are not judged: the contract leaves them open"]
