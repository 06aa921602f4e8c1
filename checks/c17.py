from fractions import Fraction as F

def exact_solve(A, b, x, U=64, maxn=8):
    """does the recurrence stay on the grid of multiples of 1/U until it ends?"""
    dot = lambda u, v: sum(p * q for p, q in zip(u, v))
    mul = lambda v: [dot(r, v) for r in A]
    ok = lambda v: all((U * t).denominator == 1 and abs(t) < 200 for t in v)
    x = [F(t) for t in x]
    r = [F(p) - q for p, q in zip(b, mul(x))]
    p, z = r[:], dot(r, r)
    for k in range(maxn):
        if not (ok(x) and ok(r) and ok(p)): return None
        if not any(r): return k
        Ap = mul(p); pAp = dot(p, Ap)
        if pAp <= 0: return k
        al = z / pAp
        x = [s + al * t for s, t in zip(x, p)]
        r = [s - al * t for s, t in zip(r, Ap)]
        zn = dot(r, r)
        p = [s + zn / z * t for s, t in zip(r, p)]
        z = zn
    return None

def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("cg")
    inv = ["Accepted", "NeverStuck", "SuccessConverged", "OneApplyPerIter", "Limit", "LimitExact", "AtOnce", "Unique"]
    ctx.model("MC_CG", consts={"Dim": 2, "K": 1, "U": 16, "MaxIters": 2 if th else 1, "Emit": "FALSE"}, inv=inv)
    d1, _ = ctx.model("MC_CG", consts={"Dim": 1, "K": 1, "U": 64, "MaxIters": 2, "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Gen_CG1")
    d2, _ = ctx.model("MC_CG", consts={"Dim": 2, "K": 2, "U": 64, "MaxIters": 4, "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Sim_CG2",
                      simulate=(60000 if th else 20000, 24))
    rng.shuffle(d1); rng.shuffle(d2)
    d2.sort(key=lambda s: -len(s["A"]))
    n = 4000 if th else 700
    scripts = d1[:n] + d2[:2 * n] + rng.sample(d2, min(n, len(d2)))
    rng.shuffle(scripts)
    for s in scripts: s["fresh"] = int(rng.random() < .2)
    # real operators (dense and CSR) with the library's criterion, on systems whose solution stays on the grid
    real, tries = [], 0
    while len(real) < (1500 if th else 250) and tries < 400000:
        tries += 1
        n = rng.choice([1, 2, 2, 3, 3, 4])
        A = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n): A[i][j] = A[j][i] = rng.randint(-1, 3) if i != j else rng.randint(-1, 5)
        if rng.random() < .4:
            for i in range(n):
                for j in range(n):
                    if i != j: A[i][j] = 0
                A[i][i] = rng.choice([1, 2, 4, 1])
        b = [rng.randint(-4, 4) for _ in range(n)]
        x = [rng.randint(-2, 2) if rng.random() < .5 else 0 for _ in range(n)]
        k = exact_solve(A, b, x)
        if k is None or (k == 0 and rng.random() < .9) or (k == 1 and rng.random() < .6): continue
        real.append({"kind": rng.choice(["dense", "csr"]), "A": A, "b": [64 * t for t in b], "x": [64 * t for t in x],
                     "max": rng.choice([-1, -1, 0, 1, 2, 3]), "tol2": rng.choice([[0, 1], [0, 1], [1, 4], [1, 16], [1, 1], [1, 256]]), "fresh": int(rng.random() < .2)})
    allsolves = scripts + real
    rng.shuffle(allsolves)
    cases, i = [], 0
    while i < len(allsolves):       # several solves of different sizes with one workspace
        k = rng.randint(1, 6)
        cases.append({"solves": allsolves[i:i + k]})
        i += k
    sessions = ctx.harness("cg", cases)
    ctx.validate("Trace_CG", sessions)
    ctx.assumptions += ["vectors are multiples of 1/64 for which every floating point operation of the recurrence is exact"]
