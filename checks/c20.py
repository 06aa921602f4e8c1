"""Interpolation: spaces scripted by the specification (exact arithmetic), compressed data, linear functions on meshes of simplices."""
from checks.c19 import grid2, cube_tets, soup, queries


def jac(rng, D):
    """integer matrix with a power of two as determinant"""
    A = [[0] * D for _ in range(D)]
    for i in range(D):
        A[i][i] = rng.choice([1, 1, 2, -1, -2]) if D < 3 or i < 2 else rng.choice([1, -1])
        for j in range(i): A[i][j] = rng.choice([0, 1, -1, 2])
    return [list(r) for r in zip(*A)] if rng.random() < .5 else A


def space(rng, D, ne, nn, npts, none):
    nodes = [[rng.randrange(nn) for _ in range(rng.choice([1, 2, 3, 4, 8]))] for _ in range(ne)]
    if rng.random() < .7: nodes = [sorted(set(x)) if rng.random() < .5 else list(dict.fromkeys(x)) for x in nodes]
    at = []
    for _ in range(npts):
        if ne == 0 or rng.random() < none: at.append({"e": -1, "b": [], "g": [], "J": []}); continue
        e = rng.randrange(ne)
        at.append({"e": e, "b": [rng.randint(-3, 3) for _ in nodes[e]], "g": [[rng.randint(-3, 3) for _ in range(D)] for _ in nodes[e]], "J": jac(rng, D)})
    return nodes, at


def fits(nodes, at, pts, s):
    m = max([n for i in pts if at[i - 1]["e"] >= 0 for n in nodes[at[i - 1]["e"]]], default=-1)
    return s * (m + 1)


def ops(rng, nodes, at, nn, pts, s0, k):
    out = []
    npts = len(at)
    for _ in range(k):
        if not out or rng.random() < .25:
            what = rng.choice([0, 0, 1, 2])
            p = pts if pts is not None else [rng.randint(1, npts) for _ in range(rng.choice([0, 1, npts, 2 * npts]))] if npts else []
            out.append({"op": "build", "pts": p, "what": what, "par": rng.randrange(2)})
            cur = p
        s = s0 or rng.randint(1, 3)
        for op in rng.sample(["values", "grads", "direct", "directgrads"], 2):
            q = cur
            o = {"op": op, "s": s, "into": -1}
            if op.startswith("direct"):
                q = o["pts"] = cur if rng.random() < .5 or not npts else [rng.randint(1, npts) for _ in range(rng.randint(0, 4))]
            n = s * nn
            if not op.startswith("direct"):
                need = fits(nodes, at, cur, s)
                r = rng.random()
                if r < .1: n = need
                elif r < .2: n = max(0, need - rng.choice([1, s]))
            o["u"] = [rng.randint(-9, 9) for _ in range(n)]
            if rng.random() < .25: o["into"] = max(0, len(q) + rng.choice([0, 0, 0, 1, -1]))
            out.append(o)
    return out


def raw(rng):
    n, nn, s = rng.randint(0, 8), rng.randint(1, 5), rng.randint(1, 3)
    idx = [rng.randrange(nn) for _ in range(n)]
    off = sorted(rng.randint(0, n) for _ in range(rng.randint(1, 6)))
    val = [rng.randint(-3, 3) for _ in range(n)]
    grad = rng.choice([[-1], [1] * (2 * n), [1] * (3 * n)])
    r = rng.random()
    if r < .1: off[-1] = n + 1
    elif r < .2: val = val + [1] if rng.random() < .5 or not n else val[:-1]
    elif r < .3: grad = [1] * (2 * n + 1)
    if val == [-1]: val = [2]
    if len(grad) == 1 and grad != [-1] and n != 1: pass
    return {"kind": "raw", "off": off, "idx": idx, "val": val, "grad": grad, "s": s, "u": [rng.randint(-9, 9) for _ in range(s * nn)]}


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("interp")
    inv = ["RowsRight", "SameAsBuild", "OffsetsFit", "Zeros", "Linear"]
    gen, _ = ctx.model("MC_Interp", consts={"NN": 3, "NP": 3 if th else 2, "MaxUses": 2, "Emit": "TRUE"}, inv=inv + ["EmitInv"])
    seen = {}
    for g in gen: seen.setdefault(str(g), g)
    gen = [seen[k] for k in sorted(seen)]; rng.shuffle(gen)
    cases = []
    for g in gen[:8000 if th else 1200]:
        sp = g["sp"]
        cases.append({"kind": "script", "D": 2, "nn": 3, "nodes": sp["nodes"], "at": sp["at"], "ops": ops(rng, sp["nodes"], sp["at"], 3, g["pts"], g["s"], 2)})
    for n in range(6000 if th else 700):
        D = rng.choice([1, 2, 2, 3, 3])
        big = n % 50 == 0
        nn = rng.choice([1, 3, 6, 12]) if not big else 60
        ne = rng.choice([0, 1, 2, 5]) if not big else 30
        nodes, at = space(rng, D, ne, nn, rng.choice([0, 1, 3, 7]) if not big else 150, rng.choice([0, .2, .6]))
        cases.append({"kind": "script", "D": D, "nn": nn, "nodes": nodes, "at": at, "ops": ops(rng, nodes, at, nn, None, 0, rng.randint(1, 4))})
    cases += [raw(rng) for _ in range(3000 if th else 400)]
    for n in range(1500 if th else 150):
        ct = rng.choice(["tri3", "tet4"])
        D = 2 if ct == "tri3" else 3
        if ct == "tri3": V, C = grid2(rng, rng.randint(1, 4), rng.randint(1, 4), 0, rng.choice([0, .3])); lo, hi = -4, 12
        else: V, C = cube_tets(rng, rng.randint(1, 2)); lo, hi = -2, 4
        if n % 20 == 0: C = []
        cases.append({"kind": "p1", "ct": ct, "V": V, "C": C, "pts": queries(rng, V, D, rng.choice([3, 10]), lo, hi), "f": [rng.randint(-9, 9) for _ in range(D + 1)], "scale": rng.choice([0, 0, -40, -20, 10])})
    rng.shuffle(cases)
    ctx.validate("Trace_Interp", ctx.harness("interp", cases, jobs=4))
    ctx.assumptions += ["weights, basis values and gradients of scripted spaces are integers and Jacobians have determinants that are powers of two, so that the arithmetic of the real code is exact"]
