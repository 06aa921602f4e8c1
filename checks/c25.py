"""Finite elements: basis, gradients, geometry, inverse maps, lookup; against the exact nodal bases of the specification."""
NODES = {"seg2": 2, "seg2s": 2, "tri3": 3, "tri6": 6, "tri3s": 3, "quad4": 4, "quad9": 9, "tet4": 4, "tet10": 10, "tet20": 20, "hex8": 8, "hex20": 20, "hex27": 27}
BASE = {"tri6": "tri3", "quad9": "quad4", "tet10": "tet4", "tet20": "tet4", "hex20": "hex8", "hex27": "hex8"}
REF = {"seg2": 1, "seg2s": 1, "tri3": 2, "tri6": 2, "tri3s": 2, "quad4": 2, "quad9": 2}
GEO = {"seg2": 1, "seg2s": 2, "tri3s": 3}
CORNERS = {2: [[-1, -1], [1, -1], [1, 1], [-1, 1]], 3: [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]]}
PAR = {
    "tri6": [[0, 1], [1, 2], [2, 0]], "quad9": [[0, 1], [1, 2], [2, 3], [3, 0], [0, 1, 2, 3]],
    "tet10": [[0, 1], [1, 2], [0, 2], [0, 3], [2, 3], [1, 3]],
    "tet20": [[0, 0, 1], [0, 1, 1], [0, 0, 2], [0, 2, 2], [0, 0, 3], [0, 3, 3], [1, 1, 2], [1, 2, 2], [1, 1, 3], [1, 3, 3], [2, 2, 3], [2, 3, 3], [0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]],
    "hex20": [[0, 1], [0, 3], [0, 4], [1, 2], [1, 5], [2, 3], [2, 6], [3, 7], [4, 5], [4, 7], [5, 6], [6, 7]],
}
PAR["hex27"] = PAR["hex20"] + [[0, 1, 2, 3], [0, 1, 5, 4], [0, 3, 7, 4], [1, 2, 6, 5], [2, 3, 7, 6], [4, 5, 6, 7], list(range(8))]


def det(A):
    n = len(A)
    if n == 1: return A[0][0]
    if n == 2: return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return sum((-1) ** j * A[0][j] * det([[r[c] for c in range(3) if c != j] for r in A[1:]]) for j in range(3))


def mean(V, ps): return [sum(V[p][j] for p in ps) // len(ps) for j in range(len(V[0]))]


def shape(rng, ct):
    """corners over 24 (multiples of 24) of an element, and whether its map can be inverted"""
    b = BASE.get(ct, ct)
    D, G, n = REF.get(b, 3), GEO.get(b, REF.get(b, 3)), NODES[b]
    while True:
        kind = rng.choice(["affine", "affine", "gentle", "any", "flat"])
        if kind in ("affine", "gentle"):
            if D == G:
                A = [[rng.randint(-3, 3) for _ in range(D)] for _ in range(D)]
                if det(A) == 0: continue
            else:
                A = [[rng.randint(-3, 3) for _ in range(D)] for _ in range(G)]
                if D == 1 and not any(x[0] for x in A): continue
                if D == 2:
                    c = [[A[i][0] * A[j][1] - A[i][1] * A[j][0]] for i, j in ((0, 1), (0, 2), (1, 2))]
                    if not any(x[0] for x in c): continue
            t = [rng.randint(-5, 5) for _ in range(G)]
            if b in ("quad4", "hex8"): ref = CORNERS[D]
            else: ref = [[-1] * D] + [[1 if i == j else -1 for i in range(D)] for j in range(D)]
            if kind == "gentle":
                if b not in ("quad4", "hex8"): continue
                # mild distortion of a box of side six (in twelfths of its side)
                V = [[24 * 3 * x + 24 * rng.choice([0, 0, 1, -1]) // 2 + 24 * t[i] for i, x in enumerate(r)] for r in ref]
                m = rng.randrange(D)  # turned around an axis
                V = [[-x if i == m else x for i, x in enumerate(v)] for v in V] if rng.random() < .3 else V
            else: V = [[24 * (sum(A[i][j] * r[j] for j in range(D)) + t[i]) for i in range(G)] for r in ref]
            return V, True
        if kind == "any": return [[24 * rng.randint(-6, 6) for _ in range(G)] for _ in range(n)], False
        v = [rng.randint(-2, 2) for _ in range(G)]
        return [[24 * x * rng.randint(-3, 3) for x in v] for _ in range(n)], False


def refnodes(ct):
    b = BASE.get(ct, ct)
    D = REF.get(b, 3)
    ref = CORNERS[D] if b in ("quad4", "hex8") else [[-1] * D] + [[1 if i == j else -1 for i in range(D)] for j in range(D)]
    V = [[12 * x for x in r] for r in ref]
    return V + [mean(V, q) for q in PAR.get(ct, [])]


def case(rng, ct, ks):
    via = rng.choice(["nodes", "nodes", "lower"]) if ct in ("tri6", "quad9", "tet10", "tet20") else "nodes"
    V, inv = shape(rng, ct)
    if ct not in ("seg2", "seg2s", "tri3s") and rng.random() < .06:
        V, inv, via = [[2 * x for x in r] for r in refnodes(ct)], True, "ref"
    elif via == "nodes": V = V + [mean(V, q) for q in PAR.get(ct, [])]
    n = NODES[ct]
    conns = []
    for _ in range(rng.choice([0, 1, 2])):
        nv = rng.choice([n, n + 3, 2 * n])
        s = rng.randint(1, 3)
        idx = [rng.randrange(nv) for _ in range(n)]
        if rng.random() < .15: idx[rng.randrange(n)] = nv + rng.choice([0, 0, 5])
        conns.append({"idx": idx, "all": [[rng.randint(-240, 240) for _ in range(len(V[0]))] for _ in range(nv)], "s": s,
                      "u": [rng.randint(-99, 99) for _ in range(s * nv - (rng.choice([1, s]) if rng.random() < .1 else 0))]})
    surf = ct in ("seg2s", "tri3s")
    D = len(ks[0]) if ks else 1
    how = "no" if not inv else rng.choice(["map", "project"]) if not surf else "project"
    if how != "no": ks = [k for k in ks if max(map(abs, k)) <= 12]
    normal_ok = inv
    if surf and not normal_ok:  # no normal in a degenerate element
        V, inv = shape(rng, ct)
        while not inv: V, inv = shape(rng, ct)
    return {"ct": ct, "V": V, "via": via, "ks": ks, "inv": how, "perp": rng.choice([0, 3, -2]) if surf else 0, "conns": conns}


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("elements")
    inv = ["NodesRight", "Delta", "Unity", "Complete", "GradsExact", "GradsZero", "MapNodes", "Isoparametric", "JacAffine"]
    gen, _ = ctx.model("MC_Elements", consts={"Q": 3, "R": 4, "Thick": "TRUE" if th else "FALSE", "Emit": "TRUE"}, inv=inv + ["EmitInv"])
    pts = {}
    for g in gen: pts.setdefault(g["ct"], []).append([4 * x for x in g["k"]])
    cases = []
    for ct in sorted(NODES):
        D = REF.get(BASE.get(ct, ct), 3)
        pool = sorted(pts[ct]) + refnodes(ct)
        if not th and len(pool) > 100: pool = refnodes(ct) + rng.sample(sorted(pts[ct]), 40)
        pool += [[rng.randint(-14, 14) for _ in range(D)] for _ in range(400 if th else 20)]
        pool += [[rng.randint(-12, 12) for _ in range(D)] for _ in range(400 if th else 20)]
        rng.shuffle(pool)
        per = 6
        cases += [case(rng, ct, pool[i:i + per]) for i in range(0, len(pool), per)]
        cases += [case(rng, ct, [[rng.randint(-12, 12) for _ in range(D)]]) for _ in range(300 if th else 25)]
    for c in cases:
        if c["via"] != "ref" and rng.random() < .3: c["scale"] = rng.choice([-30, -16, -8, 8, 20])
    rng.shuffle(cases)
    ctx.validate("Trace_Elements", ctx.harness("elements", cases, jobs=4), consts={"Q": 12})
    ctx.assumptions += ["basis values and gradients are compared at points k/12 with integers |k| <= 14, more points per coordinate than the degrees of the polynomials",
                        "inverse maps are asked for points of elements that are images of the reference element under an affine map, or mildly distorted boxes"]
