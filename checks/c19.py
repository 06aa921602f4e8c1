"""Spatial queries: element soups of the specification, random integer meshes (exact), random float meshes (index against exhaustive search)."""
import math
NV = {"tri3": 3, "tri3s": 3, "tet4": 4}


def grid2(rng, n, m, jitter, hole=0.0):
    """triangulated grid: integer points spaced by two, jittered by at most one"""
    V = [[2 * i + rng.randint(-jitter, jitter), 2 * j + rng.randint(-jitter, jitter)] for j in range(m + 1) for i in range(n + 1)]
    C = []
    for j in range(m):
        for i in range(n):
            a = j * (n + 1) + i; b, c, d = a + 1, a + n + 2, a + n + 1
            for t in ([[a, b, c], [a, c, d]] if rng.random() < .5 else [[a, b, d], [b, c, d]]):
                if rng.random() >= hole: C.append(t)
    return V, C


def soup(rng, ct, n, hi):
    D = 2 if ct == "tri3" else 3
    nv = max(NV[ct], rng.randint(2, 3 * n + 3))
    V = [[rng.randint(0, hi) for _ in range(D)] for _ in range(nv)]
    return V, [rng.sample(range(nv), NV[ct]) if nv >= NV[ct] else [0] * NV[ct] for _ in range(n)]


def cube_tets(rng, n):
    V = [[i, j, k] for k in range(n + 1) for j in range(n + 1) for i in range(n + 1)]
    idx = lambda i, j, k: (k * (n + 1) + j) * (n + 1) + i
    C = []
    for k in range(n):
        for j in range(n):
            for i in range(n):
                h = [idx(i, j, k), idx(i + 1, j, k), idx(i + 1, j + 1, k), idx(i, j + 1, k), idx(i, j, k + 1), idx(i + 1, j, k + 1), idx(i + 1, j + 1, k + 1), idx(i, j + 1, k + 1)]
                C += [[h[a] for a in t] for t in ([0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6], [0, 5, 1, 6])]
    return V, [c for c in C if rng.random() < .9]


def queries(rng, V, D, n, lo, hi):
    q = [[rng.randint(lo, hi) for _ in range(D)] for _ in range(n)]
    if V: q += [list(rng.choice(V)) for _ in range(2)]
    return q


def fmesh(rng, ct, n):
    """floating point: soups and meshes of many sizes, well away from the integers"""
    D = 2 if ct == "tri3" else 3
    s = 10.0 ** rng.choice([-6, -3, 0, 0, 3, 6])
    off = [rng.uniform(-3, 3) * rng.choice([0, 1, 100]) * s for _ in range(D)]
    if ct == "tri3" and rng.random() < .5:
        V, C = grid2(rng, n, n, 0, rng.choice([0, .2]))
        V = [[(x / 2 + .3 * rng.uniform(-1, 1)) * s + o for x, o in zip(p, off)] for p in V]
    elif ct == "tri3s" and rng.random() < .5:
        V, C = grid2(rng, n, n, 0, rng.choice([0, .2]))
        V = [[p[0] * s + off[0], p[1] * s + off[1], math.sin(p[0]) * rng.choice([0, 1]) * s + off[2]] for p in V]
    elif ct == "tet4" and rng.random() < .5:
        V, C = cube_tets(rng, min(n, 4))
        V = [[(x + .1 * rng.uniform(-1, 1)) * s + o for x, o in zip(p, off)] for p in V]
    else:
        k = n * n
        V = [[rng.uniform(0, n) * s + o for o in off] for _ in range(2 * k + 4)]
        C = [rng.sample(range(len(V)), NV[ct]) for _ in range(k)]
        if rng.random() < .5:
            # small elements scattered
            V, C = [], []
            for _ in range(k):
                c = [rng.uniform(0, n) * s + o for o in off]; r = rng.choice([.01, .3, 2.0]) * s
                C.append(list(range(len(V), len(V) + NV[ct])))
                V += [[x + rng.uniform(-1, 1) * r for x in c] for _ in range(NV[ct])]
    ext = [(min(v[i] for v in V), max(v[i] for v in V)) for i in range(D)]
    q = []
    for _ in range(12):
        w = rng.choice([0, .1, 1, 10])
        q.append([rng.uniform(a - w * (b - a + s), b + w * (b - a + s)) for a, b in ext])
    for _ in range(4):
        c = rng.choice(C) if C else [0]
        l = [rng.random() for _ in c]; t = sum(l)
        q.append([sum(li / t * V[i][j] for li, i in zip(l, c)) for j in range(D)])
    q.append(list(rng.choice(V)))
    return {"ct": ct, "V": V, "C": C, "qs": q, "float": 1}


def hull_dist(p, T, n=120):
    """distance of p from the convex hull of T (Frank-Wolfe with exact line search; an upper bound)"""
    x = list(T[0])
    for _ in range(n):
        g = [a - b for a, b in zip(x, p)]
        s = min(T, key=lambda v: sum(a * b for a, b in zip(g, v)))
        d = [a - b for a, b in zip(s, x)]
        dd = sum(a * a for a in d)
        if dd == 0: break
        t = max(0.0, min(1.0, -sum(a * b for a, b in zip(g, d)) / dd))
        x = [a + t * b for a, b in zip(x, d)]
    return math.dist(x, p)


def box_range(p, T):
    lo = [min(v[i] for v in T) for i in range(len(p))]; hi = [max(v[i] for v in T) for i in range(len(p))]
    return math.dist(p, [min(max(x, a), b) for x, a, b in zip(p, lo, hi)]), math.dist(p, [max((a, b), key=lambda y: abs(y - x)) for x, a, b in zip(p, lo, hi)])


def tight(rng, ct):
    """the box of one element is closest, yet it keeps far away from the point inside of its box; another element is just closer"""
    D = 2 if ct == "tri3" else 3
    small = lambda c, r: [[x + rng.uniform(-1, 1) * r for x in c] for _ in range(NV[ct])]
    p = [rng.uniform(-1, 1) for _ in range(D)]
    best = None
    for _ in range(30):
        sg = [rng.choice([-1, 1]) for _ in range(D)]
        e = rng.choice([0, .3, .7, 1, 2, 4])
        if rng.random() < .5:      # a corner of the box is cut off, the point is on that side
            T = [[1] * D] + [[float(j != i) if D == 3 else float(j == i) for j in range(D)] for i in range(D)]
            T = T[:NV[ct]] if ct != "tri3s" else T[1:]
            T = [[e + x * rng.uniform(.9, 1.1) for x in v] for v in T]
        else: T = [[e * rng.random() + 2 * rng.random() for _ in range(D)] for _ in range(NV[ct])]
        T = [[a + s * b for a, s, b in zip(p, sg, v)] for v in T]
        lo, hi = box_range(p, T)
        d = hull_dist(p, T)
        if lo < .93 * d and (best is None or d / hi > best[0]): best = (d / hi, T, d, lo)
    A = best[1] if best else small(p, 1.0)
    d, lo = (best[2], best[3]) if best else (1.0, 0.0)
    els = [A]
    for q in rng.sample([.999, .99, .97, 1.01], 2) if rng.random() < .7 else [rng.uniform(lo / d, 1)]:
        w = [rng.gauss(0, 1) for _ in range(D)]; n = math.hypot(*w)
        els.append(small([a + b / n * d * q for a, b in zip(p, w)], d * .002))
    rng.shuffle(els)
    return els, p


def ties(rng, ct):
    """a small element and a large one with a side towards the point, at almost the same distance"""
    D = 2 if ct == "tri3" else 3
    L, d, k, q = rng.choice([3.0, 30.0]), 1.0, rng.randrange(D), rng.choice([.999, .9995, 1.001, .99])
    big = [[L * (rng.uniform(.5, 2) * rng.choice([-1, 1])) for _ in range(D)] for _ in range(NV[ct])]
    for v in big[:-1]: v[k] = q * d
    big[-1][k] = q * d + L
    if D == 2: big[0][1 - k], big[1][1 - k] = -L, L
    else:
        i, j = [a for a in range(3) if a != k]
        for v, (a, b) in zip(big, [(-L, -L), (L, -L), (0, L)]): v[i], v[j] = a, b
    c = [0.0] * D; c[k] = -1.01 * d
    t = [[x + rng.uniform(-1, 1) * .009 for x in c] for _ in range(NV[ct])]
    els = [big, t]; rng.shuffle(els)
    return els, [0.0] * D


def adversarial(rng):
    ct = rng.choice(["tri3", "tri3s", "tet4", "tet4"])
    els, p = (tight if rng.random() < .7 else ties)(rng, ct)
    s, off = 10.0 ** rng.choice([-3, 0, 0, 3]), rng.choice([0, 0, 5.0])
    V = [[s * (x + off) for x in v] for e in els for v in e]
    return {"ct": ct, "V": V, "C": [list(range(NV[ct] * i, NV[ct] * (i + 1))) for i in range(len(els))], "qs": [[s * (x + off) for x in p]], "float": 1}


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("spatial")
    inv = ["SearchRight", "ClosestIsClosest"]
    gen = []
    conf = [("tri3", 2, 0, 1, 1, False), ("tri3", 1, 2, 2, 1, True), ("tri3s", 1, 1, 1, 1, True), ("tet4", 1, 1, 1, 0, True)]
    if th: conf = [("tri3", 3, 0, 1, 1, False), ("tri3", 1, 2, 3, 1, True), ("tri3", 2, 2, 2, 1, True), ("tri3s", 1, 0, 2, 0, True), ("tri3s", 2, 1, 1, 1, True), ("tet4", 1, 0, 1, 1, True)]
    for n, (ct, N, a, b, q, sym) in enumerate(conf):
        g, _ = ctx.model("MC_Spatial", consts={"Ct": '"%s"' % ct, "N": N, "MinCells": a, "MaxCells": b, "Q": q, "Sym": str(sym).upper(), "Emit": "FALSE" if th and n in (2, 4) else "TRUE"},
                         inv=inv + ["EmitInv"], name="MC_Spatial%d" % n)
        gen += g
    by = {}
    for g in gen: by.setdefault(str((g["ct"], g["V"], g["C"])), (g, []))[1].append(g["p"])
    by = sorted(by.items()); rng.shuffle(by)
    cases = [{"ct": g["ct"], "V": g["V"], "C": g["C"], "qs": qs if th or len(qs) < 12 else rng.sample(qs, 12), "float": 0} for _, (g, qs) in by[:20000 if th else 1500]]
    for n in range(6000 if th else 500):
        ct = rng.choice(["tri3", "tri3", "tri3s", "tet4"])
        D = 2 if ct == "tri3" else 3
        r = rng.random()
        if ct == "tri3" and r < .5:
            V, C = grid2(rng, rng.randint(1, 5), rng.randint(1, 5), rng.randint(0, 1), rng.choice([0, 0, .3])); lo, hi = -4, 14
        elif ct == "tri3":
            V, C = soup(rng, ct, rng.randint(0, 12), 12); lo, hi = -5, 17
        elif ct == "tet4" and r < .5:
            V, C = cube_tets(rng, rng.randint(1, 2)); lo, hi = -2, 4
        else:
            V, C = soup(rng, ct, rng.randint(0, 8), 4); lo, hi = -2, 6
        cases.append({"ct": ct, "V": V, "C": C, "qs": queries(rng, V, D, 8, lo, hi), "float": 0, "scale": rng.choice([0, 0, 0, -40, -20, -10, 12])})
    for n in range(6000 if th else 400):
        ct = rng.choice(["tri3", "tri3s", "tet4"])
        cases.append(fmesh(rng, ct, rng.randint(1, (20 if th else 10) if n % 25 == 0 else 4)))
    cases += [adversarial(rng) for _ in range(6000 if th else 900)]
    rng.shuffle(cases)
    ctx.validate("Trace_Spatial", ctx.harness("spatial", cases, jobs=8))
    ctx.assumptions += ["integer coordinates up to 14 in the plane and 6 in space are decided exactly; other coordinates are compared with the exhaustive search over the elements of the same mesh",
                        "reference coordinates are compared on a grid of 1/10000"]
