"""Generators of polyhedral meshes and histories for C22 (and restriction for C10)."""
from checks import meshgen as g

def span(m): return max((max(v[k] for v in m["V"]) - min(v[k] for v in m["V"]) for k in range(len(m["V"][0]))), default=0) if m["V"] else 0

def linear(rng, ct, maxcells=8, unit=60):
    """mesh of linear convex cells with small integer coordinates"""
    d = g.DIM[ct]
    while True:
        n = [rng.randint(1, 3) for _ in range(d)]
        k = {"tri3": 2, "quad4": 1, "tet4": 6, "hex8": 1}[ct]
        for x in n: k *= x
        if k > max(maxcells, 6): continue
        m = g.grid(rng, ct, n, [unit * rng.randint(1, 2) for _ in range(d)])
        if rng.random() < .5: m = g.affine(rng, m, big=False)
        if span(m) <= 420: break
    m = g.shuffle(rng, m, rotate=rng.random() < .8)
    if rng.random() < .4: m = g.delete(rng, m, rng.choice([.2, .5]))
    return m

def raw3(rng, unit=60):
    """convex cells given by faces: prism, pyramid, tetrahedron, box, sharing nothing or everything"""
    u = unit
    k = rng.randrange(4)
    if k == 0: V, F = [[0,0,0],[2*u,0,0],[0,2*u,0],[0,0,u],[2*u,0,u],[0,2*u,u]], [[0,2,1],[3,4,5],[0,1,4,3],[1,2,5,4],[2,0,3,5]]
    elif k == 1: V, F = [[0,0,0],[2*u,0,0],[2*u,2*u,0],[0,2*u,0],[u,u,2*u]], [[0,3,2,1],[0,1,4],[1,2,4],[2,3,4],[3,0,4]]
    elif k == 2: V, F = [[0,0,0],[u,0,0],[0,3*u,0],[0,0,2*u]], [[0,2,1],[0,1,3],[1,2,3],[2,0,3]]
    else: V, F = [[0,0,0],[u,0,0],[u,2*u,0],[0,2*u,0],[0,0,3*u],[u,0,3*u],[u,2*u,3*u],[0,2*u,3*u]], [[3,2,1,0],[0,1,5,4],[1,2,6,5],[2,3,7,6],[4,7,3,0],[5,6,7,4]]
    p = list(range(len(V))); rng.shuffle(p)
    W = [None] * len(V)
    for i, q in enumerate(p): W[q] = V[i]
    F = [[p[i] for i in f] for f in F]
    F = [f[k:] + f[:k] for f in F for k in [rng.randrange(len(f))]]
    o = list(range(len(F))); rng.shuffle(o)
    F2 = [F[i] for i in o]
    C = [list(range(len(F)))]
    if rng.random() < .3: rng.shuffle(C[0])
    if rng.random() < .2: C.insert(rng.randint(0, 1), [])
    return {"d": 3, "V": W, "F": F2, "C": C}

def junk(rng, d, bad=.3):
    """arbitrary index data, sometimes out of range"""
    nv, nf, nc = rng.randint(0, 6), rng.randint(0, 6), rng.randint(0, 4)
    V = [[2 * rng.randint(-9, 9) for _ in range(d)] for _ in range(nv)]
    F = [rng.sample(range(nv), rng.randint(0, nv)) for _ in range(nf)]
    C = [[rng.randrange(nf) for _ in range(rng.randint(0, 4))] if nf else [] for _ in range(nc)]
    if rng.random() < bad:
        t = rng.choice([(F, nv), (C, nf)])
        if t[0]: t[0][rng.randrange(len(t[0]))].append(t[1] + rng.choice([0, 0, 1, 5]))
    return {"d": d, "V": V, "F": F, "C": C}

def points(m): return m["V"] if m["V"] else [[0, 0, 0]]

def plane(rng, m):
    r = rng.random()
    if r < .5:
        n = [0, 0, 0]; n[rng.randrange(3)] = rng.choice([-1, 1])
    else:
        while True:
            n = [rng.randint(-2, 2) for _ in range(3)] if r < .9 else [rng.randint(-5, 5) for _ in range(3)]
            if any(n): break
    a, b = rng.choice(points(m)), rng.choice(points(m))
    s = rng.random()
    if s < .35: p = list(a)                                              # through a vertex
    elif s < .75: p = [(x + y) // 2 for x, y in zip(a, b)]               # through the middle of two vertices
    elif s < .9: p = [x + (y - x) // 3 for x, y in zip(a, b)]
    else: p = [x + rng.choice([-500, 500]) * k for x, k in zip(a, n)]    # far away
    return n, p

def body(rng, m):
    lo = [min(v[k] for v in points(m)) for k in range(3)]
    hi = [max(v[k] for v in points(m)) for k in range(3)]
    if rng.random() < .5:
        o = [rng.choice([lo[k], (lo[k] + hi[k]) // 2, lo[k] - 30, lo[k] + 20]) for k in range(3)]
        s = [rng.choice([20, 30, 60, 90, 500]) for _ in range(3)]
        return "hex8", [[o[k] + q[k] * s[k] for k in range(3)] for q in g.HEXPOS]
    o = [rng.choice([lo[k], (lo[k] + hi[k]) // 2, lo[k] - 60]) for k in range(3)]
    s = rng.choice([30, 60, 120, 240])
    V = [[0, 0, 0], [s, 0, 0], [0, s, 0], [0, 0, s]]
    if rng.random() < .4: V = [[s, 0, 0], [0, s, 0], [0, 0, s], [s, s, s]]
    e = [[V[i][k] - V[0][k] for k in range(3)] for i in (1, 2, 3)]
    det = sum(e[0][i] * (e[1][(i+1)%3] * e[2][(i+2)%3] - e[1][(i+2)%3] * e[2][(i+1)%3]) for i in range(3))
    if det < 0: V[1], V[2] = V[2], V[1]
    return "tet4", [[o[k] + v[k] for k in range(3)] for v in V]

def ops3(rng, m, n, kinds):
    ops = []
    for _ in range(n):
        k = rng.choice(kinds)
        st = int(rng.random() < .6)
        if k == "clip": ops.append(["clip", *plane(rng, m), st])
        elif k == "poly": ops.append(["poly", *body(rng, m)])
        elif k == "keep": ops.append(["keep", [rng.randrange(12) for _ in range(rng.randint(0, 4))], st])
        elif k == "concat":
            of = [{"F": "self"} for _ in range(rng.randint(0, 2))]
            if rng.random() < .5: of.insert(rng.randint(0, len(of)), {x: y for x, y in raw3(rng).items() if x != "d"})
            ops.append(["concat", of, int(st and len(of) > 0)])
        elif k == "dedup": ops.append(["dedup", st])
        elif k == "split": ops.append(["split", rng.randint(0, 2)])
        elif k == "tri": ops += [["tri", st]] + ([["tet"]] if rng.random() < .7 else [])
        elif k == "tet": ops.append(["tet"])
        elif k == "translate": ops.append(["translate", [10 * rng.randint(-3, 3) for _ in range(3)], st])
        if rng.random() < .5: ops.append([rng.choice(["bnd", "fcc", "vol", "vol"])])
    ops += [["vol"], ["bnd"], ["fcc"]]
    return ops
