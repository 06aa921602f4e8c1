"""Geometric primitives: convex polygons and sequences of cuts from the specification, random integer input for every query."""
BF = {"tet": [[0, 1, 2], [0, 3, 1], [1, 3, 2], [0, 2, 3]],
      "hex": [[0, 1, 2, 3], [4, 5, 1, 0], [5, 6, 2, 1], [6, 7, 3, 2], [0, 3, 7, 4], [4, 7, 6, 5]]}


def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(a, b): return [x + y for x, y in zip(a, b)]
def tri2(a, b, c): return cross(sub(b, a), sub(c, a))
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross3(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def area2(V): return sum(cross(V[i], V[(i + 1) % len(V)]) for i in range(len(V)))


def P(rng, D, lo, hi): return [rng.randint(lo, hi) for _ in range(D)]
def PS(rng, n, D, lo, hi): return [P(rng, D, lo, hi) for _ in range(n)]


def normal(rng, D, m=2):
    if rng.random() < .4:
        n = [0] * D; n[rng.randrange(D)] = rng.choice([-1, 1, 2]); return n
    while True:
        n = P(rng, D, -m, m)
        if any(n): return n


def convex(rng, lo, hi, n):
    """strictly convex, counter-clockwise (hull of random points)"""
    while True:
        pts = sorted(set(map(tuple, PS(rng, n, 2, lo, hi))))
        if len(pts) < 3: continue
        def half(ps):
            h = []
            for p in ps:
                while len(h) > 1 and tri2(h[-2], h[-1], p) <= 0: h.pop()
                h.append(p)
            return h[:-1]
        h = [list(p) for p in half(pts) + half(pts[::-1])]
        if len(h) >= 3:
            k = rng.randrange(len(h)); return h[k:] + h[:k]


def onseg(p, a, b): return tri2(a, b, p) == 0 and dot(sub(p, a), sub(p, b)) <= 0
def sgn(x): return (x > 0) - (x < 0)
def meet(a, b, c, d):
    return onseg(a, c, d) or onseg(b, c, d) or onseg(c, a, b) or onseg(d, a, b) or \
        (sgn(tri2(a, b, c)) * sgn(tri2(a, b, d)) < 0 and sgn(tri2(c, d, a)) * sgn(tri2(c, d, b)) < 0)


def is_simple(V):
    n = len(V)
    for i in range(n):
        a, b = V[i], V[(i + 1) % n]
        if a == b: return False
        for j in range(n):
            c, d = V[j], V[(j + 1) % n]
            if j == i: continue
            if j == (i + 1) % n:
                if onseg(d, a, b) or onseg(a, c, d): return False
            elif i == (j + 1) % n:
                if onseg(c, a, b) or onseg(b, c, d): return False
            elif meet(a, b, c, d): return False
    return True


def simple(rng, n, lo, hi):
    """a random simple polygon: random points, crossings undone"""
    while True:
        V = PS(rng, n, 2, lo, hi)
        for _ in range(60):
            bad = None
            for i in range(n):
                for j in range(i + 2, n):
                    if (j + 1) % n != i and meet(V[i], V[i + 1], V[j], V[(j + 1) % n]): bad = (i, j)
            if not bad: break
            i, j = bad
            V[i + 1:j + 1] = V[i + 1:j + 1][::-1]
        if n == 3 and tri2(*V) == 0: continue
        if is_simple(V) and area2(V) != 0: return V


def ccw(V): return V if area2(V) > 0 else V[::-1]


def frame(rng):
    while True:
        u, v = P(rng, 3, -1, 1), P(rng, 3, -1, 1)
        if any(cross3(u, v)): return P(rng, 3, -1, 1), u, v


def lift(f, V): return [[o + a * p[0] + b * p[1] for o, a, b in zip(*f)] for p in V]


def det(a, b, c): return dot(a, cross3(b, c))


def tet(rng):
    while True:
        V = PS(rng, 4, 3, -2, 2)
        d = det(sub(V[1], V[0]), sub(V[2], V[0]), sub(V[3], V[0]))
        if d: return V if d > 0 else [V[1], V[0], V[2], V[3]]


def hexa(rng):
    """parallelepipeds and blocks with one sheared or scaled face"""
    while True:
        a, b, c = PS(rng, 3, 3, -1, 1)
        if rng.random() < .4: a, b, c = [rng.randint(1, 2), 0, 0], [rng.choice([0, 1]), rng.randint(1, 2), 0], [0, rng.choice([0, 1]), rng.randint(1, 2)]
        if det(a, b, c) <= 0: continue
        o = P(rng, 3, -1, 0)
        s = lambda i, j, k: [o[m] + i * a[m] + j * b[m] + k * c[m] for m in range(3)]
        V = [s(0, 0, 0), s(1, 0, 0), s(1, 1, 0), s(0, 1, 0), s(0, 0, 1), s(1, 0, 1), s(1, 1, 1), s(0, 1, 1)]
        if rng.random() < .3:      # frustum: the bottom twice as large
            V = [s(0, 0, 0), s(2, 0, 0), s(2, 2, 0), s(0, 2, 0), s(0, 0, 1), s(1, 0, 1), s(1, 1, 1), s(0, 1, 1)]
        if max(abs(x) for v in V for x in v) <= 3: return V


def ngram(rng, V):
    """quads may be turned, sheared polygons stay planar"""
    k = rng.randrange(len(V)); return V[k:] + V[:k]


def tris(kind, rng):
    out = []
    for f in BF[kind]:
        t = [f[0], f[1], f[2]] if len(f) == 3 else None
        for q in ([t] if t else [[f[0], f[1], f[2]], [f[0], f[2], f[3]]] if rng.random() < .5 else [[f[1], f[2], f[3]], [f[1], f[3], f[0]]]):
            q = q[::-1]; k = rng.randrange(3); out.append(q[k:] + q[:k])
    rng.shuffle(out)
    return out


def inner(rng, V):
    """a point with integer coordinates in the triangle (a corner if there is no other)"""
    for _ in range(30):
        w = [rng.random() for _ in V]; t = sum(w)
        p = [round(sum(a * v[i] for a, v in zip(w, V)) / t) for i in range(len(V[0]))]
        e, f, q = sub(V[1], V[0]), sub(V[2], V[0]), sub(p, V[0])
        n = cross3(e, f)
        if dot(n, q) == 0 and all(dot(n, cross3(sub(b, a), sub(p, a))) > 0 for a, b in ((V[0], V[1]), (V[1], V[2]), (V[2], V[0]))): return p
    return V[0]


def case(rng, kind, big=False):
    dim = rng.choice([2, 3])
    h = 4 if dim == 2 else 3
    if kind == "box":
        n = rng.choice([0, 1, 1, 2, 2, 3, 6])
        walk = []
        scales = 0
        for _ in range(rng.randint(0, 5)):
            d = rng.choice(["enclose", "scale", "grow", "enclose"])
            if d == "scale" and scales == 3: d = "grow"
            if d == "enclose": walk.append({"do": d, "a": PS(rng, rng.randint(1, 2), dim, -h, h)})
            elif d == "scale": walk.append({"do": d, "k": rng.randint(0, 4)}); scales += 1
            else: walk.append({"do": d, "k": rng.randint(0, 3)})
        new = [[P(rng, dim, -h, h), P(rng, dim, -h, h)] for _ in range(2)] + [sorted([P(rng, dim, -3, 0), P(rng, dim, 0, 3)])]
        return {"kind": kind, "dim": dim, "a": PS(rng, n, dim, -h, h), "qs": PS(rng, 6, dim, -h - 2, h + 2), "others": [PS(rng, rng.randint(1, 3), dim, -h, h) for _ in range(4)], "walk": walk, "new": new}
    if kind == "seg":
        a, b = P(rng, dim, -h, h), P(rng, dim, -h, h)
        if rng.random() < .08: b = list(a)
        return {"kind": kind, "dim": dim, "a": a, "b": b, "qs": PS(rng, 8, dim, -h - 1, h + 1) + [list(a)]}
    if kind == "seg2":
        while True:
            a, b = P(rng, 2, -3, 4), P(rng, 2, -3, 4)
            if rng.random() < .25: k = rng.randrange(2); b[k] = a[k]
            if a != b: break
        segs = []
        while len(segs) < 6:
            c, d = P(rng, 2, -3, 4), P(rng, 2, -3, 4)
            r = rng.random()
            if r < .15: c = rng.choice([a, b])
            elif r < .25: k = rng.choice([-1, 0, 1]); c = add(a, [k, 1]); d = add(c, sub(b, a))
            elif r < .3: c, d = add(a, sub(b, a)), add(b, sub(b, a))
            if c != d and max(map(abs, c + d)) <= 8: segs.append([c, d])
        disks = [[P(rng, 2, -3, 4), rng.randint(1, 3)] for _ in range(4)]
        for e in (a, b):      # through an end of the segment, or tangent to an axis-aligned one
            r = rng.randint(1, 3)
            disks.append([add(e, rng.choice([[r, 0], [-r, 0], [0, r], [0, -r]])), r])
        return {"kind": kind, "a": a, "b": b, "segs": segs, "disks": disks, "polys": [convex(rng, -3, 4, rng.choice([3, 4, 5, 6, 7, 25])) for _ in range(3)]}
    if kind == "plane":
        N, x = normal(rng, 3), P(rng, 3, -2, 2)
        segs = [[P(rng, 3, -3, 3), P(rng, 3, -3, 3)] for _ in range(5)]
        for s in segs:
            if rng.random() < .4:       # one end in the plane
                k = rng.randrange(2)
                t = [rng.randint(-1, 1) * y for y in cross3(N, normal(rng, 3, 1))]
                s[k] = add(x, t) if max(map(abs, add(x, t))) <= 4 else list(x)
        return {"kind": kind, "N": N, "x": x, "qs": PS(rng, 5, 3, -3, 3), "segs": segs}
    if kind == "tri2":
        while True:
            V = PS(rng, 3, 2, -4, 4)
            if tri2(*V) or rng.random() < .02: break
        return {"kind": kind, "V": V if rng.random() < .2 else ccw(V), "qs": PS(rng, 8, 2, -5, 5)}
    if kind == "flat3":
        f = frame(rng)
        while True:
            if rng.random() < .5:
                V = PS(rng, 3, 3, -2, 2)
                if not any(cross3(sub(V[1], V[0]), sub(V[2], V[0]))): continue
            else:
                W = convex(rng, -1, 1, 6)
                if len(W) < 4: continue
                if len(W) > 4: W = [W[i] for i in sorted(rng.sample(range(len(W)), 4))]
                V = lift(f, ngram(rng, W))
                if max(abs(x) for v in V for x in v) > 3: continue
            break
        qs = PS(rng, 8, 3, -3, 3)
        c = {"kind": kind, "V": V, "qs": qs}
        if len(V) == 3:
            if rng.random() < .3:   # a corner of a box seen from its centre
                s = [rng.choice([-2, -1, 1, 2]) for _ in range(3)]; o = P(rng, 3, -1, 1)
                V = [add(o, [s[i] if i == j else 0 for j in range(3)]) for i in range(3)]; c["V"] = V; qs.append(o)
            c["mid"] = inner(rng, V)
        return c
    if kind == "body":
        k = rng.choice(["tet", "hex"])
        V = tet(rng) if k == "tet" else hexa(rng)
        return {"kind": kind, "body": k, "V": V, "qs": PS(rng, 8, 3, -3, 3), "tris": tris(k, rng)}
    if kind == "quad2":
        V = ccw(simple(rng, 4, -4, 4))
        con = any(tri2(V[i - 1], V[i], V[(i + 1) % 4]) < 0 for i in range(4))
        return {"kind": kind, "V": V, "qs": PS(rng, 6, 2, -5, 5), "note": "concave" if con else "convex", "corner": int(not con)}
    if kind == "spoly":
        n = rng.choice([0, 3, 4, 4, 5, 6, 8] + ([12] if big else []))
        V = simple(rng, n, -4, 4) if n else []
        if V and rng.random() < .8: V = ccw(V)
        segs = []
        while len(segs) < 8:
            a, b = P(rng, 2, -5, 5), P(rng, 2, -5, 5)
            if rng.random() < .4: a[rng.randrange(2)] = rng.choice([-5, 5]); b[rng.randrange(2)] = rng.choice([-5, 5])
            if a != b: segs.append([a, b])
        return {"kind": kind, "V": V, "qs": PS(rng, 8, 2, -5, 5), "segs": segs}
    if kind == "cpoly":
        r = rng.random()
        V = convex(rng, -3, 4, rng.choice([3, 4, 5, 6, 7, 8, 9, 25]))
        small = r < .08
        if small: V = V[:rng.choice([0, 1, 2])]
        cuts = [[normal(rng, 2), P(rng, 2, -2, 3)] for _ in range(rng.randint(1, 4))]
        return {"kind": kind, "V": V, "qs": PS(rng, 8, 2, -4, 5) + (V if len(V) == 1 else []) if len(V) not in (0, 2) else [], "mid": P(rng, 2, -3, 4),
                "others": [] if small else [convex(rng, -3, 4, rng.randint(3, 9)) for _ in range(3)], "cuts": cuts if len(V) > 2 else []}
    if kind == "cutseg":
        while True:
            V = PS(rng, 2, 2, -4, 4)
            if V[0] != V[1]: break
        return {"kind": kind, "V": V, "cuts": [[normal(rng, 2), P(rng, 2, -3, 3)] for _ in range(rng.randint(1, 4))]}
    if kind == "cut3":
        while True:
            V = lift(frame(rng), convex(rng, -2, 2, rng.randint(3, 8)))
            if max(abs(x) for v in V for x in v) <= 4: break
        return {"kind": kind, "V": V, "cuts": [[normal(rng, 3, 1), P(rng, 3, -2, 2)] for _ in range(rng.randint(1, 3))]}
    if kind == "sdf":
        return {"kind": kind, "c": P(rng, 2, -3, 3), "rad": rng.randint(1, 3), "a": PS(rng, 2, 2, -3, 3), "qs": PS(rng, 10, 2, -5, 5)}
    x = P(rng, rng.randint(0, 5), 0, 1)
    k = rng.randint(0, 5)
    y = x[k:] + x[:k] if rng.random() < .6 else P(rng, rng.choice([len(x), len(x), rng.randint(0, 5)]), 0, 1)
    return {"kind": "shift", "x": x, "y": y}


WEIGHT = {"box": 3, "seg": 2, "seg2": 3, "plane": 2, "tri2": 2, "flat3": 4, "body": 4, "quad2": 2, "spoly": 4, "cpoly": 4, "cutseg": 2, "cut3": 3, "sdf": 2, "shift": 2}


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("geometry")
    inv = ["Convex2", "Within", "Additive", "Idempotent", "Self", "Commute", "InRight", "SegRight", "SegClipRight", "BoxRight", "DiskRight", "EmitInv"]
    gen, _ = ctx.model("MC_Geometry", consts={"G": 2, "MaxCuts": 2 if th else 1, "Emit": "TRUE"}, inv=inv)
    if th: ctx.model("MC_Geometry", consts={"G": 3, "MaxCuts": 1, "Emit": "FALSE"}, inv=inv, name="MC_Geometry3")
    g2, _ = ctx.model("MC_Geometry", consts={"G": 3, "MaxCuts": 4, "Emit": "TRUE"}, inv=["Convex2", "Within", "Idempotent", "EmitInv"], name="MC_GeometryWalk", simulate=(3000 if th else 150, 6))
    cases = []
    gen += g2
    rng.shuffle(gen)
    for n, g in enumerate(gen[:20000 if th else 900]):
        if n % 3: cases.append({"kind": "cpoly", "V": g["V"], "qs": [], "mid": g["V"][0], "others": [], "cuts": g["hist"]})
        elif n % 2:
            i = rng.randrange(len(g["V"])); cases.append({"kind": "cutseg", "V": [g["V"][i], g["V"][i - 1]], "cuts": g["hist"]})
        else:
            # the same cuts in space: half-spaces over the lines of the plane z = 0
            cases.append({"kind": "cut3", "V": [p + [0] for p in g["V"]], "cuts": [[N + [0], x + [rng.randint(-1, 1)]] for N, x in g["hist"]]})
    kinds = [k for k, w in WEIGHT.items() for _ in range(w)]
    for n in range(12000 if th else 1000):
        c = case(rng, kinds[n % len(kinds)], th)
        if c["kind"] not in ("sdf", "shift") and rng.random() < .4: c["scale"] = rng.choice([-30, -20, -12, -6, 8, 20])
        cases.append(c)
    cases.append({"kind": "quad2", "V": [[0, 2], [-1, -1], [-3, -1], [3, -2]], "qs": [], "note": "concave", "corner": 1})      # known finding
    rng.shuffle(cases)
    ctx.validate("Trace_Geometry", ctx.harness("geometry", cases, jobs=8))
    ctx.assumptions += ["integer coordinates (up to 5 in the plane, 3 in space); answers are compared on grids of 1/100000 (points, parameters, angles) and 1/1000 (squared distances)",
                        "configurations that just touch are judged only where rounding cannot decide them (axis-aligned normals, given corners)"]
