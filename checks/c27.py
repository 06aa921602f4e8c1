"""Operators: assembled matrices, vectors, energies, integrals and error norms of polynomial data against exact integrals."""
from itertools import product
from math import factorial, lcm, prod
from checks.meshgen import grid, shuffle
from checks.c25 import PAR, BASE, NODES, det

ORDER = {"tri3": 1, "tri6": 2, "quad4": 1, "quad9": 2, "tet4": 1, "tet10": 2, "tet20": 3, "hex8": 1, "hex20": 2, "hex27": 2, "seg2s": 1, "tri3s": 1}
MIRROR = {"tri3": [1, 0, 2], "tet4": [1, 0, 2, 3], "quad4": [1, 0, 3, 2], "hex8": [1, 0, 3, 2, 5, 4, 7, 6]}


def matrix(rng, D, box=False):
    while True:
        A = [[rng.randint(-2, 2) if not box or i == j else 0 for j in range(D)] for i in range(D)]
        if det(A) != 0 and abs(det(A)) <= 5: return A


def corners(rng, b, D, order):
    """corner mesh; shape: affine (any), box (axis aligned), soup, bent (not affine)"""
    simplex = b in ("tri3", "tet4")
    shape = rng.choice(["affine", "soup", "one"] if simplex else ["affine", "box", "box", "bent", "one"])
    if shape in ("soup", "one") and simplex:
        n = 1 if shape == "one" else rng.randint(2, 4)
        while True:
            V = [[rng.randint(-1, 2) if order == 3 else rng.randint(-2, 3) for _ in range(D)] for _ in range(rng.randint(D + 1, D + 1 + 2 * n))]
            C = [rng.sample(range(len(V)), D + 1) for _ in range(n)]
            if all(det([[V[c[j + 1]][i] - V[c[0]][i] for i in range(D)] for j in range(D)]) for c in C): return V, C, "affine"
    n = [1] * D
    if shape != "one":
        n[rng.randrange(D)] = 2
        if D == 2 and rng.random() < .5: n = [2, 2]
    h = rng.choice([4, 5, 6]) if shape == "bent" else 1
    m = shuffle(rng, grid(rng, b, n, [h] * D))
    V, C = m["V"], m["C"]
    if shape == "bent":
        V = [[x - 5 + rng.choice([-1, 0, 0, 1]) for x in v] for v in V]
    else:
        A, t = matrix(rng, D, shape == "box"), [rng.randint(-1 if order == 3 else -2, 1) for _ in range(D)]
        V = [[sum(A[i][j] * v[j] for j in range(D)) + t[i] for i in range(D)] for v in V]
    C = [[c[i] for i in MIRROR[b]] if rng.random() < .25 else c for c in C]
    return V, C, {"one": "affine"}.get(shape, shape)


def nodes(rng, el, V, C):
    """nodes over 24 and connectivity of a mesh of the element's order"""
    V24, ids, conn = [], {}, []
    for v in V: V24.append([24 * x for x in v])
    for c in C:
        cn = list(c)
        for q in PAR.get(el, []):
            x = tuple(24 * sum(V[c[i]][j] for i in q) // len(q) for j in range(len(V[0])))
            if x not in ids: ids[x] = len(V24); V24.append(list(x))
            cn.append(ids[x])
        conn.append(cn)
    # nodes no cell uses, so that node numbers grow beyond what a small mesh has
    if rng.random() < .2: V24 += [[24 * rng.randint(-3, 3) for _ in V[0]] for _ in range(rng.choice([5, 140, 270]))]
    p = list(range(len(V24))); rng.shuffle(p)
    N = [None] * len(p)
    for i, x in enumerate(V24): N[p[i]] = x
    return N, [[p[i] for i in c] for c in conn]


def poly(rng, D, k, box=False, el=None):
    out = []
    for _ in range(rng.randint(1, 4)):
        while True:
            e = [rng.randint(0, k) for _ in range(D)]
            if sum(e) <= k or (box and (el != "hex20" or sum(x for x in e if x > 1) <= 2)): break
        out.append([rng.choice([-3, -2, -1, 1, 2, 3])] + e)
    return out


def denominator(D, d):
    """of the integrals of monomials up to degree d over the unit simplex"""
    return lcm(*[factorial(sum(e) + D) // prod(factorial(x) for x in e) for e in product(range(d + 1), repeat=D) if sum(e) <= d])


def one(D): return [[1] + [0] * D]


def volume_case(rng, el, th):
    b = BASE.get(el, el)
    D, k = (2 if b in ("tri3", "quad4") else 3), ORDER[el]
    V, C, shape = corners(rng, b, D, k)
    flat = el in ("tri3", "tet4") and rng.random() < .15
    if flat:
        C = C + [list(C[0])]
        V = V + [list(V[C[0][0]])] if rng.random() < .5 else V + [[2 * x - y for x, y in zip(V[C[0][0]], V[C[0][1]])]]
        C[-1][1 + rng.randrange(D)] = len(V) - 1
        if det([[V[C[-1][j + 1]][i] - V[C[-1][0]][i] for i in range(D)] for j in range(D)]) != 0: C, V, flat = C[:-1], V[:-1], False
        else: rng.shuffle(C)
    simplex, box, bent = b in ("tri3", "tet4"), shape == "box", shape == "bent"
    k = 1 if bent else k
    d = 2 * ORDER[el] + 1 if simplex else 5
    N, conn = nodes(rng, el, V, C)
    s = rng.choice([1, 1, 1, 2, 2, 3, 3, rng.randint(4, 7)])
    P = lambda n=s, kk=k: [poly(rng, D, kk, box and kk == k, el) for _ in range(n)]
    ops = []
    const, uni = True, True

    def data():
        nonlocal const, uni
        uni = rng.random() < .3
        const = uni or rng.random() < .5
        ops.append({"op": "data", "uni": int(uni), "cell": [2] * len(C) if uni else [rng.choice([-2, 1, 1, 2, 3, 5]) for _ in C], "poly": one(D) if const else poly(rng, D, 1)})
    data()
    ops.append({"op": "u", "u": P()})
    # the degree of gradients of box polynomials is not smaller in the other coordinates
    full = 2 * k + 1 <= 5 if not simplex else True
    for _ in range(rng.randint(6, 10)):
        w = rng.random() if s <= 3 else rng.choice([0, .1, .1, .6, .6, .6, .6])
        if w < .08: data()
        elif w < .18: ops.append({"op": "u", "u": P()})
        elif w < .5:
            kind = rng.choice(["laplace", "linear", "linear", "quartic"] if s == 1 else ["linear"])
            if kind == "quartic" and (s != 1 or flat): kind = "linear"
            o = {"kind": kind}
            if kind == "linear":
                A = [[rng.randint(-2, 2) for _ in range(D)] for _ in range(D)]
                M = [[rng.randint(-2, 2) for _ in range(s)] for _ in range(s)]
                if rng.random() < .4:
                    A = [[A[min(i, j)][max(i, j)] for j in range(D)] for i in range(D)]
                    M = [[M[min(i, j)][max(i, j)] for j in range(s)] for i in range(s)]
                sy = all(A[i][j] == A[j][i] for i in range(D) for j in range(D)) and all(M[i][j] == M[j][i] for i in range(s) for j in range(s))
                o.update(A=A, N=M, sym=int(sy and rng.random() < .8))
            rule = "stiff" if kind == "laplace" and rng.random() < .7 or kind == "linear" and const and rng.random() < .5 else "strong"
            op = rng.choice(["hess", "hess", "grad", "energy"] if kind != "linear" or o["sym"] else ["hess", "hess", "grad"])
            e = {"op": op, "oper": o, "rule": rule}
            if kind == "quartic":
                kk = min(k, 2)
                ops.append({"op": "u", "u": [poly(rng, D, kk)]})
                e["v"], e["w"] = [poly(rng, D, kk)], [poly(rng, D, kk)]
            else:
                e["v"], e["w"] = P(), P()
                if rng.random() < .2: e[rng.choice(["v", "w"])] = [[[rng.choice([1, 2])] + [0] * D] for _ in range(s)]
            ops.append(e)
        elif w < .63:
            affine_const = const and not bent
            ops.append({"op": "mass", "rule": "mass" if affine_const and rng.random() < .6 else "strong", "v": P() if rng.random() < .8 else [one(D) for _ in range(s)]})
        elif w < .74: ops.append({"op": "source", "rule": "strong", "f": P(), "v": P() if rng.random() < .7 else [one(D) for _ in range(s)]})
        elif w < .88:
            ops.append({"op": "int", "dep": rng.choice(["x", "u", "vu", "vg", "vug"]), "q": poly(rng, D, 3 if bent else min(d, 5)), "i": rng.randint(1, s), "j": rng.randint(1, s),
                        "k": rng.randint(1, D), "l": rng.randint(1, D), "bad": rng.choice([-s, -1, 1, s]) if rng.random() < .08 else 0})
        else: ops.append({"op": "err", "norm": rng.choice(["L2", "H1"]), "w": P()})
    F = denominator(D, d) if simplex else 60 ** D
    return {"el": el, "V": V, "C": C, "nodes": N, "conn": conn, "m": [], "d": d, "s": s, "F": F, "ops": ops}


def surface_case(rng, el):
    """segments and triangles of integer measure"""
    if el == "seg2s":
        D, dirs = 2, [[3, 4], [4, -3], [0, 2], [5, 0], [-6, 8], [-1, 0], [5, 12]]
    else:
        D, dirs = 3, None
    V, C, m = [], [], []
    for _ in range(rng.randint(1, 4)):
        o = [rng.randint(-3, 3) for _ in range(D)]
        if el == "seg2s":
            a = rng.choice(dirs); pts = [o, [x + y for x, y in zip(o, a)]]; m.append(int(sum(x * x for x in a) ** .5 + .5))
        else:
            while True:
                a, b = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(2)]
                c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
                r = int(sum(x * x for x in c) ** .5 + .5)
                if r and r * r == sum(x * x for x in c): break
            pts = [o, [x + y for x, y in zip(o, a)], [x + y for x, y in zip(o, b)]]; m.append(r)
        cn = []
        for x in pts:
            if x not in V: V.append(x)
            cn.append(V.index(x))
        C.append(cn)
    N, conn = nodes(rng, el, V, C)
    s = rng.choice([1, 2])
    ops = []
    for _ in range(3):
        ops.append({"op": "u", "u": [poly(rng, D, 1) for _ in range(s)]})
        for _ in range(2):
            ops.append({"op": "int", "dep": rng.choice(["x", "u", "u"]), "q": poly(rng, D, 5), "i": rng.randint(1, s), "j": rng.randint(1, s), "k": 1, "l": 1, "bad": rng.choice([-s, -1, 1, s]) if rng.random() < .08 else 0})
    return {"el": el, "V": V, "C": C, "nodes": N, "conn": conn, "m": m, "d": 7, "s": s, "F": denominator(D - 1, 7), "ops": ops}


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("operators")
    ctx.model("MC_Operators", consts={"MaxDeg": 3 if th else 2, "MaxStep": 2, "Emit": "FALSE"},
              inv=["MomentsRight", "RulesAgree", "Additive", "Gauss", "ListingFree", "Taylor", "SymKill"])
    cases = []
    for el in ORDER:
        n = {"hex8": 14, "hex20": 14, "hex27": 14}.get(el, 22) * (12 if th else 1)
        cases += [surface_case(rng, el) if el in ("seg2s", "tri3s") else volume_case(rng, el, th) for _ in range(n)]
    rng.shuffle(cases)
    ctx.validate("Trace_Operators", ctx.harness("operators", cases, jobs=8))
    ctx.assumptions += ["observed numbers times the common denominator of the exact integrals have to be integers within 0.2 and are compared modulo the prime 46337",
                        "cells are affine with integer corners, except for quadrilaterals and hexahedra with moved corners, on which the data are linear",
                        "operators are the Laplace operator, linear operators with constant matrices and a coefficient per quadrature point, and one nonlinear (quartic) energy"]
