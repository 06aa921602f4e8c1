"""Generators of integer meshes {ct, V, C} for the mesh family of checks."""
import itertools

def scaled(rng, cases, p=.3):
    """some of the cases with all coordinates multiplied by a power of two (the answers must not change)"""
    for c in cases:
        if rng.random() < p: c["scale"] = rng.choice([-40, -24, -14, -8, 9, 24])
    return cases

def singles(n): return [[i] for i in range(n)]
HEX20 = singles(8) + [[0,1],[0,3],[0,4],[1,2],[1,5],[2,3],[2,6],[3,7],[4,5],[4,7],[5,6],[6,7]]
PARENTS = {
    "tri6": singles(3) + [[0,1],[1,2],[2,0]],
    "quad8": singles(4) + [[0,1],[1,2],[2,3],[3,0]],
    "quad9": singles(4) + [[0,1],[1,2],[2,3],[3,0],[0,1,2,3]],
    "tet10": singles(4) + [[0,1],[1,2],[0,2],[0,3],[2,3],[1,3]],
    "hex20": HEX20,
    "hex27": HEX20 + [[0,1,2,3],[0,1,5,4],[0,3,7,4],[1,2,6,5],[2,3,7,6],[4,5,6,7],list(range(8))],
}
PARENTS["tet20"] = singles(4) + [[0,0,1],[0,1,1],[0,0,2],[0,2,2],[0,0,3],[0,3,3],[1,1,2],[1,2,2],[1,1,3],[1,3,3],[2,2,3],[2,3,3],[0,1,2],[0,1,3],[0,2,3],[1,2,3]]
NODES = {"seg2": 2, "tri3": 3, "quad4": 4, "tet4": 4, "hex8": 8}

def even_tet():
    for p in itertools.permutations(range(4)):
        if sum(p[i] > p[j] for i in range(4) for j in range(i + 1, 4)) % 2 == 0: yield p
HEXPOS = [(0,0,0),(1,0,0),(1,1,0),(0,1,0),(0,0,1),(1,0,1),(1,1,1),(0,1,1)]
def hex_rots():
    for perm in itertools.permutations(range(3)):
        s = 1 if sum(perm[i] > perm[j] for i in range(3) for j in range(i + 1, 3)) % 2 == 0 else -1
        for fl in itertools.product([0, 1], repeat=3):
            if s * (-1) ** sum(fl) == 1:
                yield [HEXPOS.index(tuple(p[perm[k]] ^ fl[k] for k in range(3))) for p in HEXPOS]
ROT = {"seg2": [[0, 1]], "tri3": [[0,1,2],[1,2,0],[2,0,1]], "quad4": [[(i+k) % 4 for i in range(4)] for k in range(4)],
       "tet4": [list(p) for p in even_tet()], "hex8": list(hex_rots())}
assert len(ROT["tet4"]) == 12 and len(ROT["hex8"]) == 24

def grid(rng, ct, n, h):
    """structured mesh of ct with n cells per axis and spacing h (n, h sequences)"""
    d = len(n)
    dims = [k + 1 for k in n]
    def vid(p):
        r = 0
        for a in range(d): r = r * dims[a] + p[a]
        return r
    V = [[p[a] * h[a] for a in range(d)] for p in itertools.product(*[range(k) for k in dims])]
    C = []
    for p in itertools.product(*[range(k) for k in n]):
        o = lambda *q: vid(tuple(p[a] + q[a] for a in range(d)))
        if ct == "quad4": C.append([o(0,0), o(1,0), o(1,1), o(0,1)])
        elif ct == "tri3":
            q = [o(0,0), o(1,0), o(1,1), o(0,1)]
            C += [[q[0],q[1],q[2]],[q[0],q[2],q[3]]] if rng.random() < .5 else [[q[0],q[1],q[3]],[q[1],q[2],q[3]]]
        elif ct == "hex8": C.append([o(*x) for x in HEXPOS])
        elif ct == "tet4":       # Kuhn subdivision: conforming
            for perm in itertools.permutations(range(3)):
                q = [0, 0, 0]; path = [o(*q)]
                for a in perm: q[a] = 1; path.append(o(*q))
                s = sum(perm[i] > perm[j] for i in range(3) for j in range(i + 1, 3)) % 2
                if s: path[1], path[2] = path[2], path[1]
                C.append(path)
    return {"ct": ct, "V": V, "C": C}

def shuffle(rng, m, rotate=True, cells=True, verts=True):
    V, C = m["V"], [list(c) for c in m["C"]]
    if rotate and m["ct"] in ROT:
        C = [[c[i] for i in rng.choice(ROT[m["ct"]])] for c in C]
    if cells: rng.shuffle(C)
    if verts:
        p = list(range(len(V))); rng.shuffle(p)       # old -> new
        W = [None] * len(V)
        for i, q in enumerate(p): W[q] = V[i]
        V, C = W, [[p[i] for i in c] for c in C]
    return {"ct": m["ct"], "V": V, "C": C}

def affine(rng, m, big=True):
    d = len(m["V"][0]) if m["V"] else 0
    while True:
        A = [[rng.randint(-1, 2) for _ in range(d)] for _ in range(d)]
        det = A[0][0] if d == 1 else A[0][0]*A[1][1]-A[0][1]*A[1][0] if d == 2 else \
            sum(A[0][i]*(A[1][(i+1)%3]*A[2][(i+2)%3]-A[1][(i+2)%3]*A[2][(i+1)%3]) for i in range(3)) if d == 3 else 1
        if det > 0 and det <= (3 if d == 3 else 4): break
    t = [48 * rng.randint(-2, 2) for _ in range(d)] if big else [0] * d
    return dict(m, V=[[sum(A[i][j] * v[j] for j in range(d)) + t[i] for i in range(d)] for v in m["V"]])

def delete(rng, m, p):
    return dict(m, C=[c for c in m["C"] if rng.random() >= p])

def add_unused(rng, m, d, unit):
    V, C = [list(v) for v in m["V"]], m["C"]
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, len(V))
        V.insert(k, [unit * rng.randint(-3, 3) for _ in range(d)])
        C = [[i + (i >= k) for i in c] for c in C]
    return dict(m, V=V, C=C)

def split_vertex(rng, m):
    """duplicate some vertices geometrically: neighbours no longer share them"""
    V, C = [list(v) for v in m["V"]], [list(c) for c in m["C"]]
    for _ in range(rng.randint(1, 3)):
        if not C: break
        c = rng.choice(C); i = rng.randrange(len(c))
        V.append(list(V[c[i]])); c[i] = len(V) - 1
    return dict(m, V=V, C=C)

DIM = {"tri3": 2, "quad4": 2, "tet4": 3, "hex8": 3, "seg2": 2}
def unit_for(ct): return 24

def manifold(rng, ct, maxcells=24, aff=True, unit=24):
    d = DIM[ct]
    per = {"tri3": 2, "quad4": 1, "tet4": 6, "hex8": 1}[ct]
    while True:
        n = [rng.randint(1, 4 if d == 2 else 3) for _ in range(d)]
        k = per
        for x in n: k *= x
        if k <= maxcells: break
    m = grid(rng, ct, n, [unit * rng.randint(1, 2) for _ in range(d)])
    if aff and rng.random() < .6: m = affine(rng, m)
    m = shuffle(rng, m, rotate=rng.random() < .8)
    if rng.random() < .5: m = delete(rng, m, rng.choice([.15, .4, .7]))
    if rng.random() < .25: m = split_vertex(rng, m)
    if rng.random() < .35: m = add_unused(rng, m, d, unit)
    return m

def soup(rng, ct, maxcells=7, unit=24, dup=True):
    """random cells with distinct vertices (non-manifold, arbitrary orientation)"""
    d, k = DIM[ct], NODES[ct]
    n = k + rng.randint(0, 3)
    V = [[unit * rng.randint(-4, 4) for _ in range(d)] for _ in range(n)]
    C = [rng.sample(range(n), k) for _ in range(rng.randint(0, maxcells))]
    if C and rng.random() < .4:     # a cell twice, or the same vertices listed otherwise
        c = list(rng.choice(C))
        if rng.random() < .5: rng.shuffle(c)
        C.append(c)
    if not dup: C = list({frozenset(c): c for c in C}.values())
    return {"ct": ct, "V": V, "C": C}

def enrich(m, to, keep_unused=True):
    par = PARENTS[to.rstrip("s") if to.endswith("s") else to]
    V = [list(v) for v in m["V"]]
    ids, C = {}, []
    for c in m["C"]:
        cell = []
        for p in par:
            lab = tuple(sorted(c[i] for i in p))
            if len(set(lab)) == 1: cell.append(lab[0]); continue
            if lab not in ids:
                ids[lab] = len(V)
                s = [sum(m["V"][i][a] for i in lab) for a in range(len(V[0]))]
                assert all(x % len(lab) == 0 for x in s)
                V.append([x // len(lab) for x in s])
            cell.append(ids[lab])
        C.append(cell)
    return {"ct": to, "V": V, "C": C}

def lift(rng, m, to):
    """embed a planar mesh in space"""
    return {"ct": to, "V": [[v[0], v[1], 24 * rng.randint(-2, 2)] for v in m["V"]], "C": m["C"]}

BASE = {"tri6": "tri3", "quad9": "quad4", "tet10": "tet4", "tet20": "tet4", "hex20": "hex8", "hex27": "hex8"}
ALL2D3D = ["tri3", "tri6", "quad4", "quad9", "tet4", "tet10", "hex8", "hex20", "hex27", "tri3s", "tri6s", "quad4s", "quad8s", "quad9s"]
def any_mesh(rng, ct, maxcells=None):
    """a mesh of any cell type: manifold or not"""
    if ct in ("seg2",):
        n = rng.randint(2, 7)
        return {"ct": ct, "V": [[24 * rng.randint(-4, 4) for _ in range(2)] for _ in range(n)],
                "C": [rng.sample(range(n), 2) for _ in range(rng.randint(0, 7))]}
    flat = ct.rstrip("s") if ct.endswith("s") else ct
    base = BASE.get(flat, "quad4" if flat == "quad8" else flat)
    mc = maxcells or {"tri3": 30, "quad4": 24, "tet4": 24, "hex8": 14}[base]
    if flat in ("tet10", "tet20", "hex20", "hex27"): mc = min(mc, 10 if base == "hex8" else 12)
    m = manifold(rng, base, mc) if rng.random() < .65 else soup(rng, base)
    if ct.endswith("s"): 
        if flat != base: m = enrich(m, flat if flat != "quad8" else "quad8")
        m = lift(rng, m, ct)
    elif flat != base: m = enrich(m, ct)
    if flat != base: m = shuffle(rng, m, rotate=False)
    return m

def wide(rng, ct):
    """a fan of more cells than a byte counts around common vertices"""
    n = {"tri3": 520, "tet4": 300, "quad4": 260, "hex8": 130}[ct]
    ring = [[24 * (n - i), 24 * i] for i in range(n + 1)]
    mid = [[a[0], a[1] + 24] for a in ring[:-1]]
    V = [[0, 0]] + ring + (mid if ct in ("quad4", "hex8") else [])
    C = [[0, i + 1, i + 2] if ct in ("tri3", "tet4") else [0, i + 1, n + 2 + i, i + 2] for i in range(n)]
    if ct == "tet4":
        V = [v + [0] for v in V] + [[0, 0, 24]]
        C = [c + [n + 2] for c in C]
    if ct == "hex8":
        k = len(V)
        V = [v + [24 * z] for z in (0, 1) for v in V]
        C = [c + [i + k for i in c] for c in C]
    return shuffle(rng, {"ct": ct, "V": V, "C": C})

def empty(ct): return {"ct": ct, "V": [], "C": []}
