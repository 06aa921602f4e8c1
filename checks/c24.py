"""Visualisation data sets: builder histories of the specification and random larger ones, built and exported."""
N = {"seg2": 2, "seg2s": 2, "tri3": 3, "tri3s": 3, "tri6": 6, "quad4": 4, "quad9": 9, "tet4": 4, "tet10": 10, "tet20": 20, "hex8": 8, "hex20": 20, "hex27": 27}
S = ["f64", "f32", "i32", "u32", "u64", "i64", "u8", "i8", "u16"]


def val(rng):
    return rng.choice([0.0, 1.0, -2.5, rng.randint(-999, 999) / 16, rng.random(), -1e-9, 3.5e12])


def ints(rng, s, n):
    lo, hi = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**52), "i64": (-2**52, 2**52), "i32": (-2**31, 2**31 - 1)}.get(s, (0, 1))
    size = 8 if s[0] == "f" else int(s[1:]) // 8
    # the reader takes a leading blank byte of binary data for white space
    ok = lambda x: s[0] == "f" or x.to_bytes(size, "big", signed=s[0] == "i")[0] not in (9, 10, 13, 32)
    def one():
        while True:
            x = rng.choice([lo, hi, rng.randint(lo, hi), min(hi, 7)]) if s[0] != "f" else val(rng)
            if ok(x): return x
    return [one() for _ in range(n)]


def add(rng, nv, ncell, at, kind, nc, length, k):
    s = rng.choice(S)
    return {"op": "add", "at": at, "kind": kind, "name": "%s_%d" % (rng.choice(["u", "rank", "Stress"]), k), "nc": nc, "S": s, "data": ints(rng, s, length)}


def steps(rng, adds, files):
    out, k = [], 0
    if rng.random() < .4: out.append({"op": "title", "title": rng.choice(["A title", "mesh", "x", "A considerably longer title, with punctuation: 12.5 % (of it)", "t" * 120])})
    for a in adds:
        out.append(a)
        if rng.random() < .2: out.append({"op": "build"})
        if rng.random() < .1: out.append({"op": "title", "title": "again"})
    out.append({"op": "build"})
    for e in files: out.append({"op": "export", "ext": e, "stem": rng.choice(["out", "a.b", "Mesh_1", "a rather long name of a file 0001", "results.2026.11"]), "sub": rng.choice(["", "deep/er/"])})
    return out


def rnd(rng, big=False):
    ct = rng.choice(list(N))
    nv = rng.choice([N[ct], N[ct] + rng.randint(0, 9), 2 * N[ct]]) if not big else rng.randint(100, 300)
    nc = rng.choice([0, 1, 2, 3, 7]) if not big else rng.randint(20, 70)
    V = [[val(rng) for _ in range(3)] for _ in range(nv)]
    C = [rng.sample(range(nv), N[ct]) for _ in range(nc)]
    adds = []
    for k in range(rng.randint(0, 4)):
        at, kind = rng.choice([("point", "vectors"), ("point", "scalars"), ("cell", "scalars")])
        comp = rng.randint(1, 3 if kind == "vectors" else 4)
        want = comp * (nv if at == "point" else nc)
        r = rng.random()
        if r < .1: want = max(0, want + rng.choice([-1, 1, -comp, comp]))
        elif r < .15: want = comp * (nc if at == "point" else nv)
        elif r < .18 and kind == "vectors": comp = 4; want = 4 * nv
        adds.append(add(rng, nv, nc, at, kind, comp, want, k))
    return ct, V, C, adds


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("vtk")
    inv = ["OrdersFit", "ParentsFit", "Recover", "AttrsFit", "AddsRight"]
    ctx.model("MC_Vtk", consts={"MaxV": 4 if th else 3, "MaxC": 2, "MaxOps": 2, "Emit": "FALSE"}, inv=inv)
    gen, _ = ctx.model("MC_Vtk", consts={"MaxV": 4, "MaxC": 1, "MaxOps": 3, "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Gen_Vtk",
                       simulate=(6000 if th else 900, 4))
    rng.shuffle(gen)
    cases = []
    for g in gen[:20000 if th else 3000]:
        D = g["D"]
        adds = [add(rng, g["nv"], len(g["C"]), o["at"], o["kind"], o["nc"], o["len"], k) for k, o in enumerate(g["ops"])]
        cases.append({"T": rng.choice(["f64", "f32"]), "D": D, "ct": g["ct"], "V": [[val(rng) for _ in range(D)] for _ in range(g["nv"])], "C": g["C"],
                      "steps": steps(rng, adds, rng.choice([["vtk"],["vtu"],[],[]]))})
    for n in range(6000 if th else 600):
        ct, V, C, adds = rnd(rng, n % 60 == 0)
        D = rng.choice([1, 2, 2, 3, 3, 3])
        cases.append({"T": rng.choice(["f64", "f64", "f32"]), "D": D, "ct": ct, "V": [p[:D] for p in V], "C": C,
                      "steps": steps(rng, adds, rng.choice([["vtk"], ["vtu"], ["vtk", "vtu"], []]))})
    ctx.validate("Trace_Vtk", ctx.harness("vtk", cases))
    ctx.assumptions += ["files are read back by the reader of the same library that wrote them; integer data whose first byte that reader takes for white space are left out"]
