"""Mesh files: documents written by the specification and random larger ones, rendered as text and loaded."""
import glob, os, struct

NODES = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 8: 3, 9: 6, 10: 9, 11: 10, 12: 27, 15: 1, 16: 8, 17: 20}
DIM = {1: 1, 2: 2, 3: 2, 4: 3, 5: 3, 8: 1, 9: 2, 10: 2, 11: 3, 12: 3, 15: 0, 16: 2, 17: 3}
WANTS = [("tri3", 2, 2), ("tri3d3", 2, 2), ("tri6", 9, 2), ("quad4", 3, 2), ("quad9", 10, 2), ("tet4", 4, 3), ("tet10", 11, 3),
         ("hex8", 5, 3), ("hex27", 12, 3)]


def hexf(x):
    return struct.pack(">d", float(x)).hex()


def render(f, style=0):
    """style bits: 1 CRLF, 2 extra sections, 4 elements before nodes, 8 entity tags vary"""
    L = ["$MeshFormat", "4.1 0 8", "$EndMeshFormat"]
    if style & 2:
        L += ["$PhysicalNames", "1", '2 1 "domain"', "$EndPhysicalNames"]
    N, E = [], []
    if f["hasNodes"]:
        N = ["$Nodes", "%d %d %d %d" % (len(f["nb"]), f["nn"], f["nmin"], f["nmax"])]
        for i, b in enumerate(f["nb"]):
            N += ["%d %d 0 %d" % (i % 4, i + 1 if style & 8 else 1, len(b["tags"]))] + ["%d" % t for t in b["tags"]]
            N += [" ".join(repr(float(x)) for x in p) for p in b["pts"]]
        N += ["$EndNodes"]
    if f["hasElems"]:
        E = ["$Elements", "%d %d %d %d" % (len(f["eb"]), f["ne"], f["emin"], f["emax"])]
        for i, b in enumerate(f["eb"]):
            E += ["%d %d %d %d" % (b["dim"], i + 1 if style & 8 else 1, b["type"], len(b["els"]))]
            E += ["%d %s " % (t, " ".join(str(x) for x in e)) for t, e in zip(b["tags"], b["els"])]
        E += ["$EndElements"]
    L += (E + N) if style & 4 else (N + E)
    if style & 2:
        L += ["$Comments", "anything", "$EndComments"]
    return ("\r\n" if style & 1 else "\n").join(L + [""])


def event_file(f):
    g = dict(f)
    for k in ("hasNodes", "hasElems", "broken"): g[k] = int(bool(g[k]))
    g["nb"] = [{"tags": b["tags"], "pts": [[hexf(x) for x in p] for p in b["pts"]]} for b in f["nb"]]
    return g


def case(f, want, style, how=0, note="", text=None):
    conn, ty, dim, D = want
    return {"op": "load", "note": note, "how": how, "want": {"conn": conn, "type": ty, "dim": dim, "D": D},
            "file": event_file(f), "text": render(f, style) if text is None else text}


def rnd(rng, want, big=False):
    conn, ty, dim, D = want
    sizes = [rng.choice([0, 1, 2, 3, 5, 9]) for _ in range(rng.randint(1, 5))]
    if big: sizes.append(rng.choice([30, 120, 300]))
    if sum(sizes) == 0: sizes.append(rng.randint(1, 4))
    n, nb = 0, []
    for k in sizes:
        nb.append({"tags": list(range(n + 1, n + k + 1)),
                   "pts": [[rng.choice([0.0, 1.0, -0.5, rng.randint(-99, 99) / 8, rng.randint(-10**6, 10**6) / 1024, -1e-7, 2.5e10, -0.0])
                            for _ in range(3)] for _ in range(k)]})
        n += k
    eb, m = [], 0
    for q in range(rng.randint(0, 5) + 1):
        r = rng.random()
        t = ty if r < .6 else rng.choice(list(NODES))
        d = DIM[t] if rng.random() < .8 else rng.choice([0, 1, 2, 3, 3, 2])
        k = rng.choice([0, 1, 1, 2, 4]) if not big else rng.randint(0, 40)
        eb.append({"dim": d, "type": t, "tags": list(range(m + 1, m + k + 1)),
                   "els": [[rng.randint(1, n) for _ in range(NODES[t])] for _ in range(k)]})
        m += k
    if m == 0:
        eb.append({"dim": dim, "type": ty, "tags": [1], "els": [[rng.randint(1, n) for _ in range(NODES[ty])]]})
        m = 1
    return {"hasNodes": True, "hasElems": True, "broken": False, "nn": n, "nmin": 1, "nmax": n, "ne": m, "emin": 1, "emax": m, "nb": nb, "eb": eb}


def perturb(rng, f, want):
    """one deviation from a regular file"""
    k = rng.choice(["count-", "count+", "sparse", "esparse", "emax", "shift", "zero", "beyond", "beyond", "nonodes", "noelems", "eshift", "huge"])
    m = [b for b in f["eb"] if b["type"] == want[1] and b["dim"] == want[2] and b["els"]]
    if k == "count-" and f["nn"] > 1: f["nn"] -= 1; f["nmax"] -= rng.randint(0, 1)
    elif k == "count+": d = rng.randint(1, 3); f["nn"] += d; f["nmax"] += rng.choice([0, d])
    elif k == "sparse": f["nmax"] += rng.randint(1, 9)
    elif k == "esparse":
        f["emax"] += rng.randint(1, 9)
        for b in f["eb"][-1:]: b["tags"] = [t + f["emax"] - f["ne"] for t in b["tags"]]
    elif k == "emax": f["emax"] += 1
    elif k == "eshift":
        d = rng.randint(1, 50); f["emin"] += d; f["emax"] += d
        for b in f["eb"]: b["tags"] = [t + d for t in b["tags"]]
    elif k == "shift":
        d = rng.randint(1, 5); f["nmin"] += d; f["nmax"] += d
        for b in f["nb"]: b["tags"] = [t + d for t in b["tags"]]
        if rng.random() < .5:
            for b in f["eb"]: b["els"] = [[x + d for x in e] for e in b["els"]]
    elif k in ("zero", "beyond", "huge") and m:
        e = rng.choice(rng.choice(m)["els"]); j = rng.randrange(len(e))
        e[j] = 0 if k == "zero" else f["nn"] + rng.randint(1, 3) if k == "beyond" else 2**30
    elif k == "nonodes": f["hasNodes"] = False
    elif k == "noelems": f["hasElems"] = False
    return f


def damage(rng, text):
    """a file that is not well formed"""
    L = text.split("\n")
    k = rng.choice(["version", "type", "cut", "end", "etype", "param", "word", "dup", "blocks", "short", "binary"])
    i = L.index("$Nodes") if "$Nodes" in L else 0
    j = L.index("$Elements") if "$Elements" in L else 0
    if k == "version": L[1] = rng.choice(["4.0 0 8", "2.2 0 8", "4.2 0 8", "4 0 8"])
    elif k == "type": L[1] = "4.1 2 8"
    elif k == "binary": L[1] = "4.1 1 8"
    elif k == "cut": L = L[:rng.choice([1, 2, i + 1, i + 2, j + 1, j + 2])]
    elif k == "end": L = [x for x in L if x != rng.choice(["$EndNodes", "$EndElements"])]; L = L if len(L) < len(text.split("\n")) else L[:3] + ["$Nodes"] + L[3:]
    elif k == "etype": a = L[j + 2].split(); a[2] = rng.choice(["34", "9999", "0", "-1"]); L[j + 2] = " ".join(a)
    elif k == "param": a = L[i + 2].split(); a[2] = rng.choice(["1", "2"]); L[i + 2] = " ".join(a)
    elif k == "word": L[i + 1] = L[i + 1] + " x"
    elif k == "dup": e = L.index("$EndNodes"); L = L + L[i:e + 1] + [""]
    elif k == "blocks": a = L[j + 1].split(); a[0] = str(int(a[0]) + 1); L[j + 1] = " ".join(a)
    elif k == "short":
        a = L[i + 1].split(); a[0] = str(int(a[0]) + 1); L[i + 1] = " ".join(a)
    return "\n".join(L), k


def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("msh")
    inv = ["LoaderRight", "PermutedWrong", "Consistent", "InRange"]
    ctx.model("MC_Msh", consts={"MaxNB": 2, "MaxEB": 2, "MaxN": 3 if th else 2, "Emit": "FALSE"}, inv=inv)
    gen, _ = ctx.model("MC_Msh", consts={"MaxNB": 2, "MaxEB": 2 if th else 1, "MaxN": 3 if th else 2, "Emit": "TRUE"}, inv=inv + ["EmitInv"], name="Gen_Msh")
    rng.shuffle(gen)
    cases, nperm = [], 0
    tri = [("tri3", 2, 2, 2), ("tri3", 2, 2, 3), ("tri3d3", 2, 2, 3)]
    def broken(f, want, style):
        t, k = damage(rng, render(f, style & ~5))
        return case(dict(f, broken=True), want, 0, text=t, note=k)
    for n, f in enumerate(gen[:30000 if th else 2500]):
        perm = any(b["tags"] != sorted(b["tags"]) for b in f["nb"])
        if perm and nperm >= 6: continue
        nperm += perm
        want = rng.choice(tri)
        if f["broken"]:
            cases.append(broken(f, want, rng.choice([0, 2, 8])))
        else:
            cases.append(case(f, want, rng.choice([0, 0, 1, 2, 4, 8, 15]), note="permuted" if perm else ""))
    for n in range(8000 if th else 900):
        w = rng.choice(WANTS)
        want = w + (rng.choice([2, 3, w[2]]),)
        f = rnd(rng, want, n % 40 == 0)
        r = rng.random()
        if r < .3: f = perturb(rng, f, want)
        if r > .93: cases.append(broken(f, want, 0))
        else: cases.append(case(f, want, rng.randrange(16), how=int(n % 17 == 0)))
    # damaged bytes
    for n in range(3000 if th else 400):
        w = rng.choice(WANTS[:5])
        want = w + (w[2],)
        b = bytearray(render(rnd(rng, want), rng.choice([0, 2])).encode())
        for _ in range(rng.randint(1, 3)):
            k, p = rng.randrange(3), rng.randrange(30, len(b))
            if k == 0: b[p:p + 1] = rng.choice([b" ", b"\n", b"-", b"", b"0", b"$", b"x", b"\xff"])
            elif k == 1 and p > 60: del b[p:]
            else: b[p:p] = rng.choice([b"1", b" 1 ", b"\n", b".", b"e"])
            if len(b) < 40: break
        # numbers long enough to exhaust memory in the parser are of no interest
        import re
        if any(len(x) > 6 for x in re.findall(rb"(?<![.\de])\d+(?![.\de])", bytes(b))): continue
        cases.append({"op": "raw", "note": "", "how": 0, "want": {"conn": want[0], "type": want[1], "dim": want[2], "D": want[3]}, "bytes": list(b)})
    cases += [{"op": "missing", "note": "", "path": p} for p in ("does/not/exist.msh", ".", "")]
    # inputs for which the parser library is known to fail
    z = rnd(rng, ("tri3", 2, 2, 2)); z.update(nn=0, nb=[]); z["nmax"] = 1
    cases.append(case(z, ("tri3", 2, 2, 2), 0, note="no-nodes"))
    z = rnd(rng, ("tri3", 2, 2, 2)); z.update(ne=0, eb=[]); z["emax"] = 1
    cases.append(case(z, ("tri3", 2, 2, 2), 0, note="no-elements"))
    z = rnd(rng, ("tri3", 2, 2, 2))
    z.update(nn=3, nmax=3, nb=[{"tags": [2, 1, 3], "pts": [[0, 0, 0], [1, 0, 0], [0, 1, 0]]}], ne=1, emax=1, eb=[{"dim": 2, "type": 2, "tags": [1], "els": [[1, 2, 3]]}])
    cases.append(case(z, ("tri3", 2, 2, 2), 0, note="permuted"))
    # the meshes that come with the repository
    repo = "/repo/assets/meshes"
    for p in sorted(glob.glob(repo + "/*.msh")):
        f = parse(open(p).read())
        if f is None or sum(len(b["tags"]) for b in f["nb"]) > (5000 if th else 700): continue
        for w in WANTS:
            if any(b["type"] == w[1] for b in f["eb"]) or rng.random() < .2:
                c = case(f, w + (rng.choice([2, 3]),), 0, text=open(p).read())
                cases.append(c)
    ctx.validate("Trace_Msh", ctx.harness("msh", cases))
    ctx.assumptions += ["files are rendered in the text format; the parser library is outside of the specification except where its failures surface",
                        "a file whose numbering is dense but not in file order, or whose smallest node tag is not one, may be loaded faithfully or be refused"]


def parse(t):
    """independent reader of well-formed text files"""
    try:
        def section(n): return t.split("$%s\n" % n)[1].split("$End%s" % n)[0].split("\n")
        L = [x.split() for x in section("Nodes") if x.strip()]
        k, nn, lo, hi = map(int, L[0]); p = 1; nb = []
        for _ in range(k):
            n = int(L[p][3]); p += 1
            nb.append({"tags": [int(L[p + i][0]) for i in range(n)], "pts": [[float(x) for x in L[p + n + i]] for i in range(n)]}); p += 2 * n
        L = [x.split() for x in section("Elements") if x.strip()]
        k, ne, elo, ehi = map(int, L[0]); p = 1; eb = []
        for _ in range(k):
            d, _t, ty, n = map(int, L[p]); p += 1
            eb.append({"dim": d, "type": ty, "tags": [int(L[p + i][0]) for i in range(n)], "els": [[int(x) for x in L[p + i][1:]] for i in range(n)]}); p += n
        return {"hasNodes": True, "hasElems": True, "broken": False, "nn": nn, "nmin": lo, "nmax": hi, "ne": ne, "emin": elo, "emax": ehi, "nb": nb, "eb": eb}
    except (IndexError, ValueError):
        return None
