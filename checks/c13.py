from checks import meshgen as g
import itertools
def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("mesh")
    cases = []
    # every sequence over 0..n up to length 4: accepted iff it is a permutation
    seqs = [list(s) for n in range(0, 5) for s in itertools.product(range(n + 1), repeat=n)]
    if not th: seqs = [s for s in seqs if len(s) < 4 or rng.random() < .25]
    for i in range(0, len(seqs), 8):
        cases.append({"ops": [["perm", s, rng.sample(range(50), len(s))] for s in seqs[i:i + 8]]})
    for k in range(400 if th else 60):
        n = rng.randint(5, 30) if k % 12 else rng.choice([129, 257, 300])
        s = list(range(n)); rng.shuffle(s)
        if rng.random() < .3: s[rng.randrange(n)] = rng.choice([n, n + 1, rng.randrange(n), 10 ** 6])
        cases.append({"ops": [["perm", s, [rng.randrange(100) for _ in s]]]})
    # every symmetric pattern with up to 4 nodes (with or without diagonal), random larger ones
    pats = []
    for n in range(0, 5):
        edges = [(i, j) for i in range(n) for j in range(i, n)]
        for sel in itertools.product([0, 1], repeat=len(edges)):
            if not th and n == 4 and rng.random() < .75: continue
            pats.append((n, [e for e, s in zip(edges, sel) if s]))
    for k in range(1000 if th else 150):
        n = rng.randint(5, 24) if k % 25 else rng.randint(60, 90)
        d = rng.choice([.05, .1, .2, .5]) if n < 25 else rng.choice([.01, .03, .06])
        diag = rng.choice([0, .5, 1])
        pats.append((n, [(i, j) for i in range(n) for j in range(i, n) if rng.random() < (diag if i == j else d)]))
    ops = []
    for n, edges in pats:
        lanes = [set() for _ in range(n)]
        for i, j in edges: lanes[i].add(j); lanes[j].add(i)
        ops.append(["rcm", [sorted(x) for x in lanes]])
    for i in range(0, len(ops), 10): cases.append({"ops": ops[i:i + 10]})
    small, _ = ctx.model("MC_Reorder", "MSpec", {"N": 4 if th else 3, "MaxPat": 5 if th else 4}, inv=["GroupLaws", "MeshIso", "CMExists", "CMIsPerm"])
    for ct in ["tri3", "quad4", "tet4", "hex8", "tri6", "quad9", "tet10", "hex20", "hex27", "tet20", "seg2", "tri3s", "quad4s"]:
        cases.append(dict(g.empty(ct), ops=[["reorder"]]))
        for _ in range(120 if th else 16):
            cases.append(dict(g.any_mesh(rng, ct), ops=[["reorder", 1], ["reorder", 1]] if rng.random() < .3 else [["reorder"]]))
    sessions = ctx.harness("mesh", g.scaled(rng, cases))
    ctx.validate("Trace_Mesh", sessions)
