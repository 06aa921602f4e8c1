from checks import meshgen as g
import itertools
def run(ctx):
    th, rng = ctx.thorough, ctx.rng
    ctx.build("mesh")
    cases = []
    def add(kind, args): cases.append({"ops": [["proc", kind, args]]})
    # design: the generators as constructions in the specification satisfy the tiling relation
    ctx.model("MC_Proc", "MSpec", {"MaxN": 3 if th else 2}, inv=["QuadTiles", "HexTiles", "TriTiles", "Wrong"])
    m2, m3 = (7, 3) if th else (6, 2)
    for ux, uy, r in itertools.product(range(4), range(4), range(4)):
        if max(1, ux * uy * r * r) > 60: continue
        add("rect_quad", [rng.choice([1, 2, 3]) * max(1, r) * 2, ux, uy, r, rng.randint(-9, 9), rng.randint(-9, 9)])
    for ux, uy, uz, r in itertools.product(range(4), range(4), range(4), range(3)):
        n = ux * uy * uz * r ** 3
        if n > 36: continue
        add("rect_hex", [rng.choice([1, 2, 3]) * max(1, r) * 2, ux, uy, uz, r])
        if n <= (16 if th else 8): add("rect_tet", [rng.choice([1, 2]) * max(1, r) * 2, ux, uy, uz, r])
    for _ in range(12 if th else 6):       # long in one direction
        u = [1, 1, 1]; u[rng.randrange(3)] = rng.choice([5, 6, 9, 17])
        add("rect_hex", [2 * rng.randint(1, 3), *u, 1])
        u = [1, 1, 1]; u[rng.randrange(3)] = rng.choice([5, 6])
        add("rect_tet", [2, *u, 1])
        u = [1, 2]; rng.shuffle(u); u[rng.randrange(2)] = rng.choice([6, 9, 20])
        add("rect_quad", [4, *u, rng.randint(1, 2), rng.randint(-9, 9), rng.randint(-9, 9)])
    for r in range(0, m2 + 1):
        add("unit_quad", [r, 2 * max(1, r)]); 
        if r <= 5: add("unit_tri", [r, 2 * max(1, r)])
    for r in range(0, m3 + 1):
        add("unit_hex", [r, 2 * max(1, r)])
        if r <= 2: add("unit_tet", [r, 2 * max(1, r)])
    sessions = ctx.harness("mesh", g.scaled(rng, cases))
    ctx.validate("Trace_Mesh", sessions)
