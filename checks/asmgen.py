"""Cases for the assembly checks: discretisations and histories of assembler use."""
def rand_elems(rng, n, m, maxlen, distinct=True, empty=0.1):
    res = []
    for _ in range(m):
        if n == 0 or rng.random() < empty:
            res.append([]); continue
        k = rng.randint(1, min(maxlen, n) if distinct else maxlen)
        base = rng.randrange(n)
        if rng.random() < 0.6:      # local neighbourhood, so that elements overlap moderately
            pool = [(base + d) % n for d in range(min(n, 2 * k))]
        else:
            pool = list(range(n))
        if distinct:
            k = min(k, len(pool))
            res.append(rng.sample(pool, k))
        else:
            res.append([rng.choice(pool) for _ in range(k)])
    return res

def rand_coloring(rng, elems):
    """A random valid coloring: random element order, random (not first-fit) group choice, groups shuffled."""
    groups = []
    order = list(range(len(elems)))
    rng.shuffle(order)
    for e in order:
        ok = [g for g in groups if all(not set(elems[e]) & set(elems[f]) for f in g)]
        if ok and rng.random() < 0.85:
            rng.choice(ok).append(e)
        else:
            groups.append([e])
    rng.shuffle(groups)
    return groups

def asm_op(rng, kind, elems, par, into=0, tag=None, fail=(), own=None, n=0, s=1):
    op = {"op": kind, "par": par, "into": into, "tag": rng.randrange(1, 1000) if tag is None else tag, "fail": list(fail)}
    if par:
        op["slow"] = [e for e in range(len(elems)) if rng.random() < 0.5]
        own = rng.random() < 0.6 if own is None else own
        groups = rand_coloring(rng, elems)
        if own and kind != "sca":
            op["colors"] = groups
        op["order"] = [rng.sample(g, len(g)) for g in groups] if rng.random() < 0.5 else []
    else:
        op["slow"], op["order"] = [], []
    if into and kind == "mat":
        d = n * s
        op["extra"] = [[rng.randrange(d), rng.randrange(d)] for _ in range(rng.randrange(4))] if d else []
    elif into:
        op["extra"] = []
    return op

def huge_disc(rng, distinct=True):
    """More elements, nodes and nodes per element than any batch or small counter holds."""
    n, m = rng.choice([70, 100, 150, 270, 300]), rng.choice([65, 90, 101, 111, 120, 130, 131])
    long = [rng.sample(range(n), rng.choice([20, 27, 33, 35])) for _ in range(2)]
    if rng.random() < .6: long.append(rng.sample(long[0], len(long[0])))     # two long elements on the same nodes
    elems = rand_elems(rng, n, m, 5, distinct, 0.03) + long
    if rng.random() < 0.5:     # a hub that every element of a long run shares
        hub = rng.randrange(n)
        k, w = rng.randrange(m), rng.choice([40, 60])
        elems = [e if not (k <= i < k + w) or hub in e else e + [hub] for i, e in enumerate(elems)]
    rng.shuffle(elems)
    return {"n": n, "s": rng.choice([1, 1, 2] if n < 200 else [1]), "elems": elems}

def wide_dim(rng, distinct=True):
    """More solution components per node than a fixed buffer holds."""
    n = rng.randint(2, 6)
    return {"n": n, "s": rng.choice([4, 5, 6]), "elems": rand_elems(rng, n, rng.randint(1, 6), 3, distinct)}

def one_failing(rng, m):
    """a single failing element, often one far from the start"""
    return [rng.choice([0, m - 1, rng.randrange(m), rng.randrange(m // 2, m)])]

def disc(rng, big=False, distinct=True):
    if big:
        n, m = rng.randint(12, 30), rng.randint(10, 30)
        return {"n": n, "s": rng.randint(1, 3), "elems": rand_elems(rng, n, m, 4, distinct)}
    n, m = rng.randint(0, 7), rng.randint(0, 7)
    return {"n": n, "s": rng.randint(1, 3), "elems": rand_elems(rng, n, m, 4, distinct)}
