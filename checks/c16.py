"""C16: local computations side by side. spec/Local.tla (instances handing results over; wrong designs rejected)
generates schedules of creations, starts and reads; they run on the real protocols and LocalTrace judges that
everyone got, once, what its own input gives."""
CFG = """SPECIFICATION Spec
CONSTANTS N=%d Kinds={%s} Design="%s" Emitting=%s
INVARIANTS Own Delivered Uncalled
%sVIEW View
CHECK_DEADLOCK FALSE
"""
KINDS = ["aggr", "clear", "addrm", "proofs"]
TWO = '"aggr", "clear"'


def clear_rows(r, n, where=True):
    dims = [r.choice([0, 1, 2]), r.choice([0, 1]), r.choice([0, 0, 1, 2]) if where else 0, r.choice([0, 0, 1]) if where else 0,
            r.choice([0, 1, 2, 3]), r.choice([0, 1, 2])]
    if dims[4] + dims[5] == 0:
        dims[4] = 1
    if r.random() < .1:
        dims[5] = r.choice([99, 100, 101, 205])
    pool = [r.choice([[0, 1], [1, 10, 11, 100, 0], [-1, 5, 50]]) for _ in range(2)]
    big = r.choice([5, 1000, 10 ** 6])
    rows = []
    for _ in range(n):
        rows.append(dict(g=[r.choice(pool[0]) for _ in range(dims[0])], ge=[r.choice(pool[0]) for _ in range(dims[1])],
                         w=[r.choice([1, 1, 1, 1, 0, 10, 20, 2]) for _ in range(dims[2])], we=[r.choice([1, 1, 1, 1, 0, 10, 3]) for _ in range(dims[3])],
                         a=[r.randint(-big, big) for _ in range(dims[4])], ae=[r.randint(-big, big) for _ in range(dims[5])]))
    return rows


def content(r, kind):
    x = dict(kind=kind, f=r.randint(0, 5), form=r.choice(["", "", "clear", "mix"]), proofs=r.random() < .5, add=r.random() < .5)
    if kind == "aggr":
        groups = {t: [r.randint(0, 50) for _ in range(2)] for t in range(1, 6)}
        w = r.choice([1, 1, 2, 4])
        x["rows"] = []
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            t = r.randint(1, 5)
            x["rows"].append(dict(t=t, g=groups[t], w=[], a=[r.randint(-300, 300) for _ in range(w)]))
    elif kind == "clear":
        x["rows"] = clear_rows(r, r.choice([0, 1, 2, 5, 20]))
    elif kind == "addrm":
        x["vals"] = [r.randint(-2000, 2000) for _ in range(r.choice([0, 1, 2, 3, 8]))]
    else:
        good = [[True] * r.choice([0, 1, 1, 2]) for _ in range(6)]
        for i in range(6):
            if good[i] and r.random() < .3:
                good[i][r.randrange(len(good[i]))] = False
        x["good"] = good
    return x


def cases(ctx):
    r = ctx.rng
    out = []
    gen = []
    for n, num in ((2, 60), (4, 400), (6, 400)) if not ctx.thorough else ((2, 300), (4, 1500), (6, 2000), (8, 1500)):
        gen += ctx.generate("Local", CFG % (n, ", ".join('"%s"' % k for k in KINDS), "own", "TRUE", "CONSTRAINT EmitCase\n"), "Local_sim%d" % n, num=num, depth=8 * n)
    r.shuffle(gen)
    gen = gen[:ctx.pick(600, 4500)]
    for k, c in enumerate(gen):
        kinds = list(c["kinds"])
        if r.random() < .5:        # all of one kind
            q = r.choice(KINDS)
            kinds = [q] * len(kinds)
        hist = [dict(op=h["op"], i=h["i"], gap=r.choice([0, 0, 0, 300, 3000])) for h in c["hist"]]
        out.append(dict(id="lo%d" % k, insts=[content(r, q) for q in kinds], hist=hist, kind="schedule"))
    for k in range(ctx.pick(40, 200)):      # a crowd: created first, started together
        n = r.choice([10, 20, 40])
        kinds = [r.choice(KINDS[:3])] * n if r.random() < .5 else [r.choice(KINDS[:3]) for _ in range(n)]
        order = list(range(1, n + 1))
        hist = [dict(op="create", i=i, gap=0) for i in order]
        r.shuffle(order)
        st = [dict(op="start", i=i, gap=r.choice([0, 0, 50])) for i in order]
        r.shuffle(order)
        hist += st + [dict(op="read", i=i, gap=0) for i in order]
        out.append(dict(id="cr%d" % k, insts=[content(r, q) for q in kinds], hist=hist, kind="crowd"))
    for k, q in enumerate(KINDS * ctx.pick(30, 200)):      # alone
        out.append(dict(id="al%d" % k, insts=[content(r, q)], hist=[dict(op=o, i=1, gap=r.choice([0, 2000])) for o in ("create", "start", "read")], kind="alone"))
    return out


def run(ctx):
    b = ctx.build()
    ctx.model_check("Local", CFG % (3, TWO, "own", "FALSE", ""), "Local_3", workers=6)
    if ctx.thorough:
        ctx.model_check("Local", CFG % (4, TWO, "own", "FALSE", ""), "Local_4", workers=7, timeout=1500)
    for d in ("perkind", "place", "lossy", "twice"):
        ctx.sanity_mutant("Local", CFG % (2, TWO, d, "FALSE", ""), "Local_" + d)
    ctx.judge(b, "local", cases(ctx), "LocalTrace", key=lambda c: c["kind"], per_case=90)
