"""C04: collective aggregation. spec/Aggregation.tla is model-checked over all schedules; schedules it
generates (and richer contents) are replayed on the real protocol; AggTrace judges the results."""
CFG = """SPECIFICATION Spec
CONSTANTS N=%d NGroups=%d MaxAttr=%d MaxVal=%d Pairing="%s" Emitting=%s Shapes="all"
INVARIANTS TypeOK ExactlyOnce NoEarlyResult NoLeftover%s
VIEW View
CHECK_DEADLOCK FALSE
"""


def model(ctx):
    ctx.model_check("Aggregation", CFG % (3, 1, 2, 1, "sender", "FALSE", "\nPROPERTY Terminates"), "Aggregation_N3")
    ctx.model_check("Aggregation", CFG % (4, 1, 2, 1, "sender", "FALSE", ""), "Aggregation_N4", workers=6)
    ctx.sanity_mutant("Aggregation", CFG % (3, 1, 2, 1, "arrival", "FALSE", ""), "Aggregation_pair_by_arrival")
    if ctx.thorough:
        ctx.model_check("Aggregation", CFG % (3, 2, 2, 1, "sender", "FALSE", ""), "Aggregation_N3G2", workers=6, timeout=900)


def content(r, n, big):
    """Random contents for n servers."""
    shape = r.choice(["uneven", "even", "disjoint", "sparse"])
    ngroups = r.choice([1, 2, 3, 5]) if not big else r.choice([101, 120, 205])
    nattr = r.choice([1, 2, 3]) if not big else r.choice([1, 2])
    if not big and r.random() < .1:
        nattr = r.choice([99, 100, 101, 130])
        ngroups = 2
    nby = r.choice([0, 1, 2])
    bys = {g: [r.randint(0, 50) for _ in range(nby)] for g in range(1, ngroups + 1)}
    local = []
    for i in range(n):
        loc = []
        for g in range(1, ngroups + 1):
            if shape == "disjoint" and g % n != i:
                continue
            if shape == "sparse" and r.random() < .6:
                continue
            k = nattr if shape != "uneven" else r.randint(1, nattr + 1)
            loc.append(dict(g=g, by=bys[g], v=[r.randint(0, 300) if r.random() < .9 else 0 for _ in range(k)]))
        r.shuffle(loc)
        local.append(loc)
    if shape != "disjoint" and r.random() < .3:
        local[r.randrange(n)] = []
    return local


def cases(ctx, proofs_share=.2):
    r = ctx.rng
    out = []
    for n, num in ((3, ctx.pick(90, 400)), (4, ctx.pick(90, 400)), (5, ctx.pick(90, 600)), (6, ctx.pick(30, 200))):
        gen = ctx.generate("Aggregation", CFG % (n, 2, 2, 2, "sender", "TRUE", "\nCONSTRAINT EmitCase"), "Aggregation_sim%d" % n, num=num, depth=120)
        for c in gen:
            if not c["sched"] and n > 1:
                continue
            c = dict(c, hold=True, kind="spec-schedule")
            if r.random() < .5:
                c["local"] = content(r, n, False)
                c["kind"] = "spec-schedule, random contents"
            c["proofs"] = r.random() < proofs_share
            if r.random() < .15:
                c["simple"] = True
                c["local"] = [[dict(g=0, by=[], v=[r.randint(0, 99) for _ in range(r.randint(1, 4))])] if r.random() < .7 else [] for _ in range(n)]
                c["kind"] = "simple data"
            out.append(c)
    shapes = {1: [[0]], 2: [[0, 1]], 3: [[0, 1, 1], [0, 1, 2]], 5: [[0, 1, 2, 3, 4], [0, 1, 1, 1, 1]], 7: [[0, 1, 1, 2, 2, 3, 3]], 4: [[0, 1, 2, 2]]}
    for k in range(ctx.pick(120, 500)):
        n = r.choice(list(shapes))
        out.append(dict(parent=r.choice(shapes[n]), local=content(r, n, k % 5 == 0), sched=[], hold=False, proofs=r.random() < proofs_share, kind="free order"))
    for i, c in enumerate(out):
        c["id"] = "agg%d" % i
        c["form"] = r.choice(["", "", "clear", "mix"])
        # where the data lies: parts of one array; one vector (or the same points) for all groups of a server with the same values
        c["shared"] = r.choice(["", "", "array", "array", "vector", "points"])
        if c["shared"] in ("vector", "points"):
            for loc in c["local"]:
                if loc and r.random() < .8:
                    for e in loc:
                        e["v"] = list(loc[0]["v"]) if r.random() < .8 else e["v"]
        c["keylen"] = r.choice([3, 6, 64, 64, 128, 192, 320])       # a key is the text of the tags of all grouping attributes
    return out


def run(ctx):
    ctx.assumptions += ["messages of one sender to one receiver arrive in order (onet's guarantee)", "group keys of one computation have the same byte length, as the tagging protocol produces them"]
    b = ctx.build()
    model(ctx)
    cs = cases(ctx)
    ctx.judge(b, "agg", cs, "AggTrace", key=lambda c: c["kind"])
