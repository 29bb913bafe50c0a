"""Cases and models shared by C05-C08 (protocols on one vector or matrix of ciphertexts)."""
RING = """SPECIFICATION Spec
CONSTANTS P=7 N=%d Rows=%d Kind="%s" Faults=%s RandMax=%d WrongKey=%s Vals={%s}
INVARIANTS ShuffleOk DDTOk SDDTOk TagInjective NoPartial
%sCHECK_DEADLOCK FALSE
"""
KS = """SPECIFICATION Spec
CONSTANTS P=7 N=%d L=%d Faults=%s WaitsForAll=%s Vals={0,2} Emitting=%s
INVARIANTS Switched NoPartial
%sVIEW View
CHECK_DEADLOCK FALSE
"""
TREES = {1: [[0]], 2: [[0, 1]], 3: [[0, 1, 1], [0, 1, 2]], 4: [[0, 1, 1, 1], [0, 1, 2, 3], [0, 1, 1, 2]],
         5: [[0, 1, 1, 1, 1], [0, 1, 2, 3, 4], [0, 1, 1, 2, 2]], 6: [[0, 1, 1, 2, 2, 3]]}


def ring_model(ctx, kind):
    live = "PROPERTY Terminates\n"
    ctx.model_check("Ring", RING % (3, 2, kind, "FALSE", 2, "FALSE", "0,1", live), "Ring_%s_N3" % kind)
    ctx.model_check("Ring", RING % (3, 2, kind, "TRUE", 1, "FALSE", "0,1", ""), "Ring_%s_N3_loss" % kind)
    ctx.model_check("Ring", RING % (1, 2, kind, "FALSE", 2, "FALSE", "0,1,2", live), "Ring_%s_N1" % kind)
    if kind == "sddt":
        ctx.sanity_mutant("Ring", RING % (3, 2, kind, "FALSE", 1, "TRUE", "0,1", ""), "Ring_sddt_full_key")
    if ctx.thorough:
        ctx.model_check("Ring", RING % (4, 2, kind, "TRUE", 2, "FALSE", "0,1", ""), "Ring_%s_N4" % kind, workers=7, timeout=1200)
        ctx.model_check("Ring", RING % (3, 3, kind, "FALSE", 1, "FALSE", "0,1", ""), "Ring_%s_R3" % kind, workers=7, timeout=1200)


def ks_model(ctx):
    ctx.model_check("KeySwitch", KS % (4, 1, "TRUE", "TRUE", "FALSE", ""), "KeySwitch_N4_loss")
    ctx.model_check("KeySwitch", KS % (4, 2, "FALSE", "TRUE", "FALSE", "PROPERTY Terminates\n"), "KeySwitch_N4")
    ctx.sanity_mutant("KeySwitch", KS % (3, 1, "FALSE", "FALSE", "FALSE", ""), "KeySwitch_not_waiting")
    if ctx.thorough:
        ctx.model_check("KeySwitch", KS % (5, 1, "FALSE", "TRUE", "FALSE", ""), "KeySwitch_N5", workers=7, timeout=1200)


def distinct_rows(r, k, c):
    return [[i + 1 + 1000 * (j == 0) if j == 0 else r.randint(0, 50) for j in range(c)] for i in range(k)]


def number(cs, p):
    for i, c in enumerate(cs):
        c["id"] = "%s%d" % (p, i)
    return cs


def ks_cases(ctx):
    r = ctx.rng
    out = []
    for n, num in ((3, ctx.pick(25, 200)), (4, ctx.pick(25, 200)), (5, ctx.pick(25, 300))):
        for c in ctx.generate("KeySwitch", KS % (n, 1, "FALSE", "TRUE", "TRUE", "CONSTRAINT EmitCase\n"), "KeySwitch_sim%d" % n, num=num, depth=80):
            out.append(dict(c, hold=True, data=[r.randint(-50, 5000) for _ in range(r.choice([1, 2, 3, 5, 9]))],
                            proofs=r.random() < .2, form=r.choice(FORMS), kind="spec-schedule"))
    sizes = [0, 1, 2, 99, 100, 101, 130, 200, 201, 250]
    for k in range(ctx.pick(70, 400)):
        n = r.choice(list(TREES))
        L = sizes[k % len(sizes)]
        vs = [r.choice([0, 0, 1, -1, r.randint(-3000, 100000)]) for _ in range(L)]
        out.append(dict(parent=r.choice(TREES[n]), data=vs, sched=[], hold=False, proofs=r.random() < (.4 if L < 20 else .15 if L < 110 else 0), form=r.choice(FORMS), kind="size %d" % L,
                        target=r.choice([0, 0, -1, r.randint(1, n)])))
    for k in range(ctx.pick(25, 100)):
        out.append(dict(parent=[0], data=[r.randint(0, 99) for _ in range(r.choice([1, 3, 40]))], sched=[], hold=False, proofs=False, form=r.choice(FORMS), kind="one server", target=r.choice([0, 0, 1])))
    return number(out, "ks")


def shuffle_cases(ctx):
    r = ctx.rng
    out = []
    for k in range(ctx.pick(200, 1000)):
        n = r.choice([1, 1, 2, 3, 3, 4, 5])
        rows = r.choice([1, 2, 2, 3, 4, 7, 14, 20, 33]) if k % 8 else r.choice([99, 100, 101, 140])
        cols = r.choice([1, 2, 3, 4]) if k % 9 else r.choice([20, 101])
        if rows * cols > 400:
            cols = 2
        if r.random() < .2:       # repeated rows
            m = [[r.randint(0, 2) for _ in range(cols)] for _ in range(rows)]
        else:
            m = distinct_rows(r, rows, cols)
        pre = r.choice(["", "", "own", "many"])
        out.append(dict(parent=r.choice(TREES[n]), rows=m, pre=pre, form=r.choice(FORMS), extra=r.choice([0, 0, 2]) if pre else 0,
                        proofs=rows * cols <= 40 and r.random() < .4, kind="%s%s rows" % ("precomputed, " if pre else "", "many" if rows > 50 else "few")))
    return number(out, "sh")


def ddt_cases(ctx):
    r = ctx.rng
    out = []
    for k in range(ctx.pick(110, 500)):
        n = r.choice([1, 2, 3, 4, 5])
        runs = []
        pool = [r.choice([-n, r.randint(-6, 1), r.randint(-5, 400)]) for _ in range(r.choice([1, 2, 4, 8]))]
        for _ in range(r.choice([1, 2, 3, 4])):
            L = r.choice([0, 1, 2, 3, 6, 10]) if k % 6 else r.choice([99, 100, 101, 150, 201])
            runs.append(dict(root=r.randint(1, n), data=[r.choice(pool) for _ in range(L)]))
        if r.random() < .5 and runs[0]["data"]:
            runs.append(dict(root=r.randint(1, n), data=list(reversed(runs[0]["data"]))))
            runs.append(dict(root=r.randint(1, n), data=list(runs[0]["data"])))
        if r.random() < .7:     # surveys in which one server has another secret
            for s in r.sample(range(1, n + 1), r.randint(1, n)):
                runs.append(dict(root=r.randint(1, n), data=pool, other=s))
        out.append(dict(n=n, runs=runs, form=r.choice(FORMS), proofs=sum(len(x["data"]) for x in runs) < 40 and r.random() < .3, kind="batch" if k % 6 == 0 else "small"))
    return number(out, "dt")


def tagkey_cases(ctx):
    """grouping keys made from the tags of one vector, with the steps of the protocol done one after the other"""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(60, 300)):
        n = r.choice([1, 1, 2, 3])
        pool = r.sample(range(1, 60), r.choice([1, 2, 3, 5])) + [-r.randint(1, 9)]
        if k % 5 == 0:
            base = [r.choice(pool) for _ in range(r.choice([99, 100, 101, 201]))]
        else:
            base = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
        vecs = [base, list(base), list(reversed(base)), base[:-1], base + base[:1], base[1:] + base[:1]]
        if base:
            vecs += [base[:-1] + [99], [99] + base[1:], base[:1] * len(base)]
        runs = [dict(data=v, other=0, how=r.choice(["protocol", "library"]), proofs=len(v) < 10 and r.random() < .4) for v in vecs]
        for s in r.sample(range(1, n + 1), r.randint(0, n)):
            runs.append(dict(data=base, other=s, how=r.choice(["protocol", "library"]), proofs=False))
        out.append(dict(n=n, form=r.choice(FORMS), runs=runs, kind="keys, batch" if k % 5 == 0 else "keys, small"))
    return number(out, "tk")


def sddt_cases(ctx):
    r = ctx.rng
    out = []
    for k in range(ctx.pick(110, 500)):
        n = r.choice([1, 2, 3, 4, 5])
        pool = [r.choice([-n, r.randint(-6, 0), r.randint(0, 400), r.randint(0, 400)]) for _ in range(r.choice([2, 3, 4]))]
        runs = []
        for _ in range(r.choice([1, 2])):
            rows = r.choice([1, 2, 3, 5, 9]) if k % 6 else r.choice([99, 100, 101, 130, 201])
            cols = r.choice([1, 2, 3, 4]) if k % 6 else r.choice([1, 2])
            if k % 12 == 5:
                rows, cols = r.choice([1, 2]), r.choice([99, 101, 130])
            runs.append([[r.choice(pool) for _ in range(cols)] for _ in range(rows)])
        tot = sum(len(x) * len(x[0]) for x in runs)
        out.append(dict(n=n, root=r.randint(1, n), runs=runs, form=r.choice(FORMS), proofs=tot <= 30 and r.random() < .4, pre=r.random() < .4, other=r.choice([0, r.randint(1, n)]), kind="batch" if k % 6 == 0 else "small"))
    return number(out, "sd")


OPS = ["cut", "cutfront", "add", "empty", "less", "less", "more", "more", "half", "point", "flip", "noise", "zero"]


def tampered_cases(ctx, content):
    """Damaged messages: on every protocol, any message, any field, any damage."""
    r = ctx.rng
    res = {k: [] for k in ("agg", "ks", "shuffle", "ddt", "sddt")}

    def t(n, root=0):
        return dict(top=r.choice(OPS), tsd=r.randint(0, 10 ** 9), tfrom=r.choice([0, 0, r.randint(1, n)]), tto=r.choice([0, 0, r.randint(1, n), root]),
                    tnth=r.choice([0, 1, 1, 2, 2, 3, 4, 5]), timeout=500, kind="damaged message")
    for k in range(ctx.pick(90, 1200)):
        n = r.choice([2, 3, 3, 4, 5])
        tr = r.choice(TREES[n])
        root = r.randint(1, n)
        m = [[r.randint(0, 60) for _ in range(r.choice([1, 2, 2]))] for _ in range(r.choice([1, 3, 5]))]
        m = [x[:len(m[0])] + [0] * (len(m[0]) - len(x)) for x in m]
        res["agg"].append(dict(t(n, 1), parent=tr, local=content(r, n, False), sched=[], hold=False, proofs=r.random() < .2))
        res["ks"].append(dict(t(n, 1), parent=tr, data=[r.randint(0, 60) for _ in range(r.choice([1, 3, 5, 101]))], sched=[], hold=False, proofs=r.random() < .2))
        res["shuffle"].append(dict(t(n, 1), parent=tr, rows=m, pre=r.choice(["", "own", "many"]), proofs=r.random() < .2))
        res["ddt"].append(dict(t(n, root), n=n, runs=[dict(root=root, data=[r.randint(0, 60) for _ in range(r.choice([1, 3, 101]))])], proofs=r.random() < .2))
        if k % 3 == 0:
            res["sddt"].append(dict(t(n, root), n=n, root=root, runs=[m], pre=r.random() < .3, proofs=r.random() < .2))
    for p, cs in res.items():
        number(cs, "t" + p)
    return res


def perm_cases(ctx):
    """Every row must be able to end up anywhere, about equally often; runs enough that chance cannot fail it (12 sigma, e^-45)."""
    out = []
    for k, runs in ((2, 400), (3, 600), (4, 800), (7, 1500), (99, 5000), (100, 5000), (101, 5000), (120, 6000)):
        out.append(dict(mode="lib", rows=k, runs=runs, n=0, pre=0, kind="permutation of %d" % k))
    for k, runs, pre in ((2, 150, 0), (2, 150, 3), (3, 200, 0), (3, 200, 1), (5, 300, 0)):
        out.append(dict(mode="seq", rows=k, runs=runs * ctx.pick(1, 3), n=0, pre=pre, kind="shuffles of %d rows" % k))
    for k, runs, n in ((2, 130, 1), (3, 180, 2)):
        out.append(dict(mode="proto", rows=k, runs=runs * ctx.pick(1, 3), n=n, pre=0, kind="%d-server shuffles of %d rows" % (n, k)))
    # orders over many rows: no row prefers a place
    for k, runs in ((101, 90), (130, 70)):
        out.append(dict(mode="seq", rows=k, runs=runs * ctx.pick(1, 3), n=0, pre=r_pre(ctx), kind="shuffles of %d rows" % k))
    return number(out, "pm")


def r_pre(ctx):
    return ctx.rng.choice([0, 3])


def twins(ctx, b, what, rows):
    """The same work at the beginning of several processes (what was random must not come back)."""
    cs = number([dict(what=what, rows=rows, kind="twin") for _ in range(ctx.pick(4, 12))], "tw")
    ctx.judge(b, "twin", cs, "RingTrace", key=lambda c: c["kind"], vkw=dict(env=dict(KIND="twin"), shards=1), isolate=True)


FORMS = ["", "", "", "clear", "mix", "mix"]


def judge(ctx, b, kind, cs, **kw):
    ctx.judge(b, kind, cs, "RingTrace", key=lambda c: c["kind"], vkw=dict(env=dict(KIND=kind)), **kw)


# ------------------------------------------------ lists of responses <-> what the protocols work on
CONV = """SPECIFICATION Spec
CONSTANTS MaxRows=3 MaxCols=%d Design="%s"
INVARIANT Intact
PROPERTY NotTouched
CHECK_DEADLOCK FALSE
"""


def conv_model(ctx):
    ctx.model_check("Conv", CONV % (2, "copy"), "Conv")
    for d in ("append", "nowhere", "swap", "drop"):
        ctx.sanity_mutant("Conv", CONV % (1, d), "Conv_%s" % d)


def conv_cases(ctx, kind):
    r = ctx.rng
    out = []
    for k in range(ctx.pick(150, 1200)):
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 5, 8] if k % 25 else [99, 100, 101, 205])
        shape = [r.randint(0, 3), r.randint(0, 3), r.randint(1, 3)]   # a query has an aggregating attribute
        if k % 10 == 3:
            shape[r.randrange(3)] = r.choice([99, 100, 101, 130])
        rows = [shape[:] if kind == "matrix" else [shape[0], 0, r.randint(0, 3)] for _ in range(n)]
        if kind == "flat" and r.random() < .3:
            rows = [[r.randint(0, 3), 0, v[2]] for v in rows]
        perm = list(range(max(n, 2)))
        r.shuffle(perm)
        out.append(dict(id="cv%d" % k, kind=kind, rows=rows, rest=[shape[:] for _ in range(r.choice([0, 0, 1, 2]))], perm=perm if n != 0 else []))
    return out
