"""Shared by C09 and C10: proofs of knowledge (Sigma.tla), shuffle compression (Compress.tla), lists of proofs
(ProofList.tla, also generating the cases) and their replay on the real proofs."""
SIGMA = """SPECIFICATION Spec
CONSTANTS P=%d Kind="%s" Bound=%s Extra=%s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
COMP = """SPECIFICATION Spec
CONSTANTS P=%d Design="%s"
INVARIANTS Complete Sound
CHECK_DEADLOCK FALSE
"""
LIST = """SPECIFICATION Spec
CONSTANTS N=%d B=2 MaxAlts=%d Design="%s" Emitting=%s
INVARIANTS %s
%sVIEW View
CHECK_DEADLOCK FALSE
"""
KEEP = ("typ", "pre")
HOWS = ["rnd", "rnd", "null", "neg", "dbl", "plusB", "other", "field"]
SMALL = ["ks", "ddt", "add", "addrm"]


def models(ctx, inv):
    for k in SMALL:
        if k != "ddt" or ctx.thorough:
            ctx.model_check("Sigma", SIGMA % (3, k, "TRUE", "TRUE", inv), "Sigma_" + k)
    ctx.model_check("Compress", COMP % (3, "bound"), "Compress")
    ctx.model_check("ProofList", LIST % (5, 2, "right", "FALSE", "Sound Complete Faithful", ""), "ProofList")


def wide(ctx, i, big):
    """the index a model position stands for in a list of `big` elements"""
    n, m = big
    if n == m:
        return i - 1
    return 0 if i == 1 else n - 1 if i == m else ctx.rng.choice([(i - 1) * 50 - 1, (i - 1) * 50, min(n - 1, 99), n // 2]) % n


def contents(ctx):
    r = ctx.rng
    return r.choice([[3], [0], [0, 1], [r.randint(0, 99) for _ in range(7)], [-1, 5, 5, 1]])


def base(ctx, typ, n, kind):
    r = ctx.rng
    c = dict(typ=typ, n=n, rows=0, cols=0, vals=contents(ctx), form=r.choice(["", "", "clear", "mix"]), pct=1.0, wire=r.random() < .4,
             single=r.random() < .3, toadd=r.random() < .5, alts=[], kind="%s, %s" % (typ, kind))
    if typ == "agg":
        c["cols"] = r.choice([1, 2, 3, 10])
    if typ == "shuf":
        c["rows"], c["cols"] = r.choice([1, 2, 2, 3, 5, 8]), r.choice([1, 2, 2, 3, 4])
    return c


def finish(cs, p):
    for i, c in enumerate(cs):
        c["id"] = "%s%d" % (p, i)
        c["pre"] = any(a["when"] == "pre" for a in c["alts"])
    return cs


def altered(ctx, gen, typ, big=False):
    """a case of the specification as a case for the real proofs of one type"""
    r = ctx.rng
    m = gen["n"]
    n = {0: 0, 1: 99, 2: 100, 3: 101, 4: 200, 5: 201}[m] if big else m
    c = base(ctx, typ, n, "many" if big else "few")
    c["pct"] = gen["q"] / 4.0
    for a in gen["alts"]:
        k = a["k"]
        x = dict(when="post", how=k, el=wide(ctx, min(a["el"], max(m, 1)), (n, m)), el2=wide(ctx, min(a["el2"], max(m, 1)), (n, m)),
                 f=r.randint(0, 1000), f2=r.randint(0, 1000))
        if n:
            x["el"] %= n
            x["el2"] %= n
        if k == "pre":
            x["when"], x["how"] = "pre", r.choice(HOWS + ["move", "swapcols", "lincomb"] * (2 * (typ == "shuf")))
            if typ == "agg" and r.random() < .5:
                x["how"] = "neg"
        elif k == "change":
            x["how"] = r.choice(HOWS + ["damage"] * (typ != "agg") + ["flip"] * (2 * (typ == "addrm")) + ["shape"] * (6 * (typ in ("agg", "shuf")))
                                + ["forge", "forge", "own"] * (typ in SMALL) + ["forge"] * (2 * (typ == "shuf")))
        c["alts"].append(x)
    return c
