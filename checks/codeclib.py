"""C13 and C14: writing and reading. spec/Codec.tla: a writer, a channel that damages the bytes, a reader."""
CFG = """SPECIFICATION Spec
CONSTANTS Layouts={%s} MaxRows=%d MaxLen=%d MaxDamage=%d Design="%s" Emitting=%s
%s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT NoCrash RoundTrip Shape NoReadingOn"
ALL = '"fixed","rows","lens"'
OPS = ["cut", "view", "drop", "extend", "flip", "set", "bad", "remove", "nil", "word", "len", "setlen"]
CUTS = {"cut", "view", "drop", "remove", "nil"}


def clip(x):
    return x if -(1 << 30) <= x <= 1 << 30 else (abs(x) % 1000003 * (1 if x > 0 else -1)) % 1000003 + (1 << 29)


def clipall(v):
    return [[[clip(x) for x in p] for p in r] for r in v]


def case(out, fmt, value, damage, kind):
    out.append(dict(id="co%d" % len(out), fmt=fmt, value=value, want=clipall(value), damage=damage, kind=fmt + " " + kind,
                    cut=bool(damage) and fmt not in ("i64text", "key", "ct64", "point64", "scalar64") and all(d["op"] in CUTS for d in damage)))


def sizes(r, big):
    return r.choice([0, 1, 1, 2, 2, 3, 5, 8]) if not big else r.choice([99, 100, 101, 200, 201, 256, 257])


def tag(r, sep=False):
    n = r.choice([0, 1, 3, 8, 44])
    s = [r.choice([0, 44, 45, 48, 57, 65, 97, 255, 10]) for _ in range(n)]
    if sep:
        s += r.choice([[47, 45, 47], [47], [47, 45], [45, 47], [47, 47, 45, 47]])
    return s


def value(r, fmt, big=False):
    """A value of the format: rows of parts of numbers."""
    n = sizes(r, big)
    ids = lambda k: [r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]) for _ in range(k)]
    small = lambda: r.choice([0, 1, 1, 2, 3])
    ct1 = lambda: r.randrange(1, 12)
    if fmt in ("ct", "ct64", "point64", "scalar64"):
        return [[[r.choice([0, 1, 2, 3, 11, 9, 4])]]]
    if fmt in ("cv", "points", "dtm"):
        return [[ids(n)]]
    if fmt in ("matrix", "shufmsg"):
        rag = r.random() < .4
        w = small() if not (big and r.random() < .3) else 101
        return [[ids(small() if rag else w)] for _ in range(n if w < 100 else 3)]
    if fmt == "sddtmsg":
        return [[[ct1()]]] + value(r, "matrix", big)
    if fmt == "fr":
        return [[ids(small() if r.random() < .7 else n), ids(n)]]
    if fmt == "frd":
        return [[ids(small()), ids(n), tag(r)]]
    if fmt == "pr":
        return [[ids(small() if r.random() < .7 else n), ids(n), ids(small())]]
    if fmt == "prd":
        return [[ids(small()), ids(n), ids(small()), tag(r)] + [tag(r, r.random() < .15) for _ in range(small())]]
    if fmt == "card":
        a, b, c = small(), small(), r.choice([0, 1, 4, 44])
        rag = r.random() < .15
        t = lambda: [r.choice([48, 65, 97, 44]) for _ in range(c if not rag else r.choice([c, c + 1]))]
        return [[ids(a), ids(b if not rag else r.choice([b, b + 1])), t()] for _ in range(n)]
    if fmt == "dpr":
        k = n if big else small()
        i = lambda m: [r.choice([0, 1, -1, 7, 2 ** 40, -2 ** 62, 2 ** 62 - 1]) for _ in range(m)]
        return [[i(small()), ids(small()), i(small()), ids(small()), i(k), ids(small() if not big else k)]]
    if fmt in ("key", "i64text"):
        return [[[r.choice([0, 1, -1, 9, 10, 12, 99, 100, -10, -35, 123456789, 2 ** 63 - 1, -2 ** 63]) for _ in range(n)]]]
    if fmt == "ints":
        return [[[r.choice([0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 44]) for _ in range(n)]]]
    if fmt == "datamap":
        return [[[r.randint(-5, 10 ** 12) for _ in range(n)], [r.choice([0, 1, 7, 9, 10, 100])]]]
    if fmt == "precomp":
        k = r.choice([1, 2, 3, 7])
        return [[ids(k), [r.randrange(12) for _ in range(k)]] for _ in range(n)]
    if fmt == "aggproof":
        return [[ids(small() if not big or r.random() < .95 else 101), ids(1)] for _ in range(n)]
    if fmt == "ksproof":
        return [[ids(5), tag(r)] for _ in range(n)]
    if fmt == "shufproof":
        rows = lambda f: [[[f], ids(small())] for _ in range(sizes(r, big))]
        return [[[ct1()], [ct1()], tag(r)]] + rows(0) + rows(1)
    if fmt == "result":
        k = r.choice([1, 2, 3])
        return [[ids(small()), ids(k)] for _ in range(n)]
    raise KeyError(fmt)


FORMATS = ["ct", "ct64", "cv", "points", "point64", "scalar64", "matrix", "shufmsg", "sddtmsg", "fr", "frd", "pr", "prd", "card", "dtm", "dpr",
           "key", "ints", "i64text", "datamap", "precomp", "aggproof", "ksproof", "shufproof", "result"]
FLAT = {"ct", "ct64", "point64", "scalar64"}


def damages(r, fmt):
    """One or two damages a reader of the format can meet."""
    ds = []
    for _ in range(r.choice([1, 1, 1, 2])):
        op = r.choice(OPS)
        d = dict(op=op, i=r.randrange(8), at=r.randrange(1001), n=0)
        if op == "drop":
            d["n"] = r.choice([1, 1, 2, 3, 4, 8, 31, 32, 33, 63, 64, 65, 96, 128])
        if op == "remove":
            d["n"] = r.choice([1, 4, 32, 64])
        if op == "extend":
            d["n"] = r.choice([1, 2, 4, 8, 31, 32, 63, 64, 128, 6400])
        if op in ("flip", "set"):
            d["n"] = r.choice([0, 1, 7, 44, 47, 255, 128, 5])
        if op == "len":
            d["n"] = r.choice([-1, 1, 2, -2, 64, 100])
        if op == "setlen":
            d["n"] = r.choice([0, -1, 2 ** 20, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 2 ** 58, 2 ** 57 + 1])
        if op == "word":
            d["n"] = r.choice([0, 1, 2, 3, 255, 2 ** 16, 2 ** 22])
        ds.append(d)
    return ds


def fromspec(r, c):
    """Formats and damages for a case of the specification."""
    v = c["value"]
    ds = []
    cells = sum(2 * len(row[0]) + (len(row[1]) if len(row) > 1 else 0) for row in v)
    for d in c["log"]:
        if d[0] == "cut":
            ds.append(dict(op=r.choice(["cut", "view"]), i=0, at=min(999, 1000 * d[1] // max(1, cells) + r.choice([0, 1])), n=0))
        if d[0] == "extend":
            ds.append(dict(op="extend", i=0, at=0, n=r.choice([1, 32, 64])))
        if d[0] == "bad":
            ds.append(dict(op="bad", i=0, at=min(999, 1000 * (d[1] - 1) // max(1, cells) + 1), n=0))
        if d[0] == "len":
            if c["layout"] == "lens":
                ds.append(dict(op="word", i=1, at=min(999, 1000 * (d[1] - 1) // max(1, len(v)) + 1), n=max(0, len(v[d[1] - 1][0]) + d[2]) if d[1] <= len(v) else 1))
            else:
                ds.append(dict(op="len", i=d[1] - 1, at=0, n=d[2]))
        if d[0] == "lens":
            ds.append(dict(op="drop", i=1, at=0, n=4))
    if c["layout"] == "fixed":
        a, b = v[0]
        yield "fr", [[a, b]], ds
        yield "frd", [[a, b, [97] * len(b)]], ds
        yield "pr", [[a, b, b]], ds
        yield "prd", [[a, b, [], [97] * len(a), [98]]], ds
        yield "cv", [[a]], ds
    elif c["layout"] == "rows":
        yield "card", [[row[0], row[1], []] for row in v], ds
        yield "card", [[row[0], [], [97] * len(row[1])] for row in v], ds
    else:
        yield r.choice(["matrix", "shufmsg"]), v, ds
        yield "sddtmsg", [[[3]]] + v, ds


def speccases(ctx, out, damaged, num):
    for c in ctx.generate("Codec", CFG % (ALL, 3, 3, 2 if damaged else 0, "checked", "TRUE", "CONSTRAINT EmitCase"), "Codec_sim", num=num, depth=12):
        if bool(c["log"]) == damaged:
            for f, v, d in fromspec(ctx.rng, c):
                case(out, f, v, d, "spec")


def model(ctx):
    ctx.model_check("Codec", CFG % (ALL, 2, 2, 2, "checked", "FALSE", INV), "Codec_2", workers=6)
    if ctx.thorough:
        ctx.model_check("Codec", CFG % (ALL, 3, 2, 2, "checked", "FALSE", INV), "Codec_3", workers=7, heap="8g", timeout=1500)


def mutants(ctx, ds):
    for d in ds:
        ctx.sanity_mutant("Codec", CFG % (ALL, 2, 2, 2, d, "FALSE", INV), "Codec_" + d, workers=6)


def judge(ctx, b, cases, **kw):
    ctx.judge(b, "codec", cases, "CodecTrace", keep=("fmt", "want", "cut"), key=lambda c: c["kind"], **kw)
