"""C19: data in clear. spec/Clear.tla (expected results asked for repeatedly), spec/Compare.tla (comparison),
spec/DataFile.tla (the file), each with wrong designs rejected; their cases and larger ones run through the
real code and ClearTrace judges."""
from c16 import clear_rows
CLEAR = """SPECIFICATION Spec
CONSTANTS MaxRows=%d MaxCalls=%d Reps={0,1,2,3} Design="%s" Emitting=%s
INVARIANTS Exact Untouched
%sCHECK_DEADLOCK FALSE
"""
COMPARE = """SPECIFICATION Spec
CONSTANTS MaxLen=%d Design="%s" Emitting=%s
INVARIANTS Right
%sCHECK_DEADLOCK FALSE
"""
FILE = """SPECIFICATION Spec
CONSTANTS Ids={"0","a"} MaxRows=%d Kinds=2 Design="%s"
INVARIANTS Same
CHECK_DEADLOCK FALSE
"""


def gen_cases(ctx):
    r = ctx.rng
    out = []
    for k in range(ctx.pick(900, 6000)):
        gc, ge = r.choice([0, 0, 1, 2]), r.choice([0, 1, 2])
        types = [r.choice([1, 1, 2, 3, 5, 11]) for _ in range(gc + ge)]
        rnd = r.random() < .5
        prod = 1
        for t in types:
            prod *= t
        entries = r.choice([0, 1, 3, 10]) if rnd else prod
        if prod > 200:
            continue
        if r.random() < .08:
            entries += 1
        if r.random() < .05:
            types.append(2)
        elif types and r.random() < .05:
            types.pop()
        mn = r.randint(-5, 5)
        out.append(dict(id="ge%d" % k, kind="random groups" if rnd else "all groups", p=dict(
            dps=r.choice([0, 1, 1, 2, 3, 11]), entries=entries, filtered=r.choice([0, entries, entries // 2, entries + 3]), gc=gc, ge=ge,
            wc=r.choice([0, 1, 2]), we=r.choice([0, 1, 2]), ac=r.choice([0, 1, 3]), ae=r.choice([0, 1, 2, 12]), types=types, random=rnd,
            size=r.choice([0, 1, 7]), min=mn, max=mn + r.choice([1, 2, 10]))))
    return out


def file_cases(ctx):
    r = ctx.rng
    ext = ["0", "1", "-1", "9223372036854775807", "-9223372036854775808", "10", "4294967296"]
    out = []
    for k in range(ctx.pick(600, 4000)):
        files = []
        for _ in range(r.choice([1, 1, 2, 3])):
            dps = []
            ids = r.sample(["0", "1", "10", "a b", "#", "", "x#y", "Ünïcode", " ", "-1"], r.choice([0, 1, 1, 2, 4]))
            for i in ids:
                dims = [r.choice([0, 0, 1, 2, 3, 12]) for _ in range(6)]
                dps.append(dict(id=i, rows=[[[r.choice(ext) if r.random() < .3 else str(r.randint(-99, 99)) for _ in range(d)] for d in dims]
                                            for _ in range(r.choice([0, 1, 2, 5]))]))
            files.append(dps)
        out.append(dict(id="fi%d" % k, files=files, kind="files"))
    for k, w in enumerate(ctx.pick([3000, 20000], [3000, 9000, 12000, 20000, 100000])):
        out.append(dict(id="wi%d" % k, files=[[dict(id="0", rows=[])]], wide=w, kind="wide"))
    return out


def expect_cases(ctx):
    r = ctx.rng
    out = []
    gen = ctx.generate("Clear", CLEAR % (3, 3, "right", "TRUE", "CONSTRAINT EmitCase\n"), "Clear_sim", num=ctx.pick(3000, 15000), depth=6)
    r.shuffle(gen)
    for k, c in enumerate(gen[:ctx.pick(900, 6000)]):
        enc = [r.random() < .5 for _ in range(3)]
        rows = []
        for x in c["data"]:
            row = dict(g=[], ge=[], w=[], we=[], a=[], ae=[])
            row["ge" if enc[0] else "g"].append(x["k"])
            row["we" if enc[1] else "w"].append(1 if x["m"] else 0)
            row["ae" if enc[2] else "a"].append(x["v"])
            rows.append(row)
        n = r.choice([1, 2])
        out.append(dict(id="es%d" % k, dps=[rows[i::n] for i in range(n)], calls=[dict(rep=p, clear=r.random() < .5) for p in c["reps"]], kind="spec"))
    for k in range(ctx.pick(900, 6000)):
        rows = clear_rows(r, r.choice([0, 1, 2, 5, 20, 60]))
        clear = r.random() < .5
        if clear:      # filter attributes are 1 (holds) or 0
            for x in rows:
                x["w"] = [1 if v else 0 for v in x["w"]]
                x["we"] = [1 if v else 0 for v in x["we"]]
        n = r.choice([1, 2, 3])
        out.append(dict(id="ex%d" % k, dps=[rows[i::n] for i in range(n)],
                        calls=[dict(rep=r.choice([0, 1, 1, 2, 3, 20]), clear=clear and r.random() < .7) for _ in range(r.choice([1, 2, 3]))], kind="random"))
    return out


def compare_cases(ctx):
    r = ctx.rng
    gen = ctx.generate("Compare", COMPARE % (ctx.pick(3, 4), "right", "TRUE", "CONSTRAINT EmitCase\n"), "Compare_all", timeout=900)
    # the meanings of the two numbers of a row vary
    shapes = [("g", "a"), ("ge", "ae"), ("w", "a"), ("we", "ae"), ("g", "ae"), ("a", "ae"), ("g", "ge")]
    pairs = []
    for k, c in enumerate(gen):
        p, q = shapes[k % len(shapes)]

        def row(v):
            x = dict(g=[], ge=[], w=[], we=[], a=[], ae=[])
            x[p] = [v[0]]
            x[q] = [v[1]] + ([7] if k % 2 else [])
            return x
        pairs.append(dict(x=[row(v) for v in c["x"]], y=[row(v) for v in c["y"]]))
    for _ in range(ctx.pick(2000, 10000)):       # larger results: shuffled, with or without one difference
        x = clear_rows(r, r.choice([1, 2, 5, 12]))
        y = [{k: list(v) for k, v in z.items()} for z in x]
        r.shuffle(y)
        how = r.choice(["same", "value", "less", "more", "twice", "shape"])
        z = r.choice(y)
        if how == "value":
            f = [k for k in z if z[k]]
            k = r.choice(f)
            z[k][r.randrange(len(z[k]))] += r.choice([1, -1])
        elif how == "less":
            y.pop()
        elif how == "more":
            y.append({k: [v + 1 for v in z[k]] for k in z})
        elif how == "twice":
            y.append({k: list(v) for k, v in z.items()})
            if r.random() < .5:
                y.pop(0)
        elif how == "shape":
            k = r.choice(list(z))
            z[k] = z[k][:-1] if z[k] and r.random() < .5 else z[k] + [0]
        if r.random() < .5:
            x, y = y, x
        pairs.append(dict(x=x, y=y))
    r.shuffle(pairs)
    return [dict(id="co%d" % i, pairs=pairs[i::60], nil=bool(i % 2), kind="pairs") for i in range(60)]


def run(ctx):
    b = ctx.build()
    ctx.model_check("Clear", CLEAR % (ctx.pick(2, 3), ctx.pick(2, 3), "right", "FALSE", ""), "Clear_2", workers=6, timeout=900)
    ctx.model_check("Compare", COMPARE % (ctx.pick(3, 4), "right", "FALSE", ""), "Compare_3", workers=6)
    ctx.model_check("DataFile", FILE % (ctx.pick(1, 2), "right"), "DataFile_1", workers=6, timeout=900)
    for d in ("inplace", "norep", "unmatched", "latest"):
        ctx.sanity_mutant("Clear", CLEAR % (2, 2, d, "FALSE", ""), "Clear_" + d)
    for d in ("oneway", "lengths", "nonempty", "ordered"):
        ctx.sanity_mutant("Compare", COMPARE % (3, d, "FALSE", ""), "Compare_" + d)
    for d in ("noblank", "lastlost", "phantom", "short"):
        ctx.sanity_mutant("DataFile", FILE % (1, d), "DataFile_" + d)
    for fam, cs in (("gen", gen_cases(ctx)), ("file", file_cases(ctx)), ("expect", expect_cases(ctx)), ("compare", compare_cases(ctx))):
        ctx.judge(b, fam, cs, "ClearTrace", key=lambda c: c["kind"], vkw=dict(env=dict(KIND=fam)))
