"""C12: encrypted arithmetic and decryption. spec/DLog.tla (shared table, all short histories, wrong designs
rejected); histories from TLC and longer ones run in one process each; random register programs (aliased
operands, shared points, vector sizes around a batch) judged by ArithTrace."""
CFG = """SPECIFICATION Spec
CONSTANTS MaxV=%d MaxOps=%d Coupled=%s Leaky=%s Emitting=%s
INVARIANT HistoryIndependent
%sVIEW View
CHECK_DEADLOCK FALSE
"""


def dlog_cases(ctx):
    r = ctx.rng
    out = []
    gen = ctx.generate("DLog", CFG % (12, 6, "FALSE", "FALSE", "TRUE", "CONSTRAINT EmitCase\n"), "DLog_sim", num=ctx.pick(120, 500), depth=9)
    for c in gen:
        k = r.choice([1, 1, 17, 90])
        ops = [dict(v=o["v"] * k, neg=o["neg"] or o["v"] < 0, vec=r.random() < .3) for o in c["ops"]]
        out.append(dict(threads=[ops], table=r.choice([0, 0, 0, 5, 40]), kind="spec history"))
    for _ in range(ctx.pick(45, 200)):
        m = r.choice([10, 300, 1500])
        ths = [[dict(v=r.randint(-m, m) if neg else r.randint(0, m), neg=neg, vec=r.random() < .3) for neg in [r.random() < .5 for _ in range(12)]]
               for _ in range(r.choice([1, 4, 8]))]
        out.append(dict(threads=ths, table=r.choice([0, 0, 30]), kind="concurrent" if len(ths) > 1 else "history"))
    # negatives are not supported by the plain decryption, before and after the table knows them
    out.append(dict(threads=[[dict(v=-7, neg=True, vec=False), dict(v=-7, neg=False, vec=False), dict(v=5, neg=False, vec=False), dict(v=-5, neg=False, vec=True), dict(v=-9, neg=True, vec=False)]], table=0, kind="plain decryption of negatives"))
    out.append(dict(threads=[[dict(v=30, neg=False, vec=False), dict(v=-7, neg=False, vec=False), dict(v=-7, neg=True, vec=False), dict(v=-6, neg=False, vec=False)]], table=0, kind="plain decryption of negatives"))
    out.append(dict(threads=[[dict(v=99999, neg=False, vec=False), dict(v=99998, neg=True, vec=False), dict(v=0, neg=False, vec=False), dict(v=-3, neg=True, vec=False), dict(v=70001, neg=False, vec=True)]], table=0, kind="whole range"))
    out.append(dict(threads=[[dict(v=0, neg=True, vec=False), dict(v=-50001, neg=True, vec=False), dict(v=50002, neg=False, vec=False), dict(v=-50003, neg=True, vec=False)]], table=0, kind="whole range"))
    # beyond the bounds: no result, but later decryptions are as exact as ever
    for big in ([150000], [-150000], [100000, -100000], [2 * 10 ** 9, -10 ** 9]):
        ops = []
        for v in [r.randint(-20, 20)] + big + [99999, -99999, r.randint(-99999, 99999), 1, -1, 0, r.randint(0, 99999)]:
            ops.append(dict(v=v, neg=v < 0 or r.random() < .6, vec=r.random() < .3))
        out.append(dict(threads=[ops], table=0, kind="after values out of range"))
    for i, c in enumerate(out):
        c["id"] = "dl%d" % i
    return out


def arith_cases(ctx):
    r = ctx.rng
    out = []
    for k in range(ctx.pick(300, 1500)):
        n = r.choice([2, 3, 4])
        L = r.choice([1, 1, 2, 3, 5]) if k % 8 else r.choice([99, 100, 101, 200, 201])
        ops = []
        for i in range(1, n + 1):
            ops.append(dict(op="enc", d=i, vs=[r.choice([0, 1, -1, r.randint(-400, 400)]) for _ in range(L)], how=r.randint(0, 4)))
        bound = 400
        for _ in range(r.choice([4, 10, 18]) if L < 50 else 5):
            x = dict(op=r.choice(["add", "sub", "addc", "subc", "mulc", "copy", "acum", "eq", "eq", "dec", "split", "null", "zero", "enc", "add", "copy"]),
                     d=r.randint(1, n), a=r.randint(1, n), b=r.randint(1, n))
            if x["op"] in ("add", "addc", "sub", "subc"):
                if bound > 30000:
                    continue
                bound *= 2
            if x["op"] == "mulc":
                if bound > 20000:
                    continue
                x["k"] = r.choice([0, 1, -1, 2, 3, -3])
                bound *= 3
            if x["op"] == "acum" and bound * L > 200000:
                continue
            if x["op"] == "dec":
                x["how"] = x["k"] = r.choice([0, 1, 1]) if bound < 4000 else 1
            if x["op"] == "eq":
                x["how"], x["k"] = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7]), r.randint(0, L - 1)
            if x["op"] == "split":
                x["k"] = r.choice([0, 1, -5, r.randint(0, 10 ** 9)])
                x["how"] = r.choice([0, 1, 2, 5])
            if x["op"] == "enc":
                x["vs"] = [r.randint(-9, 9) for _ in range(L)]
                x["how"] = r.randint(0, 4)
            ops.append(x)
        out.append(dict(id="ar%d" % k, n=n, l=L, ops=ops, kind="batch" if L > 50 else "small"))
    return out


def run(ctx):
    b = ctx.build()
    ctx.model_check("DLog", CFG % (5, 4, "FALSE", "FALSE", "FALSE", ""), "DLog_5", workers=6)
    ctx.sanity_mutant("DLog", CFG % (4, 4, "TRUE", "FALSE", "FALSE", ""), "DLog_coupled")
    ctx.sanity_mutant("DLog", CFG % (4, 4, "FALSE", "TRUE", "FALSE", ""), "DLog_leaky")
    if ctx.thorough:
        ctx.model_check("DLog", CFG % (8, 7, "FALSE", "FALSE", "FALSE", ""), "DLog_8", workers=7, timeout=1200)
    ctx.judge(b, "dlog", dlog_cases(ctx), "ArithTrace", key=lambda c: c["kind"], vkw=dict(env=dict(KIND="dlog")), isolate=True, per_case=100)
    ctx.judge(b, "arith", arith_cases(ctx), "ArithTrace", key=lambda c: c["kind"], vkw=dict(env=dict(KIND="arith")))
