"""C11: the store. spec/Store.tla (histories, wrong designs rejected); histories generated by TLC and
seeded longer ones (all kinds of pushes and pulls, also concurrent) run on the real store; StoreTrace folds
the specification's operators over each history."""
CFG = """SPECIFICATION Spec
CONSTANTS MaxOps=%d Reuse=%s KeepClear=%s Emitting=%s
INVARIANTS ExactlyOnce Unchanged
%sVIEW View
CHECK_DEADLOCK FALSE
"""


def row(r, ng, nw, na, t=0, g=None):
    vs = [0, 1, 2, 11, 12, 21]
    return dict(t=t, g=g if g is not None else [r.choice(vs) for _ in range(ng)], w=[r.choice([0, 1, 10]) for _ in range(nw)],
                a=[r.choice([0, 1, 5, r.randint(0, 300)]) for _ in range(na)])


def history(r, n, noise=False, kinds=None, ragged=False):
    ng, nw, na = r.choice([0, 1, 2, 3]), r.choice([0, 1, 2]), r.choice([1, 2, 3])
    genc = [r.choice([0, 1]) for _ in range(ng)]
    wenc = [r.choice([0, 1]) for _ in range(nw)]
    tags = {t: [t, t * 7 % 5][:max(ng, 1)] for t in range(1, 5)}
    ops = []
    pend = False
    for _ in range(n):
        k = r.choice(kinds or ["ins", "ins", "ins", "pulldp", "pushsh", "pullsh", "pushdet", "pushdet", "pullloc", "pushgr", "pullgr", "pushres", "pullres"])
        o = dict(op=k)
        m = r.choice([1, 1, 2, 4])
        if k == "ins":
            allclear = r.random() < .5
            o.update(rows=[row(r, ng, nw, na) for _ in range(m)], genc=[0] * ng if allclear else genc, wenc=[0] * nw if allclear else wenc,
                     aenc=[r.choice([0, 1]) for _ in range(na)], proofs=r.random() < .3)
        elif k == "pushsh":
            o["rows"] = [row(r, ng, nw, na) for _ in range(m)]
        elif k in ("pushdet", "pushgr"):
            ts = [r.choice(list(tags)) for _ in range(m)]
            if k == "pushgr":
                ts = sorted(set(ts))
            o["rows"] = [dict(row(r, 0, 0, na if not ragged else r.randint(1, na + 1)), t=t, g=tags[t], w=[]) for t in ts]
            o["proofs"] = r.random() < .3
        elif k == "pushres":
            if pend:
                continue
            pend = True
            o["rows"] = [dict(row(r, ng, 0, na), w=[]) for _ in range(m)]
        elif k == "pullres":
            pend = False
        if k in ("pullgr", "pullres"):
            o["dp"] = bool(noise) and r.random() < .7
            o["noise"] = r.choice([-3, 1, 7, 100]) if o["dp"] else 0
        ops.append(o)
    return ops


FINAL = [dict(op=k) for k in ("pulldp", "pullsh", "pullloc", "pullgr", "pullres", "pulldp", "pullsh", "pullloc", "pullgr", "pullres")]


def cases(ctx, noise=False):
    r = ctx.rng
    out = []
    if not noise:
        for c in ctx.generate("Store", CFG % (7, "FALSE", "FALSE", "TRUE", "CONSTRAINT EmitCase\n"), "Store_sim", num=ctx.pick(150, 1000), depth=9):
            ops = []
            for o in c["ops"]:
                if o["op"] == "ins":
                    ops.append(dict(op="ins", rows=[dict(t=0, g=o["g"], w=[1], a=o["a"])], genc=[int(o["enc"])], wenc=[int(o["enc"])], aenc=[1]))
                else:
                    ops.append(dict(op="pulldp"))
            out.append(dict(threads=[ops], final=FINAL, kind="spec history"))
    for k in range(ctx.pick(150, 1200)):
        out.append(dict(threads=[history(r, r.choice([3, 8, 20, 40]), noise, ["pushgr", "pushres", "pullgr", "pullres"] if noise else None, ragged=r.random() < .2)],
                        final=FINAL, kind="noise" if noise else "history"))
    if not noise:
        for k in range(ctx.pick(60, 500)):
            kinds = r.choice([["ins"], ["ins", "ins", "ins", "pulldp"], ["pushdet", "pullloc"], ["pushdet"], ["pushsh", "pullsh"], ["ins", "pushsh", "pushdet", "pulldp", "pullloc"]])
            s = r.randint(0, 10 ** 9)
            import random
            th = [history(random.Random(s), 12, kinds=kinds) for _ in range(r.choice([2, 4, 8]))]
            out.append(dict(threads=th, final=FINAL, kind="concurrent"))
    wide = [-1, 1 << 32, (1 << 32) + 1, -(1 << 32), (1 << 62) + 11, (1 << 31), 11000, 256, 65536, -11, (1 << 63) - 1, -(1 << 63)]
    for i, c in enumerate(out):
        c["id"] = "st%d" % i
        if c["kind"] in ("history", "concurrent") and i % 3 == 0:      # grouping and filter values of any size and sign
            vs = r.sample([2, 10, 11, 12, 21], r.randint(1, 5))
            c["wide"] = [dict(v=v, **{"is": str(x)}) for v, x in zip(vs, r.sample(wide, len(vs)))]
    return out


def run(ctx):
    b = ctx.build()
    ctx.model_check("Store", CFG % (5, "FALSE", "FALSE", "FALSE", ""), "Store_5ops", workers=6)
    ctx.sanity_mutant("Store", CFG % (5, "TRUE", "FALSE", "FALSE", ""), "Store_reused_array")
    ctx.sanity_mutant("Store", CFG % (5, "FALSE", "TRUE", "FALSE", ""), "Store_kept_sums")
    if ctx.thorough:
        ctx.model_check("Store", CFG % (7, "FALSE", "FALSE", "FALSE", ""), "Store_7ops", workers=7, timeout=1200)
    ctx.judge(b, "store", cases(ctx), "StoreTrace", key=lambda c: c["kind"], gomaxprocs=4)
