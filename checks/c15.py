"""C15: adding/removing a server. spec/AddRm.tla (versions of a data set; wrong designs rejected) generates
histories of additions and removals; they run through the real protocol and AddRmTrace judges every version."""
CFG = """SPECIFICATION Spec
CONSTANTS Servers={%s} N=%d B=%d MaxOps=%d Design="%s" Emitting=%s
INVARIANTS Right Back
%sVIEW View
CHECK_DEADLOCK FALSE
"""


def cases(ctx):
    r = ctx.rng
    gen = ctx.generate("AddRm", CFG % ("1, 2, 3", 1, 1, 6, "right", "TRUE", "CONSTRAINT EmitCase\n"), "AddRm_sim", num=ctx.pick(2500, 12000), depth=8)
    hists = [c["ops"] for c in gen if len(c["ops"]) >= 2]
    r.shuffle(hists)
    # over and back, by every server and both ways round
    for s in (1, 2):
        for a in (True, False):
            hists.insert(0, [dict(base=1, s=s, add=a), dict(base=2, s=s, add=not a)])
    out = []
    sizes = [0, 1, 2, 3, 5, 99, 100, 101, 102, 199, 200, 201, 300, 301]
    if ctx.thorough:
        sizes += [400, 401, 777, 1000, 1001]
    for k in range(ctx.pick(300, 2500)):
        n = sizes[k % len(sizes)] if k % 3 else r.choice([0, 1, 2, 4, 10])
        proofs = k // len(sizes) % 2 == 0 or n < 4 and r.random() < .5
        h = hists[k % len(hists)]
        if n > 50:
            h = h[:3 if proofs else 4]
        vals = [r.choice([0, 1, -1, r.randint(-3000, 3000)]) for _ in range(n)]
        if n > 1 and r.random() < .7:      # all different: any exchange shows
            vals = r.sample(range(-2000, 2000), n)
        ops = [dict(o, proofs=proofs if n > 50 else r.random() < (.8 if proofs else .1)) for o in h]
        out.append(dict(id="ar%d" % k, vals=vals, form=r.choice(["", "", "clear", "mix"]), ops=ops,
                        kind="%s%s" % ("empty" if n == 0 else "small" if n < 50 else "batches", ", proofs" if any(o["proofs"] for o in ops) else "")))
    return out


def run(ctx):
    b = ctx.build()
    ctx.model_check("AddRm", CFG % ("1, 2", 5, 2, ctx.pick(3, 4), "right", "FALSE", ""), "AddRm_5", workers=6, timeout=1500)
    for d in ("sign", "batch", "inplace", "last", "order"):
        ctx.sanity_mutant("AddRm", CFG % ("1, 2", 5, 2, 2, d, "FALSE", ""), "AddRm_" + d)
    ctx.judge(b, "addrm", cases(ctx), "AddRmTrace", key=lambda c: c["kind"])
