"""C09: proofs of correct operations verify. spec/Sigma.tla (completeness), ProofList.tla (lists, shares; wrong designs
rejected), real proofs of all types, sizes and shares judged by ProofTrace, and the proofs that servers publish while
they run the protocols (KIND=run)."""
import c04
import prooflib as P
import ringlib


def run(ctx):
    b = ctx.build()
    r = ctx.rng
    P.models(ctx, "Complete HonestAll")
    ctx.sanity_mutant("ProofList", P.LIST % (5, 2, "batchwise", "FALSE", "Faithful", ""), "ProofList_batchwise")
    ctx.sanity_mutant("ProofList", P.LIST % (5, 2, "overrun", "FALSE", "Complete", ""), "ProofList_overrun")
    gen = ctx.generate("ProofList", P.LIST % (5, 1, "right", "TRUE", "Complete", "CONSTRAINT EmitCase\n"), "ProofList_sim", num=ctx.pick(600, 3000), depth=4)
    gen = [g for g in gen if all(a["k"] in ("swap", "dup", "drop") for a in g["alts"])]
    cases = []
    types = P.SMALL + ["agg", "shuf", "shuf"]
    for rep in range(ctx.pick(2, 12)):
        for i, g in enumerate(gen):
            cases.append(P.altered(ctx, g, types[(i + rep) % 7]))
    some = [g for g in gen if g["n"] > 0 and len(g["alts"]) == 0]
    for i in range(ctx.pick(25, 150)):
        c = P.altered(ctx, r.choice(some), (P.SMALL + ["agg"])[i % 5], big=True)
        c["pct"] = r.choice([c["pct"], .995, .501, .01, 1e-9, .99])
        cases.append(c)
    for typ in P.SMALL + ["agg"]:      # each type: elements of all kinds (own secrets, clear values) around a batch
        for n in (101, 200, 201):
            c = P.base(ctx, typ, n, "many")
            c.update(vals=[3, 0, 7, 1, 5, 2, 11], form="mix", single=False, pct=1.0)
            cases.append(c)
    for k in range(ctx.pick(200, 1000)):
        c = P.base(ctx, types[k % 7], r.choice([1, 2, 3, 7, 15]), "any share")
        if c["typ"] == "shuf":
            c["n"] = r.choice([1, 1, 2])
        c["pct"] = r.choice([r.random(), 1.0, 0.0, .3334])
        cases.append(c)
    for k in range(ctx.pick(8, 40)):      # shuffles around a batch of rows or columns
        c = P.base(ctx, "shuf", 1, "batch")
        c["rows"], c["cols"] = [(99, 2), (100, 1), (101, 1), (2, 100), (1, 101), (3, 99), (130, 1), (1, 1)][k % 8]
        cases.append(c)
    for k in range(3):      # lists of many shuffles, sums of many values
        c = P.base(ctx, "shuf", [99, 101, 130][k], "many")
        c.update(rows=2, cols=1)
        cases.append(c)
        c = P.base(ctx, "agg", 3, "many summands")
        c.update(cols=[99, 100, 201][k])
        cases.append(c)
    ctx.judge(b, "proof", P.finish(cases, "h"), "ProofTrace", keep=P.KEEP, key=lambda c: c["kind"], vkw=dict(env=dict(KIND="lists")))

    # what servers publish
    q = ctx.pick(30, 150)
    for fam, cs in (("ks", [c for c in ringlib.ks_cases(ctx) if len(c["data"]) and c["proofs"]]),
                    ("shuffle", [c for c in ringlib.shuffle_cases(ctx) if c["proofs"]]),
                    ("agg", [c for c in c04.cases(ctx, .5) if c["proofs"]])):
        r.shuffle(cs)
        cs = [dict(c, kind="published in a run") for c in cs[:q]]
        if fam == "ks":      # also around a batch
            for n in (99, 101, 130):
                cs.append(dict(id="ksb%d" % n, parent=r.choice(ringlib.TREES[2]), data=[r.randint(0, 9) for _ in range(n)], sched=[], hold=False, proofs=True, form="", kind="published in a run"))
        for c in cs:
            c["expect"] = fam != "agg"
        ctx.judge(b, fam, cs, "ProofTrace", keep=("expect",), key=lambda c: c["kind"], name="ProofTrace_" + fam, vkw=dict(env=dict(KIND="run")))
