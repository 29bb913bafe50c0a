"""C10: no proof verifies for a false statement. spec/Sigma.tla (soundness of the proofs of knowledge over a small group;
weak designs rejected), Compress.tla (shuffle compression), ProofList.tla (lists; generates alterations). The real
proofs are altered before, at and after their creation, forged with what a verifier's challenges depend on, and judged
by ProofTrace."""
import prooflib as P


def run(ctx):
    b = ctx.build()
    r = ctx.rng
    P.models(ctx, "Complete HonestAll Sound")
    ctx.sanity_mutant("Sigma", P.SIGMA % (3, "ks", "FALSE", "TRUE", "Sound"), "Sigma_ks_statement_not_hashed")
    ctx.sanity_mutant("Sigma", P.SIGMA % (3, "addrm", "TRUE", "FALSE", "Sound"), "Sigma_addrm_other_ephemeral_key")
    ctx.sanity_mutant("Compress", P.COMP % (3, "known"), "Compress_challenges_known")
    ctx.sanity_mutant("Compress", P.COMP % (3, "same"), "Compress_same_challenge")
    ctx.sanity_mutant("ProofList", P.LIST % (5, 2, "skips", "FALSE", "Sound", ""), "ProofList_skips")
    gen = ctx.generate("ProofList", P.LIST % (5, 2, "right", "TRUE", "Sound", "CONSTRAINT EmitCase\n"), "ProofList_sim", num=ctx.pick(900, 6000), depth=5)
    gen = [g for g in gen if g["alts"]]
    r.shuffle(gen)
    cases = []
    for i, g in enumerate(gen):
        cases.append(P.altered(ctx, g, ["ks", "ddt", "add", "addrm", "agg", "shuf", "shuf"][i % 7]))
    big = [g for g in gen if g["n"] > 0]
    for i in range(ctx.pick(20, 120)):
        cases.append(P.altered(ctx, r.choice(big), (P.SMALL + ["agg"])[i % 5], big=True))
    for typ in P.SMALL + ["agg"]:      # each type: an element behind the first batch is false
        for n in (101, 201):
            c = P.base(ctx, typ, n, "many")
            c.update(vals=[3, 0, 7, 1, 5, 2, 11], form="mix", single=False, pct=1.0)
            c["alts"] = [dict(when="post", how="rnd", el=r.choice([100, n - 1]), el2=0, f=r.randint(0, 1000), f2=r.randint(0, 1000))]
            cases.append(c)
    c = P.base(ctx, "shuf", 101, "many")
    c.update(rows=2, cols=1, single=False, pct=1.0, alts=[dict(when="post", how="rnd", el=100, el2=0, f=r.randint(0, 1000), f2=r.randint(0, 1000))])
    cases.append(c)
    # every forgery on its own
    for typ in P.SMALL:
        for how in ("forge", "own"):
            for f in range(2):
                for f2 in range(3):
                    for n in (1, 3):
                        c = P.base(ctx, typ, n, "forged")
                        c["alts"] = [dict(when="post", how=how, el=r.randrange(n), el2=0, f=f, f2=f2)]
                        cases.append(c)
    for typ in P.SMALL:      # a point of the statement chosen after the challenge
        for f in range(5):
            c = P.base(ctx, typ, 1, "forged")
            c["alts"] = [dict(when="post", how="late", el=0, el2=0, f=f, f2=r.randint(0, 5))]
            cases.append(c)
            c = dict(c, alts=[dict(when="post", how="unproven", el=0, el2=0, f=f, f2=0)])
            cases.append(c)
    for how in ("move", "swapcols", "lincomb", "forge"):
        for form in ("", "clear", "mix"):
            for cols in (2, 3):
                c = P.base(ctx, "shuf", 1, "forged")
                c.update(rows=r.choice([1, 2, 4]), cols=cols, form=form, alts=[dict(when="post" if how == "forge" else "pre", how=how, el=0, el2=0, f=r.randint(0, 5), f2=r.randint(0, 5))])
                cases.append(c)
    for f in range(4):      # two columns of a row changed against each other, in the output or the input
        for rows, cols, row, j in ((1, 2, 0, 0), (1, 3, 0, 1), (2, 2, 1, 0), (3, 3, 0, 0), (3, 3, 0, 1), (3, 3, 1, 1), (4, 3, 3, 1), (4, 2, 3, 0)):
            c = P.base(ctx, "shuf", 1, "forged")
            c.update(rows=rows, cols=cols, alts=[dict(when="post", how="columns", el=0, el2=0, f=f + 4 * j, f2=row)])
            cases.append(c)
    for k in range(ctx.pick(2, 10)):      # rows around a batch
        c = P.base(ctx, "shuf", 1, "many rows")
        c.update(rows=r.choice([99, 100, 101]), cols=r.choice([1, 2]), alts=[dict(when="post", how=r.choice(P.HOWS + ["shape"]), el=0, el2=0, f=r.randint(0, 9999), f2=r.randint(0, 9999))])
        cases.append(c)
    ctx.judge(b, "proof", P.finish(cases, "p"), "ProofTrace", keep=P.KEEP, key=lambda c: c["kind"], vkw=dict(env=dict(KIND="lists")))
