"""C17: precomputed shuffle randomness. spec/Precompute.tla (all histories of the file, wrong designs rejected);
histories from TLC and richer damage run on the real code; whole surveys that find such files."""
import surveylib
CFG = """SPECIFICATION Spec
CONSTANTS Keys={1,2} Widths={1,2,3} MaxOps=%d Policy="%s" Emitting=%s
INVARIANT Usable
%sVIEW View
CHECK_DEADLOCK FALSE
"""
EDITS = ["swap", "onekey", "shortS", "shortC", "shortline", "one", "nolines", "turned", "otherscalar", "norandom", "emptypoint", "droplines", "rotate"]


def damage(r):
    o = r.choice(["cut", "cut", "flip", "flip", "garbage", "tail", "delete", "interrupt"] + EDITS)
    x = dict(op=o, seed=r.randrange(1 << 30), k=r.choice([1, 2]), w=r.choice([1, 2, 3, 6]))
    if o in ("cut", "interrupt"):
        x["at"] = r.choice([0, 1, 20, 500, 900, 999, r.randint(0, 999)])
    if o == "flip":
        x["n"] = r.choice([1, 1, 1, 5, 100])
        x["at"] = r.choice([0, 0, r.randint(1, 1000)]) if x["n"] == 1 else 0
    if o in ("garbage", "tail"):
        x["n"] = r.choice([0, 1, 2, 30, 5000])
    return x


def cases(ctx):
    r = ctx.rng
    out = []
    gen = ctx.generate("Precompute", CFG % (6, "check", "TRUE", "CONSTRAINT EmitCase\n"), "Precompute_sim", num=ctx.pick(60, 600), depth=8)
    r.shuffle(gen)
    for c in gen[:ctx.pick(260, 4000)]:
        ops = []
        for o in c["ops"]:
            x = dict(o)
            if x["op"] in ("cut", "interrupt"):
                x["at"] = r.choice([0, 1, 500, 999, r.randint(0, 999)])
            if x["op"] == "mix":
                x["op"] = r.choice(EDITS)
            x.update(seed=r.randrange(1 << 30), app=r.random() < .93, n=1)
            ops.append(x)
        out.append(dict(ops=ops, kind="spec history"))
    for k in range(ctx.pick(180, 3000)):
        ops = []
        n = 0
        for _ in range(r.choice([2, 4, 6, 10])):
            if r.random() < .45:
                x = damage(r)
                if r.random() < .5 and ops and ops[-1]["op"] == "create":      # damage matters most to a survey that could use the file
                    ops += [x, dict(ops[-1], n=1)]
                    continue
                ops.append(x)
            else:
                ops.append(dict(op="create", k=r.choice([1, 1, 2, 3]), w=r.choice([1, 2, 3, 4, 7, 15]), app=r.random() < .9,
                                n=r.choice([1, 1, 1, 2, 5]), seed=0))
        ops.append(dict(op="create", k=1, w=2, app=True, n=1, seed=0))
        out.append(dict(ops=ops, kind="damage"))
    for e in EDITS:      # each edit right between two surveys that could share the file
        for s in range(ctx.pick(3, 20)):
            c = dict(op="create", k=1, w=r.choice([2, 3, 5]), app=True, n=1, seed=0)
            out.append(dict(ops=[c, dict(op=e, seed=r.randrange(1 << 30)), dict(c, w=r.choice([1, c["w"]])), dict(c)], kind="edit"))
    for i, c in enumerate(out):
        c["id"] = "pc%d" % i
    return out


def survey_cases(ctx):
    """Surveys of the app (data from a file, precomputation file kept) in one process, with other surveys' files around."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(50, 200)):
        size = r.choice([1, 2, 3])
        s = surveylib.survey(r, size, app=True)
        s["proofs"] = r.random() < .3
        s["ros"] = surveylib.roster(r, size)
        s["gob"] = [damage(r) for _ in range(r.choice([0, 0, 1, 2]))]
        if r.random() < .3:
            s["gob"].insert(0, dict(op="interrupt", k=r.choice([1, 2, 50]), w=r.choice([1, 2, 9]), at=1000, seed=1))
        out.append(dict(id="pq%d" % k, surveys=[s], events=[dict(e="create"), dict(e="ask")], hold=False, par=False, kind="app survey"))
    # rows that are mostly of one kind of attribute, and no (or a narrow) file of earlier surveys
    for k, shape in enumerate([(1, 0, 6), (1, 5, 1), (6, 0, 1), (1, 0, 12), (1, 12, 0), (12, 1, 0), (1, 6, 6), (0, 0, 9), (0, 9, 0)] * ctx.pick(1, 6)):
        size = r.choice([1, 2])
        s = surveylib.survey(r, size, app=True, shape=shape)
        for d in s["dps"]:
            d["resp"] = d["resp"] or surveylib.survey_like(r, s, None, 1)
        s.update(proofs=False, ros=surveylib.roster(r, size), gob=[dict(op="delete", seed=0)] if r.random() < .7 else [dict(op="interrupt", k=1, w=1, at=1000, seed=1)])
        s["count"] = s["count"] or not s["ns"]
        out.append(dict(id="pl%d" % k, surveys=[s], events=[dict(e="create"), dict(e="ask")], hold=False, par=False, kind="app lopsided"))
    return out


def run(ctx):
    b = ctx.build()
    ctx.model_check("Precompute", CFG % (5, "check", "FALSE", ""), "Precompute_5")
    for p in ("blind", "keyonly"):
        ctx.sanity_mutant("Precompute", CFG % (3, p, "FALSE", ""), "Precompute_" + p)
    if ctx.thorough:
        ctx.model_check("Precompute", CFG % (9, "check", "FALSE", ""), "Precompute_9", workers=7)
    ctx.judge(b, "precomp", cases(ctx), "PrecomputeTrace", key=lambda c: c["kind"])
    surveylib.judge(ctx, b, survey_cases(ctx), "pre")
