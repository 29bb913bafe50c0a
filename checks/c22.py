"""C22: lost messages and lost servers, on every protocol and on the whole service. The specifications with
Faults=TRUE say that nothing is delivered then; the traces of the real code are judged the same way."""
import ringlib, surveylib, c04


def fault(r, n):
    d = r.randint(1, n)
    return dict(drop=d, dropn=r.choice([0, 1, 1, 2, 2, 3, 4]), dropt=r.choice([0, 0, r.randint(1, n)]), timeout=500)


def protocol_cases(ctx):
    r = ctx.rng
    res = {k: [] for k in ("agg", "ks", "shuffle", "ddt", "sddt")}
    trees = ringlib.TREES
    for k in range(ctx.pick(60, 500)):
        n = r.choice([2, 3, 3, 4, 5])
        t = r.choice(trees[n])
        m = [[r.randint(0, 60) for _ in range(2)] for _ in range(r.choice([1, 3, 5]))]
        res["agg"].append(dict(fault(r, n), parent=t, local=c04.content(r, n, False), sched=[], hold=False, proofs=False))
        res["ks"].append(dict(fault(r, n), parent=t, data=[r.randint(0, 60) for _ in range(r.choice([1, 3, 5]))], sched=[], hold=False, proofs=False))
        if k % 2:
            res["shuffle"].append(dict(fault(r, n), parent=t, rows=m, pre="", proofs=False))
            res["ddt"].append(dict(fault(r, n), n=n, runs=[dict(root=r.randint(1, n), data=[r.randint(0, 60) for _ in range(3)])], proofs=False))
        if k % 4 == 0:
            res["sddt"].append(dict(fault(r, n), n=n, root=r.randint(1, n), runs=[m], proofs=False))
    for p, cs in res.items():
        for i, c in enumerate(cs):
            c.update(id="%s%d" % (p, i), kind="lost messages")
    return res


def run(ctx):
    b = ctx.build()
    ctx.model_check("KeySwitch", ringlib.KS % (4, 1, "TRUE", "TRUE", "FALSE", ""), "KeySwitch_N4_loss")
    for k in ("shuffle", "ddt", "sddt"):
        ctx.model_check("Ring", ringlib.RING % (3, 2, k, "TRUE", 1, "FALSE", "0,1", ""), "Ring_%s_N3_loss" % k)
    ctx.model_check("Survey", surveylib.cfg(2, 3, live=True, losses=2), "Survey_2_loss")
    ctx.model_check("Survey", surveylib.cfg(3, 3, losses=1), "Survey_3_loss")
    for g in ("tag", "ddt"):
        ctx.sanity_mutant("Survey", surveylib.cfg(2, 3, losses=1, goeson=g), "Survey_goeson_" + g)
    if ctx.thorough:
        ctx.model_check("Survey", surveylib.cfg(3, 3, live=True, losses=2), "Survey_3_loss_live", workers=7, timeout=1500)
        ctx.model_check("Survey", surveylib.cfg(3, 5, losses=2), "Survey_3_5_loss", workers=7, timeout=1500)
    cs = protocol_cases(ctx)
    ctx.judge(b, "agg", cs.pop("agg"), "AggTrace", key=lambda c: c["kind"], shards=20)
    for k, x in cs.items():
        ringlib.judge(ctx, b, k, x, shards=20)
    surveylib.judge(ctx, b, surveylib.fault_cases(ctx), "fault", mode="fault", env=dict(CONN_TIMEOUT="3s"), shards=14, per_case=100)
