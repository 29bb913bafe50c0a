"""Surveys on the real service: random queries and data (C01), schedules of the service's messages from
spec/Survey.tla (C02), several surveys at the same time (C03)."""
CFG = """SPECIFICATION %s
CONSTANTS N=%d Prov=%d CreationBarrier=%s UploadBarrier=%s TagBarrier=%s StalePut=%s Losses=%d GoesOn="%s" Emitting=%s
INVARIANTS %s Complete ForTheQuerier
%sVIEW View
CHECK_DEADLOCK FALSE
"""


def cfg(n, prov, cb=True, ub=True, tb=True, stale=False, live=False, emit=False, losses=0, goeson="none"):
    t = lambda b: "TRUE" if b else "FALSE"
    return CFG % ("FairSpec" if live else "Spec", n, prov, t(cb), t(ub), t(tb), t(stale), losses, goeson, t(emit),
                  "AckMeansKnown" + ("" if losses else " NothingRefused"),
                  ("PROPERTY %s\n" % ("Ends" if losses else "Answered") if live else "") + ("CONSTRAINT EmitCase\n" if emit else ""))


def model(ctx):
    ctx.model_check("Survey", cfg(2, 3, live=True), "Survey_2_live")
    ctx.model_check("Survey", cfg(3, 3), "Survey_3")
    ctx.sanity_mutant("Survey", cfg(2, 3, cb=False), "Survey_nocreationbarrier")
    ctx.sanity_mutant("Survey", cfg(2, 3, ub=False), "Survey_nouploadbarrier")
    ctx.sanity_mutant("Survey", cfg(2, 3, tb=False), "Survey_notagbarrier")
    ctx.sanity_mutant("Survey", cfg(2, 3, stale=True), "Survey_staleput")
    if ctx.thorough:
        ctx.model_check("Survey", cfg(3, 6), "Survey_3_6", workers=7)
        ctx.model_check("Survey", cfg(3, 5, live=True), "Survey_3_live", workers=7, timeout=1500)
        ctx.model_check("Survey", cfg(4, 4), "Survey_4", workers=7, timeout=1500)


PIPE = """SPECIFICATION %s
CONSTANTS N=%d MaxRows=%d MaxAll=%d Vals=%s Design="%s" Emitting=%s
INVARIANT Exact
%sVIEW View
CHECK_DEADLOCK FALSE
"""
WRONG = ["copyadded", "countadded", "nowhereadded", "columns", "ownsecret", "nofilter", "last", "early", "partial", "clearbygroup"]


def pipe_model(ctx):
    """What happens to the data of a survey, server by server."""
    ctx.model_check("Pipeline", PIPE % ("Spec", 2, 2, 3, "{1,2}", "right", "FALSE", ""), "Pipeline_2", workers=7)
    ctx.model_check("Pipeline", PIPE % ("FairSpec", 2, 1, 2, "{1}", "right", "FALSE", "PROPERTY Ends\n"), "Pipeline_live")
    for d in WRONG if ctx.thorough else ctx.rng.sample(WRONG, 3):
        ctx.sanity_mutant("Pipeline", PIPE % ("Spec", 2, 2, 2, "{1}" if d != "columns" else "{1,2}", d, "FALSE", ""), "Pipeline_" + d)
    if ctx.thorough:
        ctx.model_check("Pipeline", PIPE % ("Spec", 3, 2, 3, "{1}", "right", "FALSE", ""), "Pipeline_3", workers=7, timeout=1500)


def pipe_cases(ctx):
    """The data, queries and orders of uploads and request of the specification's behaviours, on the real service."""
    r = ctx.rng
    out = []
    for n, rows, num in ((2, 2, 24), (3, 1, 16)):
        gen = ctx.generate("Pipeline", PIPE % ("Spec", n, rows, 2 * n, "{1,2}", "right", "TRUE", "CONSTRAINT EmitCase\n"), "Pipeline_sim%d" % n, num=ctx.pick(num, num * 8), depth=8 * n + 4)
        for c in gen[:ctx.pick(num, num * 8)]:
            s = survey(r, n)
            fl = 0 if c["clear"] else 1
            text = {"eq": "v0 == v1", "ne": "v0 != v1", "true": ""}[c["ast"]["op"]]
            dps, ev = [], [dict(e="create")]
            if not any(e["e"] == "ask" for e in c["ev"]):
                continue
            for e in c["ev"]:
                if e["e"] == "ask":
                    ev.append(dict(e="ask"))
                    continue
                x = c["data"][e["at"] - 1][e["k"] - 1]
                dps.append(dict(at=e["at"], rep=1, resp=[dict(g=[x["g"]], w=[x["w"]], s=[x["v"]], genc=[fl], wenc=[fl], senc=[fl], miss=[], gm=[], wm=[], x=[])]))
                ev.append(dict(e="up", d=len(dps)))
            s.update(ns=1, ng=1, sn=["s0"], gn=["g0"], wn=["w0"], where=[1], wide=[], pred=text, ast=c["ast"], count=True, cpos=1, dps=dps, proofs=False,
                     extra=False, leave=False, asker=1, ros=roster(r, n))
            out.append(dict(id="pi%d" % len(out), surveys=[s], events=ev, hold=False, par=False, kind="pipeline"))
    return out


# ---------------------------------------------------------------- queries and data
WIDE = [-1, -2, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 61) + 1, -(1 << 61), 256, 100001]      # (the message library itself loses integers beyond 2^62)


def pred(r, nw, depth=2):
    """A random predicate over the variables of nw WHERE attributes: (tree, text)."""
    if depth == 0 or r.random() < .35:
        if r.random() < .75:
            i = r.randrange(nw)
            a, b = 2 * i, 2 * i + 1
        else:
            a, b = r.randrange(2 * nw), r.randrange(2 * nw)
        if r.random() < .3:
            a, b = b, a
        op = r.choice(["eq", "eq", "ne"])
        return dict(op=op, a=a, b=b), "v%d %s v%d" % (a, {"eq": "==", "ne": "!="}[op], b)
    op = r.choice(["and", "or", "not"])
    l, lt = pred(r, nw, depth - 1)
    if op == "not":
        return dict(op="not", l=l), "!(%s)" % lt
    x, xt = pred(r, nw, depth - 1)
    return dict(op=op, l=l, r=x), "(%s) %s (%s)" % (lt, {"and": "&&", "or": "||"}[op], xt)


def names(r, p, n, others):
    """Names of n attributes as a query lists them: any order, now and then the same one twice, or names from elsewhere."""
    if r.random() < .5:
        return [p + str(i) for i in range(n)]
    pool = [p + str(i) for i in range(max(n, r.choice([n, 12, 101])))] if r.random() < .7 else ["age", "Age", "a", "aa", "age ", "zip code", "s", "g", "w", "é", "count_", "0", "1", "10", "x.y", "_", "sum", "d", "e", "f"]
    if r.random() < .15:
        pool = pool + others
    out = r.sample(pool, n)
    if n > 1 and r.random() < .3:
        i, j = r.sample(range(n), 2)
        out[i] = out[j]
    return out


def fit(r, s, x):
    """Gives one attribute one value; adds attributes that the query doesn't name and leaves out ones that are zero."""
    for p, vs, fl, left in (("gn", "g", "genc", "gm"), ("wn", "w", "wenc", "wm"), ("sn", "s", "senc", None)):
        first = {}
        for i, n in enumerate(s[p][:len(x[vs])]):
            j = first.setdefault(n, i)
            x[vs][i], x[fl][i] = x[vs][j], x[fl][j]
            if vs == "s":
                x["miss"] = [m for m in x["miss"] if m != i + 1] + ([i + 1] if j + 1 in x["miss"] else [])
        if left:
            gone = {n for i, n in enumerate(s[p][:len(x[vs])]) if x[vs][i] == 0 and s["leave"] and r.random() < .5
                    and not (vs == "w" and any(z["v"] == 0 for z in s["wide"]))}
            x[left] = [i + 1 for i, n in enumerate(s[p][:len(x[vs])]) if n in gone]
    x["x"] = []
    if s["extra"]:
        for p, k in (("g", "gn"), ("w", "wn"), ("s", "sn")):
            for n in ("extra", p + "999", "", "count2", p):
                if n not in s[k] and r.random() < .25:
                    x["x"].append(dict(p=p, n=n, v=r.randint(0, 9), enc=r.choice([0, 0, 1])))
    return x


def survey(r, size, maxresp=4, big=0, app=False, shape=None):
    """size servers; returns the survey as the driver and the specification read it."""
    ns, ng, nw = r.choice([1, 1, 2, 3]), r.choice([0, 1, 1, 2, 3]), r.choice([0, 0, 1, 1, 2, 3])
    count = r.random() < .3
    if count and r.random() < .3:
        ns = 0
    many = not big and r.random() < .04
    if many:
        ns, ng, nw, maxresp = r.choice([ns, 7, 11, 12]), r.choice([ng, 5, 8, 11]), r.choice([nw, 5, 11, 12]), 2
    if shape:
        (ns, ng, nw), maxresp = shape, 2
    where = [r.randint(0, 2) for _ in range(nw)]
    if nw and r.random() < .9:
        ast, text = pred(r, nw)
    else:
        ast, text = dict(op="true"), r.choice(["", "v0 == v1"]) if not nw else ""
    ndp = r.randint(0, 4) if r.random() < .9 else 0
    ndp = max(ndp, 1) if r.random() < .95 else ndp
    dps = []
    mode = r.choice(["clear", "enc", "mix", "perdp"])
    miss = r.random() < .25
    gv, wv = r.choice([2, 3]), r.choice([2, 3])
    for d in range(ndp):
        m = mode if mode != "perdp" else r.choice(["clear", "enc", "mix"])
        resp = []
        for _ in range(big if big and d == 0 else r.choice([0, 1, 1, 2, maxresp])):
            def flags(n):
                return [0 if m == "clear" else 1 if m == "enc" else r.randint(0, 1) for _ in range(n)]
            s = [r.choice([0, 1, 5, r.randint(0, 300)]) if not big else r.randint(0, 9) for _ in range(ns)]
            resp.append(dict(g=[r.randrange(gv) * (1 if not r.random() < .05 else 12) for _ in range(ng)], w=[r.randrange(wv) for _ in range(nw)], s=s,
                             genc=flags(ng), wenc=flags(nw), senc=[r.randint(0, 1) if m == "mix" else int(m == "enc" or r.random() < .5) for _ in range(ns)],
                             miss=[i + 1 for i in range(ns) if miss and r.random() < .3]))
            if app:      # the file holds the clear attributes before the encrypted ones
                x = resp[-1]
                x.update(genc=[r.randint(0, 1)] * ng, wenc=[r.randint(0, 1)] * nw, senc=[r.randint(0, 1)] * ns, miss=[])
        dps.append(dict(at=r.randint(1, size), rep=1 if app else r.choice([1, 1, 1, 2, 3]), resp=resp))
    if app:      # one upload per server, made by the servers themselves
        per = {}
        for d in dps:
            per.setdefault(d["at"], []).extend(d["resp"])
        dps = [dict(at=s, rep=1, resp=per.get(s, [])) for s in range(1, size + 1)]
    wide = []
    if nw and r.random() < .3:        # filter values may be any integers
        vs = r.sample([0, 1, 2], r.randint(1, 3))
        wide = [dict(v=v, **{"is": str(x)}) for v, x in zip(vs, r.sample(WIDE, len(vs)))]
    more = {}
    if not app:
        more = dict(gn=names(r, "g", ng, ["s0", "w0", "count"]), wn=names(r, "w", nw, ["s0", "g0", "count"]), sn=names(r, "s", ns, ["g0", "w0"]),
                    extra=r.random() < .2, leave=r.random() < .2, cpos=r.choice([ns, ns, r.randint(0, ns)]))
        more["wide"] = wide
        for d in dps:
            for x in d["resp"]:
                fit(r, more, x)
    return dict(more, ns=ns, ng=ng, where=where, wide=wide, pred=text, ast=ast, count=count, dps=dps, app=app, proofs=not many and r.random() < .25,
                omit=r.random() < .3, creator=r.randint(1, size), asker=r.randint(1, size), ck=r.choice(["", "other", "server"]),
                propose=r.choice(["", "", "a", "b", "@"]))


def roster(r, size, of=5):
    x = list(range(1, of + 1))
    r.shuffle(x)
    return x[:size]


def ups(s):
    return [] if s["app"] else [dict(e="up", d=i + 1) for i in range(len(s["dps"]))]


def kind(c):
    return c["kind"]


def query_cases(ctx):
    """One survey at a time, nothing held back: upload, then ask (the order of uploads is random)."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(400, 3000)):
        size = r.choice([1, 2, 2, 3, 3, 4, 5])
        big = 0
        if k % 12 == 11:
            size, big = r.choice([1, 2]), r.choice([99, 100, 101, 120, 205])
        s = survey(r, size, big=big, app=(k % 15 == 7))
        if big or size > 3:
            s["proofs"] = False
        s["ros"] = roster(r, size)
        u = ups(s)
        r.shuffle(u)
        ev = [dict(e="create")] + u + [dict(e="ask")]
        if r.random() < .2:     # the request is made while the uploads are still coming
            j = r.randint(1, len(ev) - 1)
            ev = ev[:j] + [dict(e="ask")] + ev[j:-1]
        out.append(dict(id="q%d" % k, surveys=[s], events=ev, hold=False, par=False,
                        kind="app" if s["app"] else "big" if big else "proofs" if s["proofs"] else "plain"))
    return out


def wide_cases(ctx):
    """rosters of many servers, and proofs of many rows"""
    r = ctx.rng
    out = []

    def add(s, kind):
        u = ups(s)
        r.shuffle(u)
        out.append(dict(id="wd%d" % len(out), surveys=[s], events=[dict(e="create")] + u + [dict(e="ask")], hold=False, par=False, kind=kind))
    for n in ctx.pick([6, 7, 8, 9], [6, 7, 8, 9] * 4):
        s = survey(r, n)
        while not any(d["resp"] for d in s["dps"]):
            s = survey(r, n)
        proto = r.choice([d for d in s["dps"] if d["resp"]])
        some = r.sample(range(1, n + 1), r.randint(n - 2, n))
        s["dps"] = [dict(at=a, rep=1, resp=survey_like(r, s, proto, r.choice([1, 2, 3]))) for a in some]
        s.update(proofs=False, ros=roster(r, n, 9))
        add(s, "many servers")
    for size, big in ctx.pick([(1, 101), (2, 100)], [(1, 101), (2, 100), (3, 101), (2, 201)]):
        s = survey(r, size, big=big)
        while not s["dps"]:
            s = survey(r, size, big=big)
        s.update(proofs=True, ros=roster(r, size))
        add(s, "many rows, proofs")
    return out


def schedule_cases(ctx):
    """The schedules of the specification, imposed on the real service."""
    r = ctx.rng
    plans = [(1, 1, 1), (2, 3, 40), (2, 2, 16), (3, 3, 40), (3, 6, 40), (3, 5, 30), (4, 7, 30), (3, 0, 6)]
    out = []
    for n, p, num in plans:
        g = ctx.generate("Survey", cfg(n, p, emit=True), "Survey_sim_%d_%d" % (n, p), num=ctx.pick(num * 3 // 2, num * 8), depth=90)
        for c in g[:ctx.pick(num * 3 // 2, num * 8)]:
            s = survey(r, n)
            proto = s["dps"][0] if s["dps"] else dict(at=1, rep=1, resp=[])
            s["dps"] = [dict(at=a, rep=1, resp=survey_like(r, s, proto, 3)) for a in c["prov"]]
            s["proofs"] = r.random() < .1
            s["ros"] = roster(r, n)
            s["creator"] = 1
            ev = [dict(e) for e in c["ev"]]
            s["asker"] = c["asker"]
            out.append(dict(surveys=[s], events=ev, hold=True, par=False, settle=r.choice([0, 2, 6, 15]), kind="schedule"))
    for k in range(ctx.pick(60, 300)):        # a request racing with an upload
        n = r.choice([1, 2, 3])
        s = survey(r, n)
        a = r.randint(1, n)
        s["dps"] = [dict(at=a, rep=1, resp=survey_like(r, s, None, r.choice([1, 30, 60, 90]))) for _ in range(r.choice([1, 2, 4]))]
        s["proofs"], s["ros"], s["asker"] = False, roster(r, n), r.choice([a, a, 1])
        ev = [dict(e="create"), dict(e="acked")] + [dict(e="upbegin", d=i + 1) for i in range(len(s["dps"]))]
        ev.insert(r.randint(3, len(ev)), dict(e="ask"))
        for _ in range(r.randint(0, 2)):
            ev.insert(r.randint(3, len(ev)), dict(e="sleep", ms=r.choice([1, 3, 8, 20])))
        out.append(dict(surveys=[s], events=ev, hold=False, par=False, kind="race"))
    # more data providers than any buffer may hold
    for many in ctx.pick([102], [101, 102, 130, 210]):
        s = survey(r, 2)
        s.update(ns=1, ng=1, sn=["s0"], gn=["g0"], cpos=1, where=[], pred="", ast=dict(op="true"), proofs=False, ros=roster(r, 2))
        s["dps"] = [dict(at=1, rep=1, resp=survey_like(r, s, None, 1)) for _ in range(many)] + [dict(at=2, rep=1, resp=survey_like(r, s, None, 1))]
        out.append(dict(surveys=[s], events=[dict(e="create")] + ups(s) + [dict(e="ask")], hold=False, par=False, kind="many providers"))
    for i, c in enumerate(out):
        c["id"] = "sc%d" % i
    return out


def survey_like(r, s, proto, n):
    out = []
    enc = r.choice([0, 1, 2])
    f = lambda k: [enc if enc < 2 else r.randint(0, 1) for _ in range(k)]
    for _ in range(n):
        out.append(dict(g=[r.randrange(2) for _ in range(s["ng"])], w=[r.randrange(2) for _ in s["where"]], s=[r.randint(0, 50) for _ in range(s["ns"])],
                        genc=f(s["ng"]), wenc=f(len(s["where"])), senc=f(s["ns"]), miss=[]))
        if not s["app"]:
            fit(r, s, out[-1])
    return out


NEAR = ["", "", "empty", "upper", "upper", "prefix", "suffix", "longer", "before", "other", "nodash", "elsewhere"]


def parallel_cases(ctx):
    """Several surveys at once, each with its own query, data, roster and querier; unknown ids in between."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(220, 1200)):
        m = r.choice([2, 2, 3, 4, 6])
        par = r.random() < .7
        ss, glob = [], []
        for i in range(m):
            n = r.choice([1, 2, 3])
            s = survey(r, n)
            s["proofs"] = r.random() < .1
            s["ros"] = roster(r, n, r.choice([3, 5]))
            u = ups(s)
            r.shuffle(u)
            ev = [dict(e="create")] + u + [dict(e="ask")]
            if r.random() < .3:
                j = r.randint(1, len(ev) - 1)
                ev = ev[:j] + [dict(e="ask")] + ev[j:-1]
            for _ in range(r.choice([0, 1, 2, 3])):
                ev.insert(r.randint(1, len(ev)), dict(e=r.choice(["unknown", "aunknown"]), d=r.randint(0, 99), to=r.randint(1, n), t=r.choice(NEAR)))
            s["events"] = ev if par else []
            ss.append(s)
            glob.append([dict(e, s=i + 1) for e in ev])
        ev = []
        if not par:             # one interleaving of all of them
            while any(glob):
                q = r.choice([x for x in glob if x])
                ev.append(q.pop(0))
        out.append(dict(id="pa%d" % k, surveys=ss, events=ev, hold=False, par=par, kind="parallel" if par else "interleaved"))
    return out


def fault_cases(ctx):
    """A survey (the first) loses messages or a server; others on servers that are up must be served as ever."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(84, 600)):
        n = r.choice([2, 2, 3, 3, 4])
        a = survey(r, n)
        a["dps"] = a["dps"] or [dict(at=1, rep=1, resp=[])]
        a.update(proofs=False, ros=list(range(1, n + 1)), sound=False)
        for d in a["dps"]:
            d["resp"] = d["resp"] or survey_like(r, a, None, 2)
        if r.random() < .75:        # data that counts, at (nearly) every server
            a["pred"], a["ast"] = "", dict(op="true")
            for s in range(1, n + 1):
                if r.random() < .9:
                    a["dps"].append(dict(at=s, rep=1, resp=survey_like(r, a, None, 2)))
            a["where"], a["wide"] = [], []
            for d in a["dps"]:
                for x in d["resp"]:
                    x["w"], x["wenc"] = [], []
        c = dict(surveys=[a], hold=False, par=False, wait=60000, dead=0)
        ev = [dict(e="create")] + ups(a) + [dict(e="ask")]
        if k % 7 == 6:
            c["dead"] = r.randint(1, n)
            ev.insert(r.randint(1, len(ev)), dict(e="die"))
            if r.random() < .5:
                ev.insert(len(ev) - (ev[-1]["e"] == "die"), dict(e="sleep", ms=r.choice([1, 5, 20])))
            c["kind"] = "server lost"
        else:
            c["dropt"] = ["create", "ack", "results", "ddt", "proto", "proto shuffling", "proto tagging", "proto aggregation", "proto switching", "proto shuffling", "proto tagging"][k % 11]
            root = a["creator"] if c["dropt"] in ("create", "ack") else a["asker"]
            others = [i for i in range(1, n + 1) if i != root]
            x = r.choice(others)
            f, to = {"create": (root, x), "ack": (x, root), "results": (root, x)}.get(c["dropt"], (None, None))
            if f is None:
                f = r.choice([0, r.randint(1, n)])
                to = r.choice([i for i in range(0, n + 1) if i != f])
            c.update(dropf=f, dropto=to, dropn=r.choice([1, 2, 3, 4, 5, 6, 8, 10] if c["dropt"] == "proto" else [1, 1, 2, 2, 3, n]) if "proto" in c["dropt"] else 1)
            if c["dropt"] in ("proto shuffling", "proto tagging"):
                c["drops"] = r.choice([0, root, root, r.randint(1, n)])
            c["kind"] = "message lost: " + c["dropt"]
        ev += [dict(e="sleep", ms=r.choice([100, 300, 800])), dict(e="heal")]
        for j in range(r.choice([1, 2])):
            up = [i for i in range(1, 6) if i != c["dead"]]
            m = r.choice([1, 2, 3])
            b = survey(r, m)
            b.update(proofs=False, sound=True)
            # prefer the servers of the disturbed survey
            near = [i for i in up if i <= n]
            r.shuffle(near)
            b["ros"] = (near + [i for i in up if i > n])[:m]
            c["surveys"].append(b)
            ev += [dict(e, s=j + 2) for e in [dict(e="create")] + ups(b) + [dict(e="ask")]]
        c.update(id="fa%d" % k, events=ev)
        out.append(c)
    for n, p, num in [(2, 3, 12), (3, 3, 12), (3, 5, 24), (4, 7, 24)]:      # the losses of the specification
        seen = set()
        for c in ctx.generate("Survey", cfg(n, p, emit=True, losses=r.choice([1, 1, 2])), "Survey_loss_sim_%d_%d" % (n, p), num=ctx.pick(num, num * 6), depth=90):
            if str(c) in seen or c["asker"] == 0:
                continue
            seen.add(str(c))
            a = survey(r, n)
            a.update(pred="", ast=dict(op="true"), where=[], wide=[], proofs=False, sound=False, ros=roster(r, n), creator=1, asker=c["asker"])
            a["dps"] = [dict(at=x, rep=1, resp=survey_like(r, a, None, 3)) for x in c["prov"]]
            ev = [dict(e) for e in c["ev"]]
            if any(e["e"].startswith("lose") for e in ev):
                for e in ev:
                    if e["e"] == "losetag":
                        e["t"] = r.choice(["proto shuffling", "proto shuffling", "proto tagging"])
                    if e["e"] == "losesum":
                        e.update(f=c["asker"], t=r.choice(["proto aggregation", "proto switching"]))
                b = survey(r, r.choice([1, 2, 3]))
                b.update(proofs=False, sound=True)
                b["ros"] = (list(a["ros"]) + [i for i in range(1, 6) if i not in a["ros"]])[:max([b["creator"], b["asker"]] + [d["at"] for d in b["dps"]])]
                ev += [dict(e="sleep", ms=r.choice([100, 500])), dict(e="free"), dict(e="heal")]
                ev += [dict(e, s=2) for e in [dict(e="create")] + ups(b) + [dict(e="ask")]]
                out.append(dict(id="fs%d" % len(out), surveys=[a, b], events=ev, hold=True, par=False, wait=60000, dead=0, kind="schedule with losses"))
    return out


def tag_cases(ctx):
    """The same servers, and mostly the same groups, in several surveys one after the other: what the servers see."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(30, 200)):
        n = r.choice([2, 2, 3, 3, 4])
        ros = roster(r, n)
        while True:
            a = survey(r, n)
            if a["ng"] and any(d["resp"] and d["at"] != a["asker"] for d in a["dps"]):
                break
        ss, ev = [], []
        for i in range(r.choice([2, 3])):
            s = dict(a) if r.random() < .7 else survey(r, n)
            if not s["ng"] or i == 0:
                s = dict(a)
            s.update(proofs=s["proofs"] and r.random() < .3, ros=ros, creator=r.choice([s["creator"], r.randint(1, n)]))
            ss.append(s)
            ev += [dict(e, s=i + 1) for e in [dict(e="create")] + ups(s) + [dict(e="ask"), dict(e="answer")]]
        out.append(dict(id="tg%d" % k, surveys=ss, events=ev, hold=False, par=False, watch=True, kind="tags"))
    return out


def tag_twins(ctx):
    """The same survey, the first of several processes (servers that are started again)."""
    cs = [c for c in tag_cases(ctx) if len(c["surveys"][0]["ros"]) == 2][:ctx.pick(2, 6)]
    out = []
    for i, c in enumerate(cs):
        s = dict(c["surveys"][0], proofs=False)
        ev = [dict(e, s=1) for e in [dict(e="create")] + ups(s) + [dict(e="ask"), dict(e="answer")]]
        out += [dict(id="tw%d-%d" % (i, j), surveys=[s], events=ev, hold=False, par=False, watch=True, kind="same survey in another process") for j in range(3)]
    return out


OPS = ["cut", "cutfront", "add", "empty", "less", "less", "more", "more", "half", "point", "flip", "noise", "zero"]


def badupload_cases(ctx):
    """Surveys during which malformed uploads arrive: they are refused and change nothing."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(60, 500)):
        n = r.choice([1, 2, 3])
        s = survey(r, n)
        s["proofs"] = r.random() < .1
        s["ros"] = roster(r, n)
        u = ups(s)
        r.shuffle(u)
        ev = [dict(e="create")] + u + [dict(e="ask")]
        for _ in range(r.choice([1, 2, 3, 5])):
            ev.insert(r.randint(1, len(ev)), dict(e="badup", d=r.choice([0, 0, 1, 2, 4]), to=r.randint(1, n), ms=r.randint(0, 10 ** 9),
                                                  t=r.choice(["empty", "half", "more", "cut", "cutfront", "add", "point"])))
        out.append(dict(id="bu%d" % k, surveys=[s], events=ev, hold=False, par=False, kind="malformed upload"))
    return out


def tampered_cases(ctx):
    """A protocol message of the first survey arrives damaged; the other surveys are served as ever."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(70, 700)):
        n = r.choice([2, 2, 3, 3, 4])
        a = survey(r, n)
        a["dps"] = a["dps"] or [dict(at=1, rep=1, resp=[])]
        a.update(proofs=r.random() < .15, ros=list(range(1, n + 1)), sound=False)
        for d in a["dps"]:
            d["resp"] = d["resp"] or survey_like(r, a, None, 2)
        c = dict(surveys=[a], hold=False, par=False, wait=60000, dead=0, top=r.choice(OPS), tsd=r.randint(0, 10 ** 9), tfrom=r.choice([0, 0, r.randint(1, n)]),
                 tto=r.choice([0, 0, 0, a["asker"], a["asker"]]), tnth=r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 11, 15]), kind="damaged message")
        ev = [dict(e="create")] + ups(a) + [dict(e="ask")]
        ev += [dict(e="sleep", ms=r.choice([100, 300, 800])), dict(e="heal")]
        m = r.choice([1, 2, 3])
        b = survey(r, m)
        b.update(proofs=False, sound=True)
        near = list(range(1, n + 1))
        r.shuffle(near)
        b["ros"] = (near + list(range(n + 1, 6)))[:m]
        c["surveys"].append(b)
        ev += [dict(e, s=2) for e in [dict(e="create")] + ups(b) + [dict(e="ask")]]
        c.update(id="ta%d" % k, events=ev)
        out.append(c)
    return out


def noisy_cases(ctx, maxv):
    """Surveys whose results are released with noise (the service built with differential privacy switched on)."""
    r = ctx.rng
    out = []
    for k in range(ctx.pick(4, 40)):
        ss, ev = [], []
        for i in range(6):
            n = r.choice([1, 2, 2, 3])
            s = survey(r, n)
            s.update(proofs=False, ros=roster(r, n), own=True)
            if i < 5:       # something is released, and some of it has encrypted attributes
                s["pred"], s["ast"] = ("", dict(op="true"))
                s["dps"] = s["dps"] or [dict(at=1, rep=1, resp=[])]
                for d in s["dps"]:
                    d["resp"] = d["resp"] or survey_like(r, s, None, 2)
            ss.append(s)
            ev += [dict(e, s=i + 1) for e in [dict(e="create")] + ups(s) + [dict(e="ask"), dict(e="answer")]]
        out.append(dict(id="ny%d" % k, surveys=ss, events=ev, hold=False, par=False, maxv=maxv, kind="noise"))
    return out


def judge(ctx, b, cases, what, **kw):
    kw.setdefault("per_case", 60)
    return ctx.judge(b, "survey", cases, "SurveyTrace", keep=("surveys", "maxv"), key=kind, name="SurveyTrace_" + what, vkw=dict(env=dict(KIND=kw.pop("mode", "plain")), shards=kw.pop("vshards", 4)), **kw)


def cli_cases(ctx, command, num):
    """Surveys asked with the real command line from processes of the real server, which read their data from file."""
    r = ctx.rng
    out = []

    def asked(s):
        names = lambda p, n: [p + str(i) for i in range(n)]
        lst = lambda v: "{" + ", ".join(v) + "}" if v else ""
        wide = {w["v"]: w["is"] for w in s["wide"]}
        w = [x for i, v in enumerate(s["where"]) for x in ("w%d" % i, str(wide.get(v, v)))]
        return command(r, dict(sum=lst(names("s", s["ns"]) + (["count"] if s["count"] else [])), where=lst(w), pred=s["pred"],
                               groupBy=lst(names("g", s["ng"])), count=s["count"], proofs=s["proofs"]))

    def one(size):
        while True:
            s = survey(r, size, app=True)
            if (not s["where"] or s["pred"]) and not any(x["is"].startswith("-") for x in s["wide"]) and s["ns"] + s["count"]:
                return s if s["where"] else dict(s, pred="", ast=dict(op="true"))
    for k in range(num):
        size = r.choice([1, 2, 3, 3])
        par = k % 3 == 2
        ss = [one(size) for _ in range(1 if par else r.choice([1, 2, 3]))]
        if par:         # other questions about the same data at the same time
            while len(ss) < r.choice([2, 3, 4]):
                t = one(size)
                s = dict(ss[0])
                s.update(count=t["count"] or s["count"] and r.random() < .5, proofs=t["proofs"])
                if not s["count"] and s["ns"] == 0:
                    s["count"] = True
                if s["where"]:
                    s["ast"], s["pred"] = pred(r, len(s["where"]))
                    s["where"] = [r.choice([x for x in (0, 1, 2)]) for _ in s["where"]]
                ss.append(s)
        out.append(dict(id="cl%d" % k, servers=size, surveys=ss, args=[asked(s) for s in ss], par=par, kind="processes"))
    return out


def cli(ctx, b, command, num):
    ctx.judge(b, "cli", cli_cases(ctx, command, num), "SurveyTrace", keep=("surveys",), key=kind, name="SurveyTrace_cli", vkw=dict(env=dict(KIND="plain")),
              env=dict(UNLYNX=ctx.build_repo("./cmd/unlynx", "unlynx")), per_case=90, shards=3)
