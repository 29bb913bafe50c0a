"""C20: the querier's command line. spec/Query.tla (an automaton reading the lists agrees with their grammar for
all short texts and for all edits of well-formed queries; wrong readers are rejected); its queries and longer ones
are given to the real binary, recording servers receive what it submits, QueryTrace judges."""
CFG = """SPECIFICATION Spec
CONSTANTS Mode="%s" Kind="%s" Symbols=%s MaxLen=%d MaxEdits=%d Design="%s" Emitting=%s
INVARIANTS Faithful
%sCHECK_DEADLOCK FALSE
"""
SUM = '{"{","}",",","s","1"," ","count"}'
WHERE = '{"{","}",",","w","1"," "}'
GROUP = '{"{","}",",","g","1","tab"}'
EDIT = '{"{","}",",","w","s","-","1"," ","tab","max","over"}'
ALL = '{"{","}",",","w","s","g","c","-","+",".","1","0"," ","tab","nl","max","over","count","(","x"}'
PREDS = ["v0 == v1", "(v0 == v1 || v2 == v3) && v4 == v5", "v0 == v1 && v2 != v3", "true", "v0 > 3", "s1, {s2}", "'quoted \"text\"'",
         "v0==v1", "v0  ==  v1", "p", "ünïcode ∧", "$HOME `x` \\n", "--count", "v0 == v1\nv2 == v3", "0"]


def numbers(r):
    k = r.random()
    if k < .1:
        return "9223372036854775807"
    if k < .2:
        return str(r.randrange(1 << 63))
    if k < .3:
        return "0" * r.randint(1, 25) + str(r.randint(0, 99))
    return str(r.randint(0, 1000))


def attr(r, letter):
    return letter + (str(r.randint(0, 12)) if r.random() < .8 else "".join(r.choice("0123456789") for _ in range(r.randint(1, 25))))


def seps(r, n):
    st = r.choice(["", " ", "mix"])
    return [("," + (st if st != "mix" else "".join(r.choice(" \t\n\r\f") for _ in range(r.randint(0, 4))))) for _ in range(n)]


def listing(r, items):
    out = "{"
    sp = seps(r, len(items))
    for i, x in enumerate(items):
        out += (sp[i] if i else "") + x
    return out + "}"


def well_formed(r):
    big = r.random() < .1
    n = lambda: r.choice([40, 120]) if big and r.random() < .5 else r.choice([1, 1, 2, 3, 5])
    s = [attr(r, "s") for _ in range(n())]
    count = r.random() < .4
    if count:
        s.insert(r.randint(0, len(s)), "count")
        if r.random() < .3:
            s = ["count"]
    w = []
    if r.random() < .75:
        for _ in range(n()):
            w += [attr(r, "w"), numbers(r)]
    g = [attr(r, "g") for _ in range(n())] if r.random() < .75 else []
    return dict(sum=list(listing(r, s)), where=list(listing(r, w)) if w else [], groupBy=list(listing(r, g)) if g else [],
                pred=r.choice(PREDS) if w else "", count=count, proofs=r.random() < .5)


def edit(r, q):
    q = dict(q)
    k = r.choice(["sum", "where", "groupBy"])
    t = list(q[k])
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(t) + 1)
        m = r.choice(["del", "ins", "ins", "rep", "cut", "dup", "swap", "case", "wrap"])
        c = r.choice(list("{},{},swgc0123456789 \t\n-+.;:()[]xé_S'\"") + ["count", "0x1", "9223372036854775808", "s1", "w1", ", w1, 1", "é", "%s"])
        if m == "del" and t:
            del t[min(i, len(t) - 1)]
        elif m == "ins":
            t[i:i] = list(c)
        elif m == "rep" and t:
            t[min(i, len(t) - 1)] = c[0]
        elif m == "cut":
            t = t[:i]
        elif m == "dup":
            t = t + t
        elif m == "swap" and len(t) > 1:
            i = r.randrange(len(t) - 1)
            t[i], t[i + 1] = t[i + 1], t[i]
        elif m == "case" and t:
            j = min(i, len(t) - 1)
            t[j] = t[j].upper()
        elif m == "wrap":
            t = list(r.choice(["x", " ", "{", "s1,", "\n"])) + t + list(r.choice(["", "y", "}", " ", "\n"]))
    q[k] = t
    if r.random() < .1:
        q["count"] = not q["count"]
    if r.random() < .1:
        q["pred"] = r.choice(PREDS) if q["pred"] == "" else ""
    return q


def command(r, q):
    """The query as a command line, its options in one of their forms and any order."""
    opts = []
    for name, short, v in (("sum", "s", "".join(q["sum"])), ("where", "w", "".join(q["where"])), ("predicate", "p", q["pred"]),
                           ("groupBy", "g", "".join(q["groupBy"])), ("file", "f", "GROUPFILE")):
        if v == "" and r.random() < .7:
            continue
        f = r.choice([0, 0, 1, 2, 3])
        opts.append([["--" + name, v], ["-" + short, v], ["--%s=%s" % (name, v)], ["-%s=%s" % (short, v)]][f])
    if q["count"]:
        opts.append([r.choice(["--count", "-c"])])
    if q["proofs"]:
        opts.append(["--proofs"])
    r.shuffle(opts)
    return [r.choice(["run", "run", "r"])] + [x for o in opts for x in o]


def run(ctx):
    r = ctx.rng
    ctx.model_check("Query", CFG % ("type", "sum", SUM, ctx.pick(6, 7), 0, "good", "FALSE", ""), name="Query_sum", workers=6)
    ctx.model_check("Query", CFG % ("type", "where", WHERE, ctx.pick(7, 8), 0, "good", "FALSE", ""), name="Query_where", workers=6)
    ctx.model_check("Query", CFG % ("type", "groupBy", GROUP, ctx.pick(6, 8), 0, "good", "FALSE", ""), name="Query_groupBy", workers=6)
    ctx.model_check("Query", CFG % ("edit", "sum", EDIT, 0, ctx.pick(1, 2), "good", "FALSE", ""), name="Query_edits", workers=6, timeout=800)
    for d in ("unanchored", "needs all", "no count", "spaces", "no range", "submits anyway", "last value"):
        ctx.sanity_mutant("Query", CFG % ("edit", "sum", EDIT, 0, 1, d, "FALSE", ""), name="Query_" + d.replace(" ", "_"))
    gen = ctx.generate("Query", CFG % ("random", "sum", ALL, 0, 3, "good", "TRUE", "CONSTRAINT EmitCase\n"), num=ctx.pick(400, 4000), depth=8)
    cases = []

    def add(kind, q):
        cases.append(dict(id="%s%d" % (kind[:2], len(cases)), kind=kind, q=q, servers=r.choice([1, 1, 2, 3, 5]), args=command(r, q),
                          values="".join(c for c in q["where"] if c not in " \t\n\r\f")))
    for c in gen:
        add("generated", c["q"])
    for _ in range(ctx.pick(450, 2500)):
        add("well-formed", well_formed(r))
    for _ in range(ctx.pick(700, 4000)):
        add("edited", edit(r, well_formed(r)))
    b = ctx.build()
    ctx.judge(b, "query", cases, "QueryTrace", keep=["id", "q"], env=dict(UNLYNX=ctx.build_repo("./cmd/unlynx", "unlynx")), per_case=40, gomaxprocs=2)
    ctx.notes["queries"] = len(cases)
    ctx.assumptions += ["blanks other than after a comma, empty braces, negative values and an unused count item may be refused or taken as written"]
