"""C18: filtering by the predicate. spec/Filter.tla over every small predicate, query and list of responses (wrong
designs rejected); cases from TLC plus larger predicates run on the real filter; surveys with WHERE attributes."""
import surveylib
CFG = """SPECIFICATION Spec
CONSTANTS Vals={%s} MaxRows=%d MaxArity=%d Design="%s" Emitting=%s
INVARIANT Exact
%sCHECK_DEADLOCK FALSE
"""
BAD = ["v0 == == v1", "v0 ==", "(v0 == v1", "v0 == v1)", "== v1", "v0 v1", "&& v0 == v1", "v0 == v1 &&", "v0 == v99", "v98 != v1", "1 +", "foo(", "'abc",
       "v0 @ v1", "[v0", "v0 > 1", "-v0", "!v0", "v0 && v1", "v0 == v1 && v99", "((", ")", "v0 == (v1", "nosuch(v0)", "v0 ? true : false",
       "v0 % 2 == 1", "5 && true", "v0 =~ '['", "1 / 'a'", "!5", "~'x'"]
VAL = ["v0", "v1", "1", "'true'", "v0 + v1", "1 + 1", "'a'", "2 > 1 ? 'x' : 'y'", "(v0)", "1.5"]


def text(r, p, full=False):
    """The predicate in the language of the queries; parentheses only where needed, unless full."""
    op = p["op"]
    sp = lambda: r.choice([" ", " ", "", "  "])
    if op in ("true", "false"):
        return op
    if op == "bad":
        return r.choice(["v98 == v99", "!'x'", "(5 && true)", "(v97 == 'a')"])
    if op == "val":
        return r.choice(["'x'", "1", "(2 + 3)"])
    if op == "var":
        return "v%d" % p["a"]
    if op in ("eq", "ne"):
        return "(v%d%s%s%sv%d)" % (p["a"], sp(), {"eq": "==", "ne": "!="}[op], sp(), p["b"]) if full or r.random() < .5 else "v%d == v%d" % (p["a"], p["b"]) if op == "eq" else "v%d!=v%d" % (p["a"], p["b"])
    if op == "in":
        return "(v%d in (%s))" % (p["a"], ", ".join("v%d" % b for b in p["set"]))
    if op == "not":
        return "!(%s)" % text(r, p["l"])
    if op == "if":
        return "((%s) ? (%s) : (%s))" % (text(r, p["c"]), text(r, p["l"]), text(r, p["r"]))
    o = {"and": "&&", "or": "||"}[op]
    def side(x):
        t = text(r, x)
        if x["op"] in ("and", "or") and (x["op"] != op or r.random() < .5) and not (op == "or" and x["op"] == "and" and r.random() < .5):
            return "(" + t + ")"
        return t
    return side(p["l"]) + sp() + o + " " + side(p["r"])     # the language wants a blank between two operators


def pred(r, nv, depth, wild):
    if depth == 0 or r.random() < .25:
        x = r.random()
        if wild and x < .12:
            return dict(op=r.choice(["bad", "val"]))
        if wild and x < .2:
            return dict(op="var", a=r.randrange(nv + 2))
        if x < .27:
            return dict(op=r.choice(["true", "false"]))
        n = nv + (2 if wild and r.random() < .2 else 0)
        if x < .37:
            return dict(op="in", a=r.randrange(n), set=[r.randrange(n) for _ in range(r.choice([2, 3]))])
        i = r.randrange(max(1, n // 2)) * 2
        a, b = (i, i + 1) if r.random() < .6 else (r.randrange(n), r.randrange(n))
        return dict(op=r.choice(["eq", "eq", "ne"]), a=a, b=b)
    op = r.choice(["and", "or", "and", "or", "not", "if"])
    l = pred(r, nv, depth - 1, wild)
    if op == "not":
        return dict(op=op, l=l)
    if op == "if":
        # both branches of a choice have the same kind of value
        return dict(op=op, c=l, l=pred(r, nv, depth - 1, wild), r=pred(r, nv, depth - 1, wild))
    return dict(op=op, l=l, r=pred(r, nv, depth - 1, wild))


def cases(ctx):
    r = ctx.rng
    out = []

    def add(ast, txt, where, rows, kind):
        out.append(dict(id="fi%d" % len(out), ast=ast, pred=txt, where=where, rows=rows, kind=kind,
                        group=[[r.randint(0, 2) for _ in range(r.choice([0, 1, 2, 3]) if kind == "ragged" else 2)] for _ in rows], tags=r.choice(["point", "short"])))
    for c in ctx.generate("Filter", CFG % ("0,1", 3, 2, "each", "TRUE", "CONSTRAINT EmitCase\n"), "Filter_sim", num=ctx.pick(400, 4000), depth=14, heap="6g"):
        add(c["ast"], text(r, c["ast"]), c["where"], c["rows"], "spec")
    for k in range(ctx.pick(900, 9000)):
        n = r.choice([1, 1, 2, 3, 4, 6, 7])
        m = r.choice([1, 2, 3, 5, 20]) if k % 60 else r.choice([100, 101, 250])
        v = r.choice([2, 2, 3])
        ragged = r.random() < .2
        where = [r.randrange(v) for _ in range(n)]
        rows = [[r.randrange(v) for _ in range(n if not ragged else max(0, n + r.choice([-1, 0, 1, 2])))] for _ in range(m)]
        wild = r.random() < .3
        p = pred(r, 2 * n, r.choice([0, 1, 2, 3, 4]), wild)
        add(p, text(r, p), where, rows, "ragged" if ragged else "wild" if wild else "plain")
    for t in BAD + VAL:
        for _ in range(2):
            rows = [[r.randrange(2) for _ in range(2)] for _ in range(r.choice([1, 3]))]
            add(dict(op="bad"), t, [1, 0], rows, "malformed")
    toks = ["v0", "v1", "v2", "==", "!=", "&&", "||", "!", "(", ")", "'a'", "1", "true", "in", ",", "?", ":", "-", "+", "=~", "[v0]", ".", "\\", "\"", "'", "v99", ">", "null", "{", "??", "~", "&", "<<", "é", "\x00"]
    for _ in range(ctx.pick(400, 20000)):
        t = r.choice(["", " "]).join(r.choice(toks) for _ in range(r.randint(0, 9)))
        add(dict(op="any"), t, [1, 0], [[1, 0], [0, 1]][:r.choice([1, 2])], "any text")
    return out


def run(ctx):
    b = ctx.build()
    ctx.model_check("Filter", CFG % ("0,1", 2, 1, "each", "FALSE", ""), "Filter_2", workers=6)
    for d in ("first", "keeperr", "swap"):
        ctx.sanity_mutant("Filter", CFG % ("0,1", 2, 2 if d == "first" else 1, d, "FALSE", ""), "Filter_" + d, workers=6)
    if ctx.thorough:
        ctx.model_check("Filter", CFG % ("0,1", 2, 2, "each", "FALSE", ""), "Filter_2_2", workers=7, heap="8g", timeout=1500)
    ctx.judge(b, "filter", cases(ctx), "FilterTrace", keep=("ast", "where", "rows"), key=lambda c: c["kind"])
    cs = [c for c in surveylib.query_cases(ctx) if c["surveys"][0]["where"] and c["kind"] != "big"]
    surveylib.judge(ctx, b, cs[:ctx.pick(90, 700)], "where")
