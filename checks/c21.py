"""C21: noise. spec/Noise.tla generates noise lists from a table of repetitions and TLC checks order,
symmetry and frequencies; the real generator is run on parameter combinations (the table is computed from the
Laplace density) and judged by NoiseTrace; noise added on pulls is judged by StoreTrace."""
import json
import os
import re
import math
import c11
import surveylib
from vlib import core

CFG = """SPECIFICATION Spec
CONSTANTS MaxRep=%d Len0=%d OnlyPositive=%s
INVARIANT Right
CHECK_DEADLOCK FALSE
"""


def pdf(x, b):
    return math.exp(-abs(x) / b) / (2 * b)


def expect(c):
    n, b, q, scale, lim = c["N"], c["B"], c["Quanta"], c["Scale"], c["Lim"]
    if c["Unscaled"]:
        scale = 1.0
    maxk = -1
    if q == 0:
        s, i, k = 0.0, 0.0, 0
        while i < lim:
            s += pdf(i, b) * (1 if i == 0 else 2)
            i += 1 / scale
            k += 1
        if n and s > 0:
            q = s / n
            maxk = k       # one step of tolerance for accumulated rounding
    lo, hi, tot, k = [], [], 0, 0
    cap = n + 2
    while tot < n:
        v = pdf(k / scale, b)
        x = v / q if q > 0 else float("inf")
        l = min(cap, max(1, math.ceil(min(x * (1 - 1e-9) - 1e-12, cap))))
        h = min(cap, max(1, math.ceil(min(x * (1 + 1e-9) + 1e-12, cap))))
        lo.append(l)
        hi.append(h)
        tot += l * (1 if k == 0 else 2)
        k += 1
    lo += [1, 1]
    hi += [hi[-1] if hi else 1] * 2
    return lo, hi, maxk


def cases(ctx):
    r = ctx.rng
    out = []
    fixed = [(1000, 1, .1, 1, 0), (0, 1, .1, 1, 0), (1, 1, .1, 1, 0), (2, 1, .1, 1, 0), (3, 1, 1, 1, 0), (500, 1, .005, 100, 60), (500, 1, .005, 1, 0),
             (50, .01, 1, 1, 0), (100, .1, .5, 1, 0), (20, 1, 1e-30, 1, 0), (20, 1, 1e-25, 1, 0), (100, 2, 0, 1, 10), (100, 2, 0, 10, 3), (2000, 5, 0, 1, 30),
             (300, .02, .3, 2, 0), (10, 1, 0, 1, 0), (1000, 1, .1, .5, 0)]
    for f in fixed:
        out.append(f)
    for _ in range(ctx.pick(250, 3000)):
        q = r.choice([0, .001, .005, .01, .05, .1, .3, .5, 1, 2, r.uniform(.001, 1)])
        lim = r.choice([0, 0, 1, 5, 20]) if q else r.choice([1, 2, 5, 20, r.uniform(.5, 30)])
        out.append((r.choice([0, 1, 2, 3, 10, 99, 100, 101, 257, 1000, 1500]), r.choice([.05, .5, 1, 2, 7, r.uniform(.1, 10)]), q, r.choice([1, 1, 2, 10, 100, .5, 3]), lim))
    cs = []
    for i, (n, b, q, s, lim) in enumerate(out):
        c = dict(id="no%d" % i, N=n, B=b, Quanta=q, Scale=float(s), Lim=lim, Unscaled=(s == 1 and i % 2 == 0), kind="limit" if q == 0 else "quantum")
        c["lo"], c["hi"], c["maxk"] = expect(c)
        cs.append(c)
    return cs


def with_noise(ctx):
    """The driver with the service as it is when differential privacy is switched on (a constant of the library)."""
    f = os.path.join(core.REPO, "lib/constants.go")
    src = open(f).read() if os.path.exists(f) else ""
    new, n = re.subn(r"(?m)^(\s*(?:const\s+)?DIFFPRI\s*(?:bool\s*)?=\s*)false\b", r"\1true", src)
    if n != 1:
        ctx.log("the switch for releases with noise was not found: releases with noise are not run")
        return None
    o, c = ctx.path("overlay.json"), ctx.path("constants_noise.go")
    with open(c, "w") as h:
        h.write(new)
    with open(o, "w") as h:
        json.dump({"Replace": {f: c}}, h)
    return ctx.build(out="drv_noise", extra=["-overlay", o])


def run(ctx):
    b = ctx.build()
    ctx.model_check("Noise", CFG % (4, 4, "FALSE"), "Noise")
    ctx.sanity_mutant("Noise", CFG % (3, 3, "TRUE"), "Noise_one_sided")
    if ctx.thorough:
        ctx.model_check("Noise", CFG % (6, 5, "FALSE"), "Noise_large", workers=6)
    ctx.judge(b, "noise", cases(ctx), "NoiseTrace", keep=("lo", "hi", "maxk"), key=lambda c: c["kind"], per_case=5)
    nb = with_noise(ctx)
    if nb:
        lo, _, _ = expect(dict(N=1000, B=1, Quanta=.1, Scale=1.0, Lim=0, Unscaled=True))
        surveylib.judge(ctx, nb, surveylib.noisy_cases(ctx, len(lo)), "noise", mode="noisy", per_case=120)
    ctx.judge(b, "store", c11.cases(ctx, noise=True), "StoreTrace", key=lambda c: c["kind"])
