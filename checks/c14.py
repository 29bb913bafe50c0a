"""C14: damaged bytes are refused. Damages from spec/Codec.tla and random ones on every format."""
import codeclib as k
import ringlib, surveylib, c04


def run(ctx):
    b = ctx.build()
    k.model(ctx)
    k.mutants(ctx, ["trusting", "buffer", "any"])
    r, out = ctx.rng, []
    k.speccases(ctx, out, True, ctx.pick(800, 6000))
    for f in k.FORMATS:
        for _ in range(ctx.pick(700, 6000)):
            k.case(out, f, k.value(r, f), k.damages(r, f), "damaged")
        for _ in range(0 if f in k.FLAT else ctx.pick(6, 60)):
            k.case(out, f, k.value(r, f, True), k.damages(r, f), "big damaged")
    k.judge(ctx, b, out, vkw=dict(chunk=600, shards=6))
    # damaged messages between servers, malformed uploads of data providers
    cs = ringlib.tampered_cases(ctx, c04.content)
    ctx.judge(b, "agg", cs.pop("agg"), "AggTrace", key=lambda c: c["kind"], shards=20)
    for p, x in cs.items():
        ringlib.judge(ctx, b, p, x, shards=20)
    surveylib.judge(ctx, b, surveylib.badupload_cases(ctx), "badupload")
    surveylib.judge(ctx, b, surveylib.tampered_cases(ctx), "tampered", mode="fault", env=dict(CONN_TIMEOUT="3s"), shards=14, per_case=100)
