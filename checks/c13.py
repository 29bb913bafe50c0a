"""C13: what is written reads back. Every format, shapes from spec/Codec.tla and random ones, sizes around the batches."""
import codeclib as k


def run(ctx):
    b = ctx.build()
    k.model(ctx)
    k.mutants(ctx, ["floor"])
    r, out = ctx.rng, []
    k.speccases(ctx, out, False, ctx.pick(600, 5000))
    for f in k.FORMATS:
        for _ in range(ctx.pick(450, 2500)):
            k.case(out, f, k.value(r, f), [], "plain")
        for _ in range(0 if f in k.FLAT else ctx.pick(10, 100)):
            k.case(out, f, k.value(r, f, True), [], "big")
    k.judge(ctx, b, out, vkw=dict(chunk=600, shards=6))
