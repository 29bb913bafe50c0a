import ringlib


def run(ctx):
    b = ctx.build()
    ringlib.ks_model(ctx)
    ringlib.judge(ctx, b, "ks", ringlib.ks_cases(ctx))
    ringlib.twins(ctx, b, "switch", 25)
    ctx.judge(b, "conv", ringlib.conv_cases(ctx, "flat"), "ConvTrace")
