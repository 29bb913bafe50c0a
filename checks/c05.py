import ringlib


def run(ctx):
    b = ctx.build()
    ringlib.ring_model(ctx, "shuffle")
    ringlib.judge(ctx, b, "shuffle", ringlib.shuffle_cases(ctx))
    ringlib.judge(ctx, b, "perm", ringlib.perm_cases(ctx))
    ringlib.twins(ctx, b, "shuffle", 25)
    ringlib.conv_model(ctx)
    ctx.judge(b, "conv", ringlib.conv_cases(ctx, "matrix"), "ConvTrace")
