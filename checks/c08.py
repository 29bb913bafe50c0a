import ringlib


def run(ctx):
    b = ctx.build()
    ringlib.ring_model(ctx, "sddt")
    ringlib.judge(ctx, b, "sddt", ringlib.sddt_cases(ctx))
