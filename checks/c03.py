"""C03: several surveys at the same time on the same servers, unknown ids in between."""
import surveylib


def run(ctx):
    b = ctx.build()
    surveylib.model(ctx)
    surveylib.judge(ctx, b, surveylib.parallel_cases(ctx), "parallel")
