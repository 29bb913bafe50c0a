"""C02: the schedules of spec/Survey.tla imposed on the real service; more providers than buffers; races of a request with uploads."""
import surveylib


def run(ctx):
    b = ctx.build()
    surveylib.model(ctx)
    surveylib.judge(ctx, b, surveylib.schedule_cases(ctx), "schedule")
