"""C06: deterministic tagging, on the protocol and as the servers of whole surveys see it."""
import ringlib, surveylib


def run(ctx):
    b = ctx.build()
    ringlib.ring_model(ctx, "ddt")
    ringlib.judge(ctx, b, "ddt", ringlib.ddt_cases(ctx))
    ctx.judge(b, "tagkey", ringlib.tagkey_cases(ctx), "RingTrace", key=lambda c: c["kind"], vkw=dict(env=dict(KIND="ddt")))
    surveylib.judge(ctx, b, surveylib.tag_cases(ctx), "tags", mode="tags")
    surveylib.judge(ctx, b, surveylib.tag_twins(ctx), "tagtwins", mode="tags", isolate=True, vshards=1)
