"""C01: a survey's answer is the query evaluated over the plaintext data (spec/SurveyOps.tla is the oracle)."""
import c20
import surveylib


def run(ctx):
    b = ctx.build()
    surveylib.model(ctx)
    surveylib.pipe_model(ctx)
    surveylib.judge(ctx, b, surveylib.query_cases(ctx), "query")
    surveylib.judge(ctx, b, surveylib.pipe_cases(ctx), "pipeline")
    surveylib.judge(ctx, b, surveylib.wide_cases(ctx), "wide", per_case=240)
    surveylib.cli(ctx, b, c20.command, ctx.pick(60, 600))
