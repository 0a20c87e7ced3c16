"""C31: partial dependence requests are collected into batches of the requested size."""
import numpy as np
from hypothesis import strategies as st

from artemis._utilities.pd_calculator import PartialDependenceCalculator
from checks.c14 import apply
from lib import gen, pdcases
from lib.harness import Sub
from lib.oracle import require

RULE = ("partial dependence based explanations and single calculations of the calculator on generated data with batch sizes from 1 to several "
        "times the work; every query of the model is recorded, queries for the unchanged data are left out. Non-trivial: the calculation "
        "needs at least two batches, or several blocks fit in one.")
STAGES = {"importance": 1, "additivity": 1, "greenwell": 2, "h_noova": 3, "h": 4, "hu": 4}


class Calls:
    def __init__(self, data, sample):
        self.data, self.n, self.E, self.sizes = data, len(sample), data.encode(sample), []

    def record(self, Q, how):
        if len(Q) == self.n and np.array_equal(self.data.encode(Q[self.data.names]), self.E):
            return
        self.sizes.append(len(Q))


def judge(sizes, batch, stages, block, ctx, what):
    short = [s for s in sizes if s <= batch]
    require(len(short) <= stages, f"{what} with batch size {batch} sent queries of {sizes} rows, only the last one of a calculation may have {batch} rows or less")
    require(not sizes or max(sizes) <= batch + block, f"{what} with batch size {batch} sent queries of {sizes} rows, blocks have at most {block} rows")
    ctx.nontrivial(len(sizes) > stages or any(s > block for s in sizes))
    ctx.event("several batches" if len(sizes) > stages else "one batch per calculation" if sizes else "no query")


def biggest(case, data, sample, stage):
    n = len(sample)
    uniq = max(len({x for x in data.encode(sample)[:, j].tolist()}) for j in range(len(data.names)))
    return {"single": n * uniq, "pairs": n, "observed": n, "minus": n * n}[stage]


def check_stage(case, ctx):
    data = gen.Data(case["data"])
    calls = Calls(data, data.X)
    model, pf = gen.build_model(case["model"], data, record=calls.record)
    batch = 2000 if case["batch"] is None else case["batch"]
    calc = PartialDependenceCalculator(model, data.X, pf, **gen.batch_kw(case["batch"]))
    for stage, which in case["stages"]:
        calls.sizes.clear()
        feats = None if which is None else [data.names[i % len(data.names)] for i in which]
        feats = None if feats is None else list(dict.fromkeys(feats))
        if stage == "single":
            calc.calculate_pd_single(feats) if feats is not None else calc.calculate_pd_single()
        elif stage == "minus":
            calc.calculate_pd_minus_single(feats) if feats is not None else calc.calculate_pd_minus_single()
        else:
            pairs = None if feats is None else [(a, b) for i, a in enumerate(feats) for b in feats[i + 1:]]
            calc.calculate_pd_pairs(pairs, all_combinations=stage == "pairs")
        judge(list(calls.sizes), batch, 1, biggest(case, data, data.X, stage), ctx, stage)
        ctx.event(stage)


def check_explanation(case, ctx):
    data = gen.Data(case["data"])
    calls = Calls(data, data.X)
    model, pf = gen.build_model(case["model"], data, record=calls.record)
    batch = 2000 if case["batch"] is None else case["batch"]
    op = case["op"]
    apply([op, None if op == "additivity" else case["features"]], model, data.X, pf, **gen.batch_kw(case["batch"]))
    block = max(biggest(case, data, data.X, s) for s in (("single",) if op in ("importance", "additivity") else ("single", "pairs") if STAGES[op] < 4
                                                         else ("single", "pairs", "minus")))
    judge(list(calls.sizes), batch, STAGES[op], block, ctx, op)
    ctx.event(op)


def batches(case):
    """also sizes that are exact multiples of the blocks, and their neighbours"""
    data = case["data"]
    n = data["rows"] if "rows" in data else len(data["cols"][0]["v"])
    exact = st.tuples(st.sampled_from([n, n * n]), st.integers(1, 6), st.integers(-1, 1)).map(lambda t: max(1, t[0] * t[1] + t[2]))
    return st.one_of(st.sampled_from([None, 1, 5, 20]), st.integers(1, 400), exact)


@st.composite
def stage_cases(draw, rich=False):
    case = draw((pdcases.rich if rich else pdcases.fit_cases)(options=False, min_rows=1, max_cols=4, big=(12, 5)))
    which = st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=2, max_size=4))
    case["stages"] = draw(st.lists(st.tuples(st.sampled_from(["single", "pairs", "observed", "minus"]), which).map(list), min_size=1, max_size=3))
    case["batch"] = draw(batches(case))
    return case


@st.composite
def explanation_cases(draw):
    case = draw(pdcases.rich(options=False, min_rows=2, max_cols=4, big=(12, 5)))
    case.update(op=draw(st.sampled_from(sorted(STAGES))), batch=draw(batches(case)))
    return case


@st.composite
def default_cases(draw):
    """enough rows and values that the default batch size matters"""
    case = draw(pdcases.rich(options=False, min_rows=14, min_cols=2, max_cols=4, kinds="uuuf", big=(34, 40), min_lev=14))
    case.update(op=draw(st.sampled_from(["additivity", "additivity", "importance", "importance", "greenwell", "h_noova", "h", "hu"])),
                batch=draw(st.sampled_from([None, None, None, 700, 3000])))
    return case


SUBTESTS = [
    Sub("default", default_cases(), check_explanation, 48, 800),
    Sub("stage", stage_cases(), check_stage, 400, 8000),
    Sub("rich", stage_cases(rich=True), check_stage, 500, 8000),
    Sub("explanation", explanation_cases(), check_explanation, 600, 10000),
]
