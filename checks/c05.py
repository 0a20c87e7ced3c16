"""C05: partial dependence based importance against brute force, standalone and as part of interaction methods."""
from hypothesis import strategies as st

from lib import pdcases
from lib.harness import Sub

RULE = ("random data sets, models, feature subsets, sample and batch sizes; importance of every requested feature, standalone or "
        "reported by H-statistic or Greenwell, compared with the definition by brute force. Non-trivial: some importance clearly positive.")


def cases(**kw):
    return st.tuples(pdcases.fit_cases(**kw), st.sampled_from(["alone", "alone", "h", "greenwell"])).map(
        lambda t: dict(t[0], via=t[1]))


def check(case, ctx):
    s = pdcases.Setup(case)
    if case["via"] == "alone":
        m = s.importance()
    elif case["via"] == "h":
        m = s.h(calculate_ova=False)
    else:
        m = s.greenwell()
    ref = s.ref(m.X_sampled)
    ctx.nontrivial(pdcases.check_importance(m.feature_importance, s, ref))
    ctx.event(case["via"])


SUBTESTS = [
    Sub("rich", cases(dense=True, big=(15, 8), min_rows=3, min_terms=2, min_feat=1, max_cols=5), check, 1500, 20000),
    Sub("importance", cases(min_feat=1, max_cols=5), check, 2500, 40000),
    Sub("many_values", st.tuples(pdcases.many(), st.sampled_from(["alone", "h"])).map(lambda t: dict(t[0], via=t[1])), check, 90, 1500),
    Sub("tall", st.tuples(pdcases.tall(), st.sampled_from(["alone", "h", "greenwell"])).map(lambda t: dict(t[0], via=t[1])), check,
        60, 800),
    Sub("wide", st.tuples(pdcases.wide(min_feat=1), st.sampled_from(["alone", "h", "greenwell"])).map(lambda t: dict(t[0], via=t[1])), check, 60, 800),
    Sub("larger", cases(min_feat=2, big=(40, 10), max_cols=6, max_rows=12), check, 250, 4000),
]
