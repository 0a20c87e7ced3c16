"""C03: one-versus-all H-statistic against brute force, over sequences of fits of one object."""
from hypothesis import strategies as st

from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod
from lib import oracle, pdcases
from lib.harness import Sub
from lib.oracle import require

RULE = ("random data sets, models, feature subsets, sample and batch sizes, one or two successive fits of one object with "
        "one-versus-all on or off; values are compared with brute force. Non-trivial: some feature has a clearly positive value.")
ASSUMPTIONS = ["normalised values are compared where the denominator exceeds 1e-10 of the squared prediction scale, or where "
               "the model ignores the feature set completely"]


@st.composite
def cases(draw, fits=2, **kw):
    return dict(fits=[dict(draw(pdcases.fit_cases(**kw)), ova=draw(st.sampled_from([True, True, False, None])))
                      for _ in range(draw(st.integers(1, fits)))], normalized=draw(st.booleans()),
                rs=draw(st.sampled_from([None, 3])))


def check(case, ctx):
    m = FriedmanHStatisticMethod(random_state=case["rs"], normalized=case["normalized"])
    for fit in case["fits"]:
        s = pdcases.Setup(fit)
        kw = {} if fit["ova"] is None else {"calculate_ova": fit["ova"]}
        m.fit(s.model, s.data.X, **s.fit_kw, **s.feat_kw(), **kw)
        if fit["ova"] is False:
            require(m.ova is None, "one-versus-all table present although its calculation was switched off")
            ctx.event("switched off")
            continue
        ref = s.ref(m.X_sampled)
        table = oracle.feature_table(m.ova, m.method, "one-versus-all table")
        require(set(table) == set(s.requested), f"one-versus-all lists {sorted(table)}, requested {sorted(s.requested)}")
        constant = not fit["model"]["terms"]
        for f, got in table.items():
            num, den = ref.h_all(s.col(f))
            ctx.nontrivial(pdcases.check_h_value(got, num, den, ref, case["normalized"], constant,
                                                 f"one-versus-all H of {f}", ctx))
        ctx.event("normalised" if case["normalized"] else "unnormalised")


SUBTESTS = [
    Sub("rich", cases(fits=2, dense=True, big=(8, 5), min_rows=3, min_terms=2, first_order=2, kinds="ffgiinlbskjh"), check, 900, 15000),
    Sub("ova", cases(), check, 1400, 20000),
    Sub("many_values", cases(fits=1, dense=True, big=(110, 150), min_rows=40, min_lev=30, min_terms=2, max_cols=3, first_order=2,
                             kinds="uuuuufsni"), check, 70, 1200),
    Sub("wide", cases(fits=1, dense=True, min_cols=8, max_cols=14, big=(5, 4), min_rows=2, min_terms=3, first_order=3, kinds="ffgiibskn"), check, 40, 600),
    Sub("larger", cases(fits=1, big=(20, 8), max_cols=5, max_rows=10), check, 250, 4000),
]
