"""C02: pairwise H-statistic against brute force."""
from hypothesis import strategies as st

from lib import oracle, pdcases
from lib.harness import Sub

RULE = ("random data sets, models, feature subsets in any order, sample sizes, batch sizes, normalised or not; every reported "
        "pair is compared with the H-statistic computed by brute force over the reported sample. Non-trivial: some pair has a "
        "clearly positive H value.")
ASSUMPTIONS = ["normalised values are compared where the denominator exceeds 1e-10 of the squared prediction scale, or where "
               "the model ignores both features (must be 0)"]


def cases(**kw):
    return st.tuples(pdcases.fit_cases(**kw), st.booleans(), st.booleans()).map(
        lambda t: dict(t[0], normalized=t[1], ova=t[2]))


def check(case, ctx):
    s = pdcases.Setup(case)
    m = s.h(normalized=case["normalized"], calculate_ova=case["ova"])
    ref = s.ref(m.X_sampled)
    table = oracle.pair_table(m)
    pdcases.check_pairs_complete(table, s.requested)
    used = {s.names[c] for _, fs in case["model"]["terms"] for c, _ in fs}
    nt = False
    for pair, got in table.items():
        a, b = sorted(pair)
        num, den = ref.h_pair(s.col(a), s.col(b))
        nt |= pdcases.check_h_value(got, num, den, ref, case["normalized"], not (pair & used), f"H of {a},{b}", ctx)
    ctx.nontrivial(nt)
    ctx.event("normalised" if case["normalized"] else "unnormalised")
    ctx.event("sampled" if case["n"] else "all rows")
    ctx.event("subset" if case["features"] else "all features")


def many_cases():
    return st.tuples(pdcases.many(), st.booleans(), st.just(False)).map(lambda t: dict(t[0], normalized=t[1], ova=t[2]))


def rich_cases():
    return st.tuples(pdcases.rich(), st.booleans(), st.booleans()).map(lambda t: dict(t[0], normalized=t[1], ova=t[2]))


SUBTESTS = [
    Sub("rich", rich_cases(), check, 1500, 20000),
    Sub("pairs", cases(), check, 2000, 30000),
    Sub("many_values", many_cases(), check, 90, 1200),
    Sub("scattered", st.tuples(pdcases.scattered(), st.booleans()).map(lambda t: dict(t[0], normalized=t[1], ova=False)), check, 40, 600),
    Sub("tall", st.tuples(pdcases.tall(), st.booleans()).map(lambda t: dict(t[0], normalized=t[1], ova=False)), check, 60, 800),
    Sub("wide", st.tuples(pdcases.wide(), st.booleans()).map(lambda t: dict(t[0], normalized=t[1], ova=False)), check, 50, 800),
    Sub("larger", cases(big=(30, 8), max_cols=6, max_rows=12), check, 250, 4000),
]
