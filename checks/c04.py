"""C04: Greenwell interaction against brute force."""
from lib import oracle, pdcases
from lib.harness import Sub
from lib.oracle import require

RULE = ("random data sets with numeric, boolean, text and constant columns, models, feature subsets in any order, sample and "
        "batch sizes; every pair is compared with the definition computed by brute force. Non-trivial: some value clearly positive.")


def check(case, ctx):
    s = pdcases.Setup(case)
    m = s.greenwell()
    ref = s.ref(m.X_sampled)
    table = oracle.pair_table(m)
    pdcases.check_pairs_complete(table, s.requested)
    for pair, got in table.items():
        a, b = sorted(pair)
        want = ref.greenwell(s.col(a), s.col(b), s.numeric(a), s.numeric(b))
        require(oracle.close(got, want, 1e-8 * ref.scale), f"Greenwell value of {a},{b} is {got}, definition gives {want}")
        ctx.nontrivial(want > 1e-6 * ref.scale)
        if want > 1e-6 * ref.scale:
            ctx.event("positive, %d categorical" % (2 - s.numeric(a) - s.numeric(b)))


SUBTESTS = [
    Sub("rich", pdcases.rich(), check, 1500, 20000),
    Sub("pairs", pdcases.fit_cases(max_rows=6), check, 1500, 20000),
    Sub("many_values", pdcases.many(big=(45, 60), min_rows=25, max_cols=2), check, 50, 800),
    Sub("tall", pdcases.tall(), check, 60, 800),
    Sub("wide", pdcases.wide(), check, 40, 600),
    Sub("larger", pdcases.fit_cases(big=(25, 6), max_cols=5, max_rows=8), check, 200, 3000),
]
