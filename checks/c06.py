"""C06: additivity index and its details against brute force."""
import numpy as np
from hypothesis import strategies as st

from lib import gen, oracle, pdcases
from lib.harness import Sub
from lib.oracle import require

RULE = ("random data sets, models with non-constant predictions, sample and batch sizes; index, returned value and per-row details "
        "are compared with brute force; additive models must give 1. Non-trivial: the index is between 0 and 1, clearly below 1.")
ASSUMPTIONS = ["the index is compared where the variance of predictions exceeds rounding level"]


def check(case, ctx):
    s = pdcases.Setup(case)
    m_kw = {}
    from artemis.additivity import AdditivityMeter
    m = AdditivityMeter(random_state=case["rs"])
    got = m.fit(s.model, s.data.X, **s.fit_kw, **m_kw)
    ref = s.ref(m.X_sampled)
    num, den = ref.additivity()
    tol = 1e-9 * ref.scale
    mean = float(np.mean(ref.preds))
    full = m.full_result
    require(full is not None and len(full) == ref.n, "details do not have one row per explained row")
    require(set(full.columns) == set(s.names) | {"centered_prediction"}, f"details have columns {list(full.columns)}")
    for name in s.names:
        want = ref.single_rows(s.col(name)) - mean
        require(np.allclose(full[name].values.astype(float), want, rtol=0, atol=tol), f"details of {name} are {list(full[name])}, "
                f"definition gives {list(want)}")
    require(np.allclose(full["centered_prediction"].values.astype(float), ref.preds - mean, rtol=0, atol=tol),
            "centred predictions in the details are wrong")
    if not ref.den_ok(den):
        ctx.event("predictions (nearly) constant, index not compared")
        return
    want = 1 - num / den
    require(oracle.close(got, m.additivity_index, 0), f"returned {got} but stored {m.additivity_index}")
    require(oracle.close(got, want, 1e-7 * max(1, abs(want))), f"index is {got}, definition gives {want}")
    require(got <= 1 + 1e-9, f"index {got} exceeds 1")
    additive = case["model"]["kind"] in ("reg", "pf") and not gen.joint_pairs(case["model"])
    if additive:
        require(oracle.close(got, 1, 1e-7), f"index {got} for an additive model")
        ctx.event("additive model")
    ctx.nontrivial(want < 1 - 1e-6)
    ctx.event("negative" if want < 0 else "in [0,1]")


def cases(**kw):
    return pdcases.fit_cases(min_rows=2, min_terms=1, **kw).map(lambda c: dict(c, features=None))


SUBTESTS = [
    Sub("rich", pdcases.rich(big=(15, 8), max_cols=5).map(lambda c: dict(c, features=None)), check, 2500, 30000),
    Sub("index", cases(max_cols=5), check, 2500, 40000),
    Sub("many_values", pdcases.many().map(lambda c: dict(c, features=None)), check, 90, 1500),
    Sub("tall", pdcases.tall().map(lambda c: dict(c, features=None)), check, 60, 800),
    Sub("wide", pdcases.wide().map(lambda c: dict(c, features=None)), check, 80, 1200),
    Sub("larger", cases(big=(50, 10), max_cols=6, max_rows=15), check, 300, 4000),
]
