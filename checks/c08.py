"""C08: permutation importance: membership in the enumerated outcome set, expectation over many repeats."""
import numpy as np
from hypothesis import strategies as st

from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.interactions_methods.model_agnostic import SejongOhMethod
from lib import oracle, perm
from lib.harness import Sub
from lib.oracle import require

RULE = ("data sets of 1-4 rows, all permutations enumerated: the reported importance must be the mean of n_repeat enumerated metric "
        "changes (exact membership for 1-3 repeats) and, with many repeats, must lie within a Bernstein bound (error probability "
        "1e-13) of the exact expectation over uniform permutations. The orders of 1500 shuffles of one run, read off the data given to the "
        "model, must have frequencies possible (1e-12) for independent uniform permutations. Non-trivial: the enumerated changes are not "
        "all equal, or at least 200 shuffles seen.")
ASSUMPTIONS = ["shuffles of one run are independent and uniform (expectation part)"]


@st.composite
def cases(draw, reps=None, **kw):
    case = draw(perm.perm_cases(min_size=1, **kw))
    if case["features"] is not None and len(case["features"]) < 2:
        via = "alone"
    else:
        via = draw(st.sampled_from(["alone", "alone", "sejong"]))
    case["via"] = via
    case["reps"] = draw(st.integers(1, 3)) if reps is None else reps
    return case


def run(case, s, reps):
    if case["via"] == "alone":
        m = PermutationImportance(random_state=case["rs"], **s.metric_kw)
        out = m.importance(s.model, s.data.X, s.y, n_repeat=reps, **s.kw)
        require(out is not None and out.equals(m.feature_importance), "returned table differs from feature_importance")
    else:
        m = SejongOhMethod(random_state=case["rs"], **s.metric_kw)
        m.fit(s.model, s.data.X, s.y, n_repeat=reps, **s.kw)
    table = oracle.feature_table(m.feature_importance, "Importance", "importance")
    require(set(table) == set(s.requested), f"importance lists {sorted(table)}, requested {sorted(s.requested)}")
    return table


def check(case, ctx):
    s = perm.PermSetup(case)
    table = run(case, s, case["reps"])
    for f, got in table.items():
        scores = s.scores(s.data.E, case["y"], [s.col(f)]) * s.sign
        tol = 1e-9 * max(s.scale, float(np.max(np.abs(scores))))
        values = perm.distinct(scores, tol)
        reach = perm.reachable_means(values, case["reps"], tol / 10)
        require(min(abs(got - r) for r in reach) <= 2 * tol,
                f"importance {got} of {f} is no mean of {case['reps']} metric changes out of {values}")
        ctx.nontrivial(len(values) > 1)
    ctx.event(case["via"])
    ctx.event(f"metric {case['metric']}")


def check_mean(case, ctx):
    s = perm.PermSetup(case)
    table = run(case, s, case["reps"])
    for f, got in table.items():
        scores = s.scores(s.data.E, case["y"], [s.col(f)]) * s.sign
        want = float(np.mean(scores))
        dev = perm.bernstein(scores, case["reps"]) + 1e-9 * max(s.scale, float(np.max(np.abs(scores))))
        require(abs(got - want) <= dev, f"importance {got} of {f} over {case['reps']} repeats, expectation {want} +- {dev}")
        ctx.nontrivial(float(np.ptp(scores)) > 1e-9)
    ctx.event(case["via"])


def check_large(case, ctx):
    """more rows than can be enumerated: every evaluated data set is a shuffle of one feature, and the reported value is the mean
    of the changes actually evaluated and agrees with simulated uniform shuffles"""
    seen = perm.Shuffles()
    s = perm.PermSetup(case, record=seen)
    seen.names, seen.kinds = s.names, s.data.kinds
    table = run(dict(case, via="alone"), s, case["reps"])
    E, y = s.data.E, np.asarray(case["y"], dtype=float)
    base = s.metric(y, s.predict(E))
    changes = {f: 0.0 for f in table}
    for cols, B in seen.resolve(E):
        require(len(cols) <= 1, f"features {[s.names[j] for j in cols]} differ from the data in one evaluation")
        for j in cols:
            require(s.names[j] in changes, f"{s.names[j]} was modified, but only {list(changes)} requested")
            require(perm.is_joint_shuffle(E, B, cols), f"values of {s.names[j]} are not a permutation of the original values")
            changes[s.names[j]] += s.metric(y, s.predict(B)) - base
    for f, got in table.items():
        sim = perm.simulate(s, E, y, [[s.col(f)]], 400)[0] * s.sign
        tol = 1e-8 * max(s.scale, float(np.max(np.abs(sim))))
        if seen.whole:
            want = changes[f] / case["reps"] * s.sign
            require(abs(got - want) <= tol, f"importance of {f} is {got}, the evaluated shuffles average {want}")
        dev = perm.two_sample(sim, case["reps"])
        require(abs(got - float(np.mean(sim))) <= dev, f"importance {got} of {f} over {case['reps']} repeats, "
                f"uniform shuffles average {np.mean(sim)} +- {dev}")
        ctx.nontrivial(float(np.ptp(sim)) > 1e-9)
    ctx.event(f"metric {case['metric']}")


def check_uniform(case, ctx):
    """the shuffles themselves, read off the data given to the model"""
    seen = perm.Shuffles()
    s = perm.PermSetup(case, record=seen)
    seen.names, seen.kinds = s.names, s.data.kinds
    run(case, s, case["reps"])
    orders = {}
    for cols, B in seen.resolve(s.data.E):
        if len(cols) == 1:
            require(perm.is_joint_shuffle(s.data.E, B, cols), f"values of {s.names[cols[0]]} are not a permutation of the original values")
            orders.setdefault(cols[0], []).append(perm.order_of(s.data.E[:, cols[0]], B[:, cols[0]]))
    if not seen.whole:
        return
    for j, o in orders.items():
        ctx.nontrivial(perm.judge_uniform(o, f"shuffles of {s.names[j]} among {s.data.n} rows", require))
    ctx.event(f"{s.data.n} rows")


SUBTESTS = [
    Sub("rich", cases(dense=True, min_rows=3), check, 1200, 20000),
    Sub("membership", cases(), check, 1200, 20000),
    Sub("large", st.tuples(perm.large_cases(min_size=1), st.sampled_from([1, 2, 11, 40, 150])).map(lambda t: dict(t[0], reps=t[1])),
        check_large, 90, 1500),
    Sub("expectation", cases(reps=1200, dense=True, min_rows=3).map(lambda c: dict(c, via="alone", progress=False)), check_mean,
        100, 1500),
    Sub("uniform", perm.distinct_cases(cols=1, via="alone", reps=1500), check_uniform, 24, 400),
]
