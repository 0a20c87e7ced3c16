"""C09: Sejong Oh interactions: membership in the enumerated outcome set, expectation over many repeats."""
import numpy as np
from hypothesis import strategies as st

from artemis.interactions_methods.model_agnostic import SejongOhMethod
from lib import oracle, pdcases, perm
from lib.harness import Sub
from lib.oracle import require

RULE = ("data sets of 1-4 rows, all permutations enumerated for both single and the joint shuffle: the reported value must be the "
        "mean of n_repeat enumerated |joint - single - single| values (exact membership, 1-2 repeats) and, with many repeats, lie "
        "within a Bernstein bound (1e-13) of the exact expectation for independent uniform shuffles. The orders of the shuffles of one long "
        "run, read off the data given to the model, must have frequencies possible (1e-12) for uniform permutations. Non-trivial: the enumerated "
        "values are not all equal.")


@st.composite
def cases(draw, reps=None, **kw):
    case = draw(perm.perm_cases(**kw))
    rows = case["data"].get("rows") or len(case["data"]["cols"][0]["v"])
    case["n"] = draw(st.one_of(st.none(), st.integers(1, rows)))
    eff = case["n"] or rows
    case["reps"] = reps if reps is not None else (1 if eff > 3 else draw(st.integers(1, 2)))
    return case


def outcomes(s, E, y, a, b):
    s1, s2, s12 = s.scores(E, y, [a]), s.scores(E, y, [b]), s.scores(E, y, [a, b])
    return np.abs(s12[:, None, None] - s1[None, :, None] - s2[None, None, :]).ravel()


def fit(case, s):
    m = SejongOhMethod(random_state=case["rs"], **s.metric_kw)
    kw = dict(s.kw)
    if case["n"] is not None:
        kw["n"] = case["n"]
    m.fit(s.model, s.data.X, s.y, n_repeat=case["reps"], **kw)
    table = oracle.pair_table(m)
    pdcases.check_pairs_complete(table, s.requested)
    E = s.data.encode(m.X_sampled)
    require(len(E) == (case["n"] or s.data.n), f"{len(E)} rows explained")
    require(len(m.y_sampled) == len(E), "targets and rows of the sample differ in number")
    return table, E, np.ravel(np.asarray(list(m.y_sampled), dtype=float))


def check(case, ctx):
    s = perm.PermSetup(case)
    table, E, y = fit(case, s)
    for pair, got in table.items():
        a, b = sorted(pair)
        vals = outcomes(s, E, y, s.col(a), s.col(b))
        tol = 1e-9 * max(s.scale, float(np.max(vals)))
        values = perm.distinct(vals, tol)
        reach = perm.reachable_means(values, case["reps"], tol / 10)
        require(min(abs(got - r) for r in reach) <= 2 * tol,
                f"value {got} of {a},{b} is no mean of {case['reps']} of the possible values {values[:40]}")
        ctx.nontrivial(len(values) > 1)
    ctx.event(f"rows {len(E)}, metric {case['metric']}")


def check_mean(case, ctx):
    s = perm.PermSetup(case)
    table, E, y = fit(case, s)
    for pair, got in table.items():
        a, b = sorted(pair)
        vals = outcomes(s, E, y, s.col(a), s.col(b))
        want = float(np.mean(vals))
        dev = perm.bernstein(vals, case["reps"]) + 1e-9 * max(s.scale, float(np.max(vals)))
        require(abs(got - want) <= dev, f"value {got} of {a},{b} over {case['reps']} repeats, expectation {want} +- {dev}")
        ctx.nontrivial(float(np.ptp(vals)) > 1e-9)


def check_default(case, ctx):
    """without n_repeat the average is taken over the documented ten repeats"""
    s = perm.PermSetup(case)
    tables = []
    for kw in ({}, {"n_repeat": 10}):
        m = SejongOhMethod(random_state=case["rs"] if isinstance(case["rs"], int) else 3, **s.metric_kw)
        m.fit(s.model, s.data.X, s.y, **s.kw, **kw)
        tables.append(oracle.pair_table(m))
    require(set(tables[0]) == set(tables[1]), "different pairs")
    for pair, got in tables[0].items():
        want = tables[1][pair]
        require(oracle.close(got, want, 1e-9 * max(1.0, abs(want))), f"value {got} of {sorted(pair)} without n_repeat, {want} with ten repeats and the same seed")
    ctx.nontrivial(len(set(tables[1].values())) > 1)


def check_large(case, ctx):
    seen = perm.Shuffles()
    s = perm.PermSetup(case, record=seen)
    seen.names, seen.kinds = s.names, s.data.kinds
    table, E, y = fit(case, s)
    for cols, B in seen.resolve(E):
        names = [s.names[j] for j in cols]
        require(len(cols) <= 2 and set(names) <= set(s.requested), f"features {names} differ from the data in one evaluation")
        require(perm.is_joint_shuffle(E, B, cols), f"{names} do not hold one common permutation of their original values")
    for pair, got in table.items():
        a, b = sorted(pair)
        a, b = s.col(a), s.col(b)
        s1, s2, s12 = perm.simulate(s, E, y, [[a], [b], [a, b]], 400)
        sim = np.abs(s12 - s1 - s2)
        dev = perm.two_sample(sim, case["reps"])
        require(abs(got - float(np.mean(sim))) <= dev, f"value {got} of {sorted(pair)} over {case['reps']} repeats, uniform shuffles "
                f"average {np.mean(sim)} +- {dev}")
        ctx.nontrivial(float(np.ptp(sim)) > 1e-9)
    ctx.event(f"metric {case['metric']}")


@st.composite
def large(draw):
    case = draw(perm.large_cases())
    case["n"] = draw(st.one_of(st.none(), st.none(), st.integers(5, case["data"]["rows"])))
    case["reps"] = draw(st.sampled_from([1, 12, 60, 120]))
    return case


def check_uniform(case, ctx):
    """the shuffles themselves, read off the data given to the model"""
    seen = perm.Shuffles()
    s = perm.PermSetup(case, record=seen)
    seen.names, seen.kinds = s.names, s.data.kinds
    fit(case, s)
    orders = {}
    blocks = seen.resolve(s.data.E)
    if not seen.whole:
        return
    for cols, B in blocks:
        require(perm.is_joint_shuffle(s.data.E, B, cols), f"{[s.names[j] for j in cols]} do not hold one common permutation of their values")
        if cols:
            orders.setdefault(cols, []).append(perm.order_of(s.data.E[:, cols[0]], B[:, cols[0]]))
    for cols, o in orders.items():
        ctx.nontrivial(perm.judge_uniform(o, f"shuffles of {[s.names[j] for j in cols]} among {s.data.n} rows", require))
    ctx.event(f"{s.data.n} rows")


SUBTESTS = [
    Sub("rich", cases(dense=True, min_rows=3), check, 900, 15000),
    Sub("membership", cases(), check, 900, 15000),
    Sub("large", large(), check_large, 60, 1000),
    Sub("expectation", cases(reps=1000, dense=True, min_rows=3, max_cols=2).map(lambda c: dict(c, n=None, progress=False)),
        check_mean, 80, 1200),
    Sub("default_repeats", perm.perm_cases(dense=True, min_rows=4, max_rows=7), check_default, 100, 1500),
    Sub("uniform", perm.distinct_cases(cols=2, reps=900, n=None), check_uniform, 24, 300),
]
