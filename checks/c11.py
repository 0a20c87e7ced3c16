"""C11: sampled rows are intact, distinct, uniformly drawn and keep their targets."""
import itertools
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from artemis._utilities.performance_metrics import RMSE, Accuracy
from artemis.additivity import AdditivityMeter
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from lib import gen, oracle, perm
from lib.harness import Sub
from lib.oracle import require

RULE = ("random data sets whose rows carry an identity column, any index and target container, any sample size, all methods that "
        "sample; sampled rows compared with the given ones cell by cell, targets with a function of the row identity, what the model "
        "is asked with the sampled identities, and results with those of explaining the sampled rows directly; inclusion frequencies "
        "of rows and pairs of rows over 400 seeds compared with uniform sampling, and numbers of equal rows in the sample with the "
        "hypergeometric distribution (Bernstein bound, error probability 1e-10); tables of up to 3200 rows with samples of any size. "
        "Non-trivial: a real subset of at least one row is drawn and the index is not the default or all rows are used.")
ASSUMPTIONS = ["samples for different seeds are independent (frequency part)"]
METHODS = ["h", "greenwell", "importance", "additivity", "sejong"]
ROW = "row"


@st.composite
def cases(draw, max_rows=9):
    data = draw(gen.data_specs(min_cols=1, max_cols=3, min_rows=1, max_rows=max_rows, kinds="ffibskjh"))
    rows = len(data["cols"][0]["v"])
    step, off = draw(st.sampled_from([(1, 0), (-1, 5), (3, 100)]))
    ids = [off + step * i for i in (draw(st.permutations(range(rows))) if draw(st.booleans()) else range(rows))]
    data["cols"].insert(draw(st.integers(0, len(data["cols"]))), dict(n=ROW, k="u", v=ids))
    names = gen.names_of(data)
    method = draw(st.sampled_from(METHODS + ["sejong", "sejong"]))
    model = draw(gen.model_specs(len(names), kinds=("reg", "cls") if method == "sejong" else ("reg", "proba"), min_terms=2,
                                 offsets=(0.0,)))
    n = draw(st.one_of(st.integers(1, rows), st.integers(1, rows), st.just(rows), st.none()))
    return dict(data=data, model=model, method=method, n=n, rs=draw(st.sampled_from([None, 0, 3])),
                yc=draw(st.sampled_from(perm.Y_CONTAINERS)), features=draw(gen.feature_lists(names)), again=draw(st.integers(0, 2)))


def target(case, i):
    return float(7 * i % 1000) - 3.5 if case["model"]["kind"] == "reg" else int(i) % 3


def build(case):
    cls = case["model"]["kind"] == "cls"
    rs = case["rs"]
    return {"h": lambda: FriedmanHStatisticMethod(random_state=rs), "greenwell": lambda: GreenwellMethod(random_state=rs),
            "importance": PartialDependenceBasedImportance, "additivity": lambda: AdditivityMeter(random_state=rs),
            "sejong": lambda: SejongOhMethod(Accuracy() if cls else RMSE(), random_state=rs)}[case["method"]]()


def explain(case, m, model, X, y, n, reps=2):
    kw = {} if n is None else {"n": n}
    if case["method"] == "h" and "rows" in case["data"]:
        kw["calculate_ova"] = False          # quadratic in the number of rows
    if case["method"] != "additivity" and case.get("features") is not None:
        kw["features"] = list(case["features"])
    if case["method"] == "importance":
        m.importance(model, X, **kw)
    elif case["method"] == "sejong":
        m.fit(model, X, y, n_repeat=reps, **kw)
    else:
        m.fit(model, X, **kw)
    return m


def ids_of(X):
    require(ROW in X.columns, f"sample has columns {list(X.columns)}")
    return [float(v) for v in X[ROW].values]


def check(case, ctx):
    data = gen.Data(case["data"])
    X = data.X
    given = {r[list(X.columns).index(ROW)]: r for r in X.itertuples(index=False, name=None)}
    y = perm.make_y([target(case, i) for i in X[ROW]], case["yc"], X)
    asked, sizes = set(), set()

    def record(Q, how):
        asked.update(float(v) for v in np.unique(Q[ROW].values))
        sizes.add(len(Q))

    model, _ = gen.build_model(case["model"], data, record=record)
    m = build(case)
    for _ in range(case["again"]):          # earlier fits of the same object draw other samples
        explain(case, m, model, X, y, case["n"])
    asked.clear()
    sizes.clear()
    explain(case, m, model, X, y, case["n"])
    want = data.n if case["n"] is None else case["n"]
    S = m.X_sampled
    require(list(S.columns) == list(X.columns), f"sample has columns {list(S.columns)}")
    require(len(S) == want, f"{len(S)} rows sampled, {want} requested")
    ids = ids_of(S)
    require(len(set(ids)) == want, f"sampled rows are not distinct: {ids}")
    for r, i in zip(S.itertuples(index=False, name=None), ids):
        require(i in given and tuple(r) == tuple(given[i]), f"sampled row {r} is not a row of the data")
    if case["n"] is None:
        require(sorted(ids) == sorted(given), "not all rows are used")
    require(asked <= set(ids), f"the model was asked about rows {sorted(asked - set(ids))} outside the sample {sorted(ids)}")
    if case["method"] == "sejong":
        require(sizes == {want}, f"data sets of {sorted(sizes)} rows given to the model, sample has {want}")
        ys = list(m.y_sampled)
        require(len(ys) == want and all(a == target(case, i) for a, i in zip(ys, ids)),
                f"targets {ys} do not belong to the sampled rows {ids}")
        if want <= 3:
            sejong_values(case, data, m, ids, ctx)
    else:
        compare(case, data, m, S)
    ctx.nontrivial(case["n"] is None or case["n"] < data.n)
    ctx.event(case["method"])
    ctx.event("index " + case["data"]["index"])


def compare(case, data, m, S):
    """results are those of explaining exactly the sampled rows"""
    fresh = explain(case, build(case), gen.build_model(case["model"], data)[0], S, None, None)
    if case["method"] == "additivity":
        a, b = m.additivity_index, fresh.additivity_index
        require(oracle.close(a, b, 1e-7 * max(1, abs(b)) if np.isfinite(b) else 0),
                f"additivity index {a}, for the sampled rows alone {b}")
    else:
        for t in ("ovo", "ova", "feature_importance"):
            if hasattr(m, t):
                same(getattr(m, t), getattr(fresh, t), t)


def same(a, b, what):
    """equal values per feature (pair), in any order among rows"""
    require((a is None) == (b is None), f"{what} is {a} and {b}")
    if a is None:
        return
    key = [c for c in a.columns if c.startswith("Feature")]
    val = [c for c in a.columns if c not in key]
    as_dict = lambda d: {tuple(sorted(k)): v for k, v in zip(zip(*[d[c] for c in key]), zip(*[d[c] for c in val]))}
    x, y = as_dict(a), as_dict(b)
    require(set(x) == set(y), f"{what} lists {sorted(x)} and for the sampled rows alone {sorted(y)}")
    for k in x:
        for p, q in zip(x[k], y[k]):
            require(oracle.close(p, q, 1e-7 * max(1, abs(q)) if np.isfinite(q) else 0),
                    f"{what} of {k} is {p}, for the sampled rows alone {q}")


def sejong_values(case, data, m, ids, ctx):
    """every value must be reachable by shuffling the sampled rows with their own targets"""
    E = data.encode(m.X_sampled)
    y = np.array([target(case, i) for i in ids], dtype=float)
    spec = case["model"]
    metric = perm.METRICS["rmse" if spec["kind"] == "reg" else "acc"][1]
    base = metric(y, gen.plain(spec, E))

    def scores(cols):
        out = []
        for p in itertools.permutations(range(len(E))):
            M = E.copy()
            M[:, cols] = E[list(p)][:, cols]
            out.append(metric(y, gen.plain(spec, M)) - base)
        return np.array(out)

    for pair, got in oracle.pair_table(m).items():
        a, b = [data.names.index(f) for f in sorted(pair)]
        vals = np.abs(scores([a, b])[:, None, None] - scores([a])[None, :, None] - scores([b])[None, None, :]).ravel()
        tol = 1e-9 * max(1, float(np.max(vals)), abs(base))
        reach = perm.reachable_means(perm.distinct(vals, tol), 2, tol / 10)
        require(min(abs(got - r) for r in reach) <= 2 * tol, f"value {got} of {sorted(pair)} is not that of the sampled rows {ids}")
    ctx.event("sejong values enumerated")


@st.composite
def large_cases(draw):
    """more rows, and larger samples, than any block size a method works with"""
    method = draw(st.sampled_from(METHODS))
    g = gen.lcg(draw(st.integers(0, 10 ** 6)))       # sizes spread evenly, large ones are the point
    rows = 2 + next(g) % 3500
    n = draw(st.sampled_from([1 + next(g) % rows, rows // 2 + 1 + next(g) % (rows - rows // 2), rows - 1, rows, None]))
    cols = [dict(n=x, k=draw(st.sampled_from("fibsk")), lev=1 + next(g) % 4) for x in "bc"]
    cols.insert(1, dict(n=ROW, k="u", seq=True) if method == "sejong" else dict(n=ROW, k="u", lev=1 + next(g) % 12))
    data = dict(cols=cols, rows=rows, r=draw(st.integers(0, 10 ** 6)), index=draw(st.sampled_from(gen.INDEX_KINDS)))
    model = draw(gen.model_specs(3, kinds=("reg", "cls") if method == "sejong" else ("reg", "proba"), min_terms=2, offsets=(0.0,)))
    return dict(data=data, model=model, method=method, n=n, rs=draw(st.sampled_from([None, 0, 3])),
                yc=draw(st.sampled_from(perm.Y_CONTAINERS)), features=None, again=0)


def check_large(case, ctx):
    if case["method"] == "sejong":
        check(case, ctx)
        return
    data = gen.Data(case["data"])
    m = explain(case, build(case), gen.build_model(case["model"], data)[0], data.X, None, case["n"])
    S, want = m.X_sampled, data.n if case["n"] is None else case["n"]
    require(len(S) == want, f"{len(S)} rows sampled, {want} requested")
    have, got = (Counter(D.itertuples(index=False, name=None)) for D in (data.X, S))
    require(all(got[r] <= have[r] for r in got), "the sample holds rows that the data does not hold, or more often")
    compare(case, data, m, S)
    ctx.nontrivial(case["n"] is None or case["n"] < data.n)
    ctx.event(case["method"])


@st.composite
def copy_cases(draw):
    """rows that are equal to each other are still separate rows"""
    rows = draw(st.integers(3, 8))
    odd = draw(st.integers(1, rows // 2))
    vals = draw(st.permutations([1] * odd + [0] * (rows - odd)))
    data = dict(cols=[dict(n=ROW, k=draw(st.sampled_from("uui")), v=[4 + v for v in vals]), dict(n="b", k="s", v=[3] * rows)],
                index=draw(st.sampled_from(gen.INDEX_KINDS)))
    return dict(data=data, model=dict(kind="reg", off=0.0, terms=[[1.0, [[0, "id"]]]]), method=draw(st.sampled_from(METHODS)),
                n=draw(st.integers(1, rows - 1)), features=None, yc=draw(st.sampled_from(perm.Y_CONTAINERS)),
                base=draw(st.integers(0, 10 ** 6)), one=draw(st.booleans()))


def check_copies(case, ctx):
    """number of odd rows in the sample: hypergeometric"""
    from math import comb
    data = gen.Data(case["data"])
    model, _ = gen.build_model(case["model"], data)
    vals = [float(v) for v in data.X[ROW]]
    top = max(vals)
    y = perm.make_y([target(case, v) for v in vals], case["yc"], data.X)
    K, N, n, odd = 300, data.n, case["n"], vals.count(max(vals))
    seen = np.zeros(n + 1)
    m = build(dict(case, rs=case["base"]))
    for k in range(K):
        if not case["one"]:
            m = build(dict(case, rs=case["base"] + k))
        explain(case, m, model, data.X, y, n, reps=1)
        got = ids_of(m.X_sampled)
        require(len(got) == n, f"{len(got)} rows sampled, {n} requested")
        require(set(got) <= set(vals), f"sampled values {got} are not in the data")
        seen[got.count(top)] += 1
        if case["method"] == "sejong":
            require(all(a == target(case, i) for a, i in zip(m.y_sampled, got)), f"targets {list(m.y_sampled)} of rows {got}")
    for j in range(n + 1):
        p = comb(odd, j) * comb(N - odd, n - j) / comb(N, n)
        require(abs(seen[j] / K - p) <= perm_dev(p, K), f"{j} of {odd} equal rows ({N} in all) were in {seen[j] / K:.3f} of samples "
                                                        f"of {n}, expected {p:.3f}")
    ctx.nontrivial(True)
    ctx.event(case["method"])


@st.composite
def freq_cases(draw):
    rows = draw(st.integers(2, 6))
    data = dict(cols=[dict(n=ROW, k="u", v=list(range(rows))), dict(n="b", k="i", v=[3] * rows)],
                index=draw(st.sampled_from(gen.INDEX_KINDS)))
    return dict(data=data, model=dict(kind="reg", off=0.0, terms=[[1.0, [[0, "id"]]]]), method=draw(st.sampled_from(METHODS)),
                n=draw(st.integers(1, rows)), features=None, yc=draw(st.sampled_from(perm.Y_CONTAINERS)),
                base=draw(st.integers(0, 10 ** 6)), one=draw(st.booleans()))


def check_freq(case, ctx):
    data = gen.Data(case["data"])
    model, _ = gen.build_model(case["model"], data)
    y = perm.make_y([target(case, i) for i in data.X[ROW]], case["yc"], data.X)
    K, N, n = 400, data.n, case["n"]
    single, pairs = np.zeros(N), np.zeros((N, N))
    m = build(dict(case, rs=case["base"]))
    for k in range(K):
        if not case["one"]:
            m = build(dict(case, rs=case["base"] + k))
        explain(case, m, model, data.X, y, n, reps=1)
        got = [int(i) for i in ids_of(m.X_sampled)]
        require(len(set(got)) == n, f"sample {got}")
        single[got] += 1
        for a in got:
            pairs[a, got] += 1
    p1 = n / N
    dev = lambda p: perm_dev(p, K)
    for i in range(N):
        require(abs(single[i] / K - p1) <= dev(p1), f"row {i} of {N} was drawn in {single[i] / K:.3f} of samples of {n}, expected {p1:.3f}")
        for j in range(i):
            p2 = n * (n - 1) / (N * (N - 1))
            require(abs(pairs[i, j] / K - p2) <= dev(p2),
                    f"rows {i},{j} of {N} were drawn together in {pairs[i, j] / K:.3f} of samples of {n}, expected {p2:.3f}")
    ctx.nontrivial(n < N)
    ctx.event(case["method"] + (", one object" if case["one"] else ", one object per seed"))


def perm_dev(p, K, delta=1e-10):
    L = np.log(2 / delta)
    return float(np.sqrt(2 * p * (1 - p) * L / K) + L / (3 * K) + 1e-9)


SUBTESTS = [
    Sub("sample", cases(), check, 1200, 20000),
    Sub("large", large_cases(), check_large, 120, 1500),
    Sub("frequency", freq_cases(), check_freq, 32, 300),
    Sub("copies", copy_cases(), check_copies, 32, 300),
]
