"""Shared pieces for the shuffling based methods: targets, metrics, and exhaustive enumeration of outcomes."""
import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from artemis._utilities.domain import ProblemType
from artemis._utilities.performance_metrics import MSE, RMSE, Accuracy, Metric
from lib import gen
from lib.gen import Data


class MaxError(Metric):
    def __init__(self):
        super().__init__(ProblemType.REGRESSION)

    def calculate(self, y_true, y_hat):
        return float(np.max(np.abs(np.ravel(np.asarray(y_true, dtype=float)) - np.ravel(np.asarray(y_hat, dtype=float)))))


class WeightedHits(Metric):
    """user-defined classification metric that depends on the pairing of targets and predictions by row"""

    def __init__(self):
        super().__init__(ProblemType.CLASSIFICATION)

    def calculate(self, y_true, y_hat):
        return weighted_hits(np.ravel(y_true), np.ravel(y_hat))


def weighted_hits(y, p):
    return float(np.sum((y == p) * (1.0 + 0.25 * y)) / len(y))


METRICS = {
    "rmse": (RMSE, lambda y, p: math.sqrt(float(np.mean((y - p) ** 2))), 1),
    "mse": (MSE, lambda y, p: float(np.mean((y - p) ** 2)), 1),
    "max": (MaxError, lambda y, p: float(np.max(np.abs(y - p))), 1),
    "acc": (Accuracy, lambda y, p: float(np.mean(y == p)), -1),
    "hits": (WeightedHits, weighted_hits, -1),
}
Y_CONTAINERS = ["array", "list", "series", "series_index", "column"]


def make_y(values, container, X):
    if container == "array":
        return np.array(values)
    if container == "list":
        return list(values)
    if container == "column":
        return np.array(values).reshape(-1, 1)
    if container == "series":
        return pd.Series(values)
    return pd.Series(values, index=X.index)


@st.composite
def perm_cases(draw, max_rows=4, max_cols=3, min_rows=1, dense=False, min_cols=2, names=None, **kw):
    data = draw(gen.data_specs(min_cols=min_cols, max_cols=max_cols, names=names, min_rows=min_rows, max_rows=max_rows,
                               kinds="ffiibskc" if not dense else "ffibsk", dense=dense, big=(max_rows, 5) if dense else None))
    names = gen.names_of(data)
    rows = data["rows"] if "rows" in data else len(data["cols"][0]["v"])
    problem = draw(st.sampled_from(["reg", "cls"]))
    model = draw(gen.model_specs(len(names), kinds=["reg", "pf"] if problem == "reg" else ["proba", "cls", "proba3"],
                                 offsets=(0.0, 1.0, -5.0), min_terms=2 if dense else 0, first_order=2 if dense else 1))
    if model["kind"] == "pf":
        model["opaque"] = False     # performance based methods use predict
    metric = draw(st.sampled_from(["rmse", "rmse", "mse", "max", None] if problem == "reg" else ["acc", "acc", "hits"]))
    y = draw(st.lists(st.integers(-3, 3) if problem == "reg" else st.integers(0, 1), min_size=rows, max_size=rows))
    return dict(data=data, model=model, metric=metric, y=y, yc=draw(st.sampled_from(Y_CONTAINERS)),
                features=draw(gen.feature_lists(names, **kw)), rs=draw(st.sampled_from([None, 0, 7])),
                progress=draw(st.integers(0, 4)) == 0)


class PermSetup:
    def __init__(self, case, **kw):
        self.case = case
        self.data = Data(case["data"])
        self.names = self.data.names
        m, _ = gen.build_model(case["model"], self.data, **kw)
        self.model = m
        self.spec = case["model"]
        self.y = make_y(case["y"], case["yc"], self.data.X)
        cls, self.metric, self.sign = METRICS[case["metric"] or "rmse"]
        self.metric_kw = {} if case["metric"] is None else {"metric": cls()}
        self.features = case["features"]
        self.requested = self.names if self.features is None else self.features
        self.kw = {}
        if self.features is not None:
            self.kw["features"] = list(self.features)
        if case["progress"]:
            self.kw["show_progress"] = True

    def predict(self, E):
        if self.spec["kind"] == "pf":
            return gen.raw(self.spec, E) * -3 + 5
        return gen.plain(self.spec, E)

    def col(self, f):
        return self.names.index(f)

    def scores(self, E, y, cols):
        """metric change for every permutation of the rows applied to `cols` (with multiplicity)"""
        y = np.ravel(np.asarray(y, dtype=float))
        base = self.metric(y, self.predict(E))
        self.scale = max(1.0, abs(base))
        out = []
        for p in itertools.permutations(range(len(E))):
            M = E.copy()
            for c in cols:
                M[:, c] = E[list(p), c]
            out.append(self.metric(y, self.predict(M)) - base)
        return np.array(out)


def distinct(values, tol):
    out = []
    for v in sorted(values):
        if not out or v - out[-1] > tol:
            out.append(float(v))
    return out


def reachable_means(values, r, tol):
    """all means of r (not necessarily different) elements of `values`"""
    sums = [0.0]
    for _ in range(r):
        sums = distinct([s + v for s in sums for v in values], tol)
    return [s / r for s in sums]


def bernstein(values, n, delta=1e-13):
    """deviation of a mean of n independent draws exceeded with probability below delta"""
    var, rng = float(np.var(values)), float(np.max(values) - np.min(values))
    L = math.log(2 / delta)
    return math.sqrt(2 * var * L / n) + rng * L / (3 * n)


# ---------------------------------------------------------------- larger tables: shuffles are observed at the model

@st.composite
def large_cases(draw, max_cols=3, **kw):
    data = draw(gen.data_specs(min_cols=2, max_cols=max_cols, min_rows=8, kinds="uuuffisk", dense=True, big=(150, 160), min_lev=4))
    names = gen.names_of(data)
    problem = draw(st.sampled_from(["reg", "cls"]))
    model = draw(gen.model_specs(len(names), kinds=["reg", "pf"] if problem == "reg" else ["proba", "cls", "proba3"],
                                 offsets=(0.0, 1.0, -5.0), min_terms=2, first_order=2))
    if model["kind"] == "pf":
        model["opaque"] = False
    metric = draw(st.sampled_from(["rmse", "mse", "max", None] if problem == "reg" else ["acc", "hits"]))
    g = gen.lcg(draw(st.integers(0, 10 ** 6)))
    y = [int(next(g) % (7 if problem == "reg" else 2)) for _ in range(data["rows"])]
    return dict(data=data, model=model, metric=metric, y=y, yc=draw(st.sampled_from(Y_CONTAINERS)),
                features=draw(gen.feature_lists(names, **kw)), rs=draw(st.sampled_from([None, 0, 7])), progress=False)


class Shuffles:
    """Observes the data sets a shuffling method asks predictions for. Each set of rows is split into consecutive blocks of
    the size of the data; every block must be the data with some columns permuted by one common permutation."""

    def __init__(self):
        self.blocks, self.whole = [], True
        self.names = self.kinds = None

    def __call__(self, X, how):
        self.blocks.append(np.column_stack([gen.encode_col(self.kinds[n], X[n].values) for n in self.names]))

    def resolve(self, E):
        """-> list of (set of changed columns, encoded block)"""
        n, out = len(E), []
        for M in self.blocks:
            if len(M) % n:
                self.whole = False      # predictions asked in other portions: single shuffles cannot be told apart
                continue
            for i in range(0, len(M), n):
                B = M[i:i + n]
                out.append((tuple(j for j in range(E.shape[1]) if not np.array_equal(B[:, j], E[:, j])), B))
        return out


def is_joint_shuffle(E, B, cols):
    cols = list(cols)
    return sorted(map(tuple, E[:, cols].tolist())) == sorted(map(tuple, B[:, cols].tolist()))


def simulate(s, E, y, colsets, draws, seed=12345):
    """metric changes for random common permutations of each set of columns"""
    rng = np.random.default_rng(seed)
    y = np.ravel(np.asarray(y, dtype=float))
    base = s.metric(y, s.predict(E))
    s.scale = max(1.0, abs(base))
    out = []
    for cols in colsets:
        v = np.empty(draws)
        for r in range(draws):
            p = rng.permutation(len(E))
            M = E.copy()
            for c in cols:
                M[:, c] = E[p, c]
            v[r] = s.metric(y, s.predict(M)) - base
        out.append(v)
    return out


def two_sample(values, n):
    """generous deviation between the mean of n draws and the mean of the given simulated draws (none if there are too few
    draws, or if nearly all simulated values are equal so that rare values may have gone unseen)"""
    mid = float(np.median(values))
    if n < 10 or np.mean(np.abs(values - mid) <= 1e-9 * max(1.0, abs(mid))) > 0.9:
        return math.inf
    sd, rng = float(np.std(values)), float(np.ptp(values))
    se = sd * math.sqrt(1 / n + 1 / len(values))
    return 9 * se + 4 * rng / n + 4 * rng / len(values) + 1e-9 * max(1.0, float(np.max(np.abs(values))))


# ---------------------------------------------------------------- distribution of the shuffles

@st.composite
def distinct_cases(draw, cols, **kw):
    """tables whose columns hold pairwise different values, so that every shuffle can be read off the data given to the model"""
    rows = draw(st.sampled_from([3, 3, 4, 8, 11]))
    names = draw(st.permutations(gen.SAFE_NAMES))[:cols]
    data = {"cols": [{"k": draw(st.sampled_from("ffis")), "n": n, "v": draw(st.permutations(range(12)))[:rows]} for n in names],
            "index": draw(st.sampled_from(gen.INDEX_KINDS))}
    model = draw(gen.model_specs(cols, kinds=["reg"], min_terms=1, first_order=1))
    return dict(data=data, model=model, metric=draw(st.sampled_from(["rmse", "mse", None])), y=draw(st.permutations(range(rows))),
                yc=draw(st.sampled_from(Y_CONTAINERS)), features=None, rs=draw(st.sampled_from([None, 0, 1, 7])), progress=False, **kw)


def order_of(original, shuffled):
    at = {v: i for i, v in enumerate(original.tolist())}
    return tuple(at[v] for v in shuffled.tolist())


def judge_uniform(orders, what, require, delta=1e-12):
    """`orders`: successive shuffles other than the identity (which cannot be told from unmodified data). Every event below has a known
    probability under independent uniform shuffles; its frequency has to lie within a Bernstein bound."""
    N, n = len(orders), len(orders[0]) if orders else 0
    if N < 200:
        return False
    L = math.log(2 / delta)

    def near(freq, p, total, event):
        dev = math.sqrt(2 * p * (1 - p) * L / total) + L / (3 * total) + (1e-3 if n > 4 else 0.0)
        require(abs(freq - p) <= dev, f"{what}: {event} in a share of {freq:.3f} of {total} shuffles, {p:.3f} +- {dev:.3f} is possible")

    def share(event):
        return sum(map(event, orders)) / N
    if n <= 4:
        m = math.factorial(n) - 1
        for p in list(itertools.permutations(range(n)))[1:]:
            near(share(lambda o: o == p), 1 / m, N, f"order {p}")
        near(sum(a == b for a, b in zip(orders, orders[1:])) / (N - 1), 1 / m, N - 1, "the preceding order repeated")
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.permutations(range(n), 2):
                q = (math.factorial(n - 2) - (a == i and b == j)) / m
                near(share(lambda o: o[i] == a and o[j] == b), q, N, f"rows {a}, {b} at {i}, {j}")
    else:
        near(sum(a == b for a, b in zip(orders, orders[1:])) / (N - 1), 0.0, N - 1, "the preceding order repeated")
        for i in range(n - 1):
            near(share(lambda o: o[i + 1] == o[i] + 1), 1 / n, N, f"neighbouring rows kept together at {i}")
            near(share(lambda o: o[i] < o[i + 1]), 0.5, N, f"ascending rows at {i}")
    for i in range(n):
        for a in range(n):
            q = (math.factorial(n - 1) - (i == a)) / (math.factorial(n) - 1)
            near(share(lambda o: o[i] == a), q, N, f"row {a} at {i}")
    return True
