"""Generators of data sets and models (as JSON-able descriptions) and their realisation.

Data set:  {"cols": [{"n": name, "k": kind, "v": [level, ...]}, ...], "index": kind}
  kinds: f float, g float (large/small magnitudes), n nearly equal floats, i int, l large int, b bool, s text, k category,
         c constant float, h float32, j int8, y uint8, t date, u float equal to the level (row identities)
  A level is a small integer; realise() maps it to a cell value, code() to the number the models compute with.
Model:     {"kind": ..., "terms": [[coef, [[column, fn], ...]], ...], "off": offset}
  prediction raw(x) = off + sum coef * prod fn(code of column)
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lib.harness import Violation

NAMES = ["a", "b", "ab", "c", "bc", "abc", "A", "a-b", "x 1", "ż", "Feature", "b:c", "d", "index", "value", "1"]
SAFE_NAMES = ["a", "b", "ab", "c", "bc", "abc", "a_b", "x1", "B", "d", "Feature", "xx"]
F = [-2.5, -1.0, -0.5, 0.0, 0.25, 1.0, 1.5, 3.0, 0.1, 0.7, -0.3, 2.2]
G = [0.0, 1000.0, 1e-3, -70.5, 12345.678, 0.5, -1e-3, 33.3, 5e3, -2e3, 7.0, 0.1]
S = ["a", "b", "", "B", "aa", "zz", "ą", " x", "c", "d", "1", "10"]
N = [0.3, 0.1 + 0.2, 1.0, 1.0 + 2 ** -52, 1e5, 1e5 + 1e-3, -7.0, -7.0 + 2 ** -50, 2.5, 2.5000001, 0.0, 5e-324]
NLEV = 12
BASE = 10 ** 9
HUGE = 2 ** 60      # whole numbers that floats cannot tell apart


DAY0 = np.datetime64("2020-02-25", "ns")


def cell(kind, level):
    if kind == "u":
        return float(level)
    l = level % NLEV
    if kind == "f":
        return F[l]
    if kind == "g":
        return G[l]
    if kind == "n":
        return N[l]
    if kind == "l":
        return BASE + l
    if kind == "q":
        return HUGE + l
    if kind == "h":
        return np.float32(F[l] if l < 8 else l)
    if kind in "ij":
        return l - 4
    if kind == "b":
        return l % 2 == 1
    if kind == "y":
        return l * 20
    if kind == "t":
        return DAY0 + np.timedelta64(l, "D")
    if kind in "sk":
        return S[l]
    if kind == "c":
        return 1.5
    raise ValueError(kind)


DTYPE = {"f": float, "g": float, "h": np.float32, "i": np.int64, "j": np.int8, "b": bool, "s": object, "k": pd.CategoricalDtype(S[::-1]), "c": float, "n": float, "l": np.int64, "q": np.int64, "u": float,
         "y": np.uint8, "t": "datetime64[ns]"}


def code(kind, level):
    """The number a model sees for a cell."""
    if kind in "sk":
        return float(level % NLEV - 3)
    if kind in "nlqt":
        return float(level % NLEV - 4)
    return float(cell(kind, level))


def is_numeric(kind):
    return kind not in "skt"


def make_index(kind, n):
    if kind == "shuffled":
        return pd.Index([(i * 7 + 3) % n if n % 7 else n - 1 - i for i in range(n)])
    if kind == "offset":
        return pd.Index(range(100, 100 + n))
    if kind == "text":
        return pd.Index(["r%d" % (n - i) for i in range(n)])
    if kind == "repeated":
        return pd.Index([i // 2 for i in range(n)])
    if kind == "same":
        return pd.Index([0] * n)
    if kind == "reversed":
        return pd.Index(range(n - 1, -1, -1))
    if kind == "floats":
        return pd.Index([i * 0.5 for i in range(n)])
    if kind == "dates":
        return pd.date_range("2020-03-01", periods=n, freq="H")[::-1]
    if kind == "multi":
        return pd.MultiIndex.from_arrays([[i % 3 for i in range(n)], list(range(n))], names=["g", "i"])
    return pd.RangeIndex(n)


INDEX_KINDS = ["default", "shuffled", "offset", "text", "repeated", "same", "reversed", "floats", "dates", "multi"]


def lcg(seed):
    """Small deterministic generator for large tables described by a drawn seed."""
    x = (seed * 6364136223846793005 + 1442695040888963407) % 2 ** 64
    while True:
        x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        yield x >> 33


def expand(data):
    """Fills in columns that are described by a seed ("r") and a number of rows."""
    if "rows" in data:
        cols = []
        for j, c in enumerate(data["cols"]):
            g = lcg(data["r"] * 97 + j)
            cols.append(dict(c, v=[i if c.get("seq") else next(g) % c["lev"] for i in range(data["rows"])]))
        return dict(data, cols=cols)
    return data


class Data:
    """A realised data set."""

    def __init__(self, spec):
        spec = expand(spec)
        self.spec = spec
        self.names = [c["n"] for c in spec["cols"]]
        self.kinds = {c["n"]: c["k"] for c in spec["cols"]}
        self.n = len(spec["cols"][0]["v"])
        frame = {}
        for c in spec["cols"]:
            vals = [cell(c["k"], v) for v in c["v"]]
            frame[c["n"]] = pd.Series(vals, dtype=DTYPE[c["k"]]).values
        self.X = pd.DataFrame(frame, columns=self.names)
        self.X.index = make_index(spec.get("index", "default"), self.n)
        self.E = np.array([[code(c["k"], v) for v in c["v"]] for c in spec["cols"]], dtype=float).T

    def encode(self, X):
        return encode(X, self.names, self.kinds)


SCODE = {s: float(i - 3) for i, s in enumerate(S)}
NCODE = {v: float(i - 4) for i, v in enumerate(N)}


def encode_col(kind, values):
    if kind in "sk":
        return np.array([SCODE[v] for v in values], dtype=float)
    if kind == "n":
        return np.array([NCODE[float(v)] for v in values], dtype=float)
    if kind == "l":
        return np.array([int(v) - BASE - 4 for v in values], dtype=float)
    if kind == "q":
        return np.array([int(v) - HUGE - 4 for v in values], dtype=float)
    if kind == "t":
        return (np.array(values, dtype="datetime64[ns]") - DAY0) / np.timedelta64(1, "D") - 4.0
    return np.array(values, dtype=float)


ALL_KINDS = "fginlbskcjhytq"


def encode(X, names, kinds):
    if list(X.columns) != list(names):
        raise Violation(f"columns {list(X.columns)} instead of {list(names)}")
    return np.column_stack([encode_col(kinds[n], X[n].values) for n in names])


# ---------------------------------------------------------------- models

def fn(name, x):
    if name == "id":
        return x
    if name == "sq":
        return x * x
    if name == "abs":
        return np.abs(x)
    if name == "pos":
        return (x > 0).astype(float)
    if name == "big":
        return (x >= 1).astype(float)
    raise ValueError(name)


def raw(model, E):
    out = np.full(len(E), float(model.get("off", 0)))
    for coef, factors in model["terms"]:
        t = np.full(len(E), float(coef))
        for col, f in factors:
            t = t * fn(f, E[:, col])
        out = out + t
    return out


def squash(r):
    return 0.5 + 0.5 * r / (1 + np.abs(r))


def output(model, E):
    """What partial dependence based methods should take as the model output."""
    r = raw(model, E)
    if model["kind"] in ("proba", "proba3"):
        p = squash(r)
        return p if model["kind"] == "proba" else p * 0.75
    if model["kind"] == "pf":
        return 2 * r - 1
    return r


def plain(model, E):
    """What model.predict gives (used by performance based methods)."""
    r = raw(model, E)
    if model["kind"] in ("proba", "proba3", "cls"):
        return (r > 0.3).astype(int)
    return r


def contain(model, out, X):
    """predictions in the container the model description asks for (array unless stated otherwise)"""
    ret = model.get("ret", "array")
    if ret == "series":
        return pd.Series(out, index=X.index)
    if ret == "series0":
        return pd.Series(out)
    if ret == "list":
        return list(out)
    if ret == "column":     # models fitted to a table of one target give a table of one prediction
        return np.asarray(out).reshape(-1, 1)
    return out


class Model:
    """predict / predict_proba / opaque model over the named columns; optionally records what it is asked."""

    def __init__(self, spec, names, kinds, record=None, fail_at=None, scale=None):
        self.spec, self.names, self.kinds = spec, list(names), dict(kinds)
        self.calls = 0
        self.rows = 0
        self.record = record
        self.fail_at = fail_at
        self.scale = scale
        if spec["kind"] in ("proba", "proba3"):
            self.predict_proba = self._predict_proba

    def _enter(self, X, how):
        self.calls += 1
        self.rows += len(X)
        if self.record is not None:
            self.record(X, how)
        if self.fail_at is not None and self.calls == self.fail_at:
            raise InjectedFailure()
        # the model finds its columns by name, in any order
        return np.column_stack([encode_col(self.kinds[n], X[n].values) for n in self.names]) if len(X) else \
            np.zeros((0, len(self.names)))

    def predict(self, X):
        E = self._enter(X, "predict")
        if self.spec["kind"] == "pf":
            return raw(self.spec, E) * -3 + 5     # not what the supplied prediction function gives
        out = plain(self.spec, E)
        return contain(self.spec, out if self.scale is None else self.scale[0] * out + self.scale[1], X)

    def _predict_proba(self, X):
        E = self._enter(X, "predict_proba")
        p = output(self.spec, E)
        if self.spec["kind"] == "proba3":
            return np.column_stack([(1 - p) * 0.25, p, (1 - p) * 0.75])
        return np.column_stack([1 - p, p])


class InjectedFailure(Exception):
    pass


class OpaqueModel:
    """Only usable through a prediction function."""

    def __init__(self, inner):
        self.inner = inner


def opaque_predict(m, X):
    return contain(m.inner.spec, output(m.inner.spec, m.inner._enter(X, "predict_function")), X)


def misleading_predict(m, X):
    """prediction function for models that also have predict/predict_proba of their own"""
    return output(m.spec, m._enter(X, "predict_function"))


def build_model(spec, data, **kw):
    """-> (model, predict_function or None)"""
    m = Model(spec, data.names, data.kinds, **kw)
    if spec["kind"] == "pf":
        if spec.get("opaque", True):
            return OpaqueModel(m), opaque_predict
        m.predict_proba = lambda X: np.column_stack([np.zeros(len(X)), np.full(len(X), 0.25)])
        return m, misleading_predict
    return m, None


def counter(model):
    return model.inner if isinstance(model, OpaqueModel) else model


# ---------------------------------------------------------------- strategies

COEF = [1.0, -1.0, 2.0, 0.5, -3.0, 0.3, 10.0]
FNS = ["id", "sq", "abs", "pos", "big"]


@st.composite
def data_specs(draw, min_cols=2, max_cols=4, min_rows=1, max_rows=8, kinds="fgibsc", names=None, index=True, big=None,
               levels=NLEV, min_levels=1, dense=False, min_lev=2):
    """big: (max_rows, max_levels) sometimes (dense: always) gives a seed-described table instead."""
    pool = names or NAMES
    ncols = draw(st.integers(min_cols, max_cols))
    nm = draw(st.permutations(pool)) if draw(st.booleans()) else list(pool)
    nm = nm[:ncols]
    ks = [draw(st.sampled_from(kinds)) for _ in range(ncols)]
    idx = draw(st.sampled_from(INDEX_KINDS)) if index else "default"
    if big and (dense or draw(st.integers(0, 5)) == 0):
        rows = draw(st.integers(max(min_rows, 2), big[0]))
        return dict(cols=[dict(n=n, k=k, lev=draw(st.integers(min_lev, big[1]))) for n, k in zip(nm, ks)], index=idx, rows=rows,
                    r=draw(st.integers(0, 10 ** 6)))
    rows = draw(st.integers(min_rows, max_rows))
    cols = []
    for n, k in zip(nm, ks):
        lev = draw(st.integers(min_levels, levels))
        cols.append(dict(n=n, k=k, v=draw(st.lists(st.integers(0, lev - 1), min_size=rows, max_size=rows))))
    return dict(cols=cols, index=idx)


def _monomial(factors):
    return tuple(sorted(map(tuple, factors)))


@st.composite
def model_specs(draw, ncols, kinds=("reg", "proba", "proba3", "pf"), max_terms=4, max_order=3, offsets=(0.0, 1.0, -5.0, 1000.0),
                min_terms=0, allowed=None, first_order=1):
    """allowed: columns terms may use (default all)"""
    cols = list(range(ncols)) if allowed is None else list(allowed)
    terms, seen = [], set()
    for t in range(draw(st.integers(min_terms, max_terms))):
        order = draw(st.integers(min(first_order if t == 0 else 1, len(cols)), min(max_order, len(cols))))
        used = draw(st.permutations(cols))[:order]
        factors = [[c, draw(st.sampled_from(FNS))] for c in used]
        if _monomial(factors) in seen:
            continue
        seen.add(_monomial(factors))
        terms.append([draw(st.sampled_from(COEF)), factors])
    spec = dict(kind=draw(st.sampled_from(list(kinds))), terms=terms, off=draw(st.sampled_from(list(offsets))))
    if spec["kind"] == "pf":
        spec["opaque"] = draw(st.booleans())
    if spec["kind"] in ("reg", "pf") and terms and draw(st.integers(0, 7)) == 7:
        unit = draw(st.sampled_from([2.0 ** -26, 2.0 ** 20]))       # predictions in very small or very large units
        spec.update(terms=[[c * unit, f] for c, f in terms], off=spec["off"] * unit)
    if spec["kind"] in ("reg", "pf", "cls"):
        spec["ret"] = draw(st.sampled_from(["array", "array", "series", "series0", "list", "column"]))
    return spec


def full_terms(ncols, seed):
    """every column and every pair of columns, with coefficients and functions from a seed"""
    g = lcg(seed)
    coef = lambda: (next(g) % 2000 - 1000) / 256.0
    terms = [[coef(), [[j, ["id", "sq", "abs"][next(g) % 3]]]] for j in range(ncols)]
    terms += [[coef(), [[j, "id"], [k, ["id", "sq", "abs"][next(g) % 3]]]] for j in range(ncols) for k in range(j)]
    return [t for t in terms if t[0] != 0]


@st.composite
def feature_lists(draw, names, min_size=2, allow_none=True):
    """A requested subset of features in any order, or None for all."""
    if allow_none and draw(st.booleans()):
        return None
    p = draw(st.permutations(names))
    return list(p[:draw(st.integers(min(min_size, len(names)), len(names)))])


@st.composite
def sample_sizes(draw, data, allow_none=True, low=1):
    n = data["rows"] if "rows" in data else len(data["cols"][0]["v"])
    if allow_none and draw(st.integers(0, 2)) > 0:
        return None
    return draw(st.integers(min(low, n), n))


def names_of(data):
    return [c["n"] for c in data["cols"]]


BATCHES = [None, 1, 2, 7, 50, 2000]


def batch_kw(b):
    return {} if b is None else {"batchsize": b}


def used_columns(model):
    return {c for _, fs in model["terms"] for c, _ in fs}


def joint_pairs(model):
    """Unordered pairs of columns that occur together in a term (additive output kinds only)."""
    out = set()
    for _, fs in model["terms"]:
        cs = sorted({c for c, _ in fs})
        out |= {(a, b) for i, a in enumerate(cs) for b in cs[i + 1:]}
    return out
