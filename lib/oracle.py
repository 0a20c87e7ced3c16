"""Reference computations, written from the definitions and independent of artemis."""
import itertools
import math
import numbers

import numpy as np
import pandas as pd

from lib import gen
from lib.harness import Violation


class PD:
    """Brute-force partial dependence of a model description over an encoded sample E (rows x columns)."""

    def __init__(self, spec, E, f=None):
        self.E = np.array(E, dtype=float)
        self.n, self.d = self.E.shape
        self.f = f or (lambda M: gen.output(spec, M))
        self.preds = self.f(self.E)
        self.scale = max(float(np.max(np.abs(self.preds))), 1e-12)
        self._cache = {}

    def fixed(self, change):
        """Mean prediction with the columns in `change` (column -> code) fixed."""
        key = tuple(sorted(change.items()))
        if key not in self._cache:
            M = self.E.copy()
            for j, v in change.items():
                M[:, j] = v
            y = self.f(M)
            self.scale = max(self.scale, float(np.max(np.abs(y))))
            self._cache[key] = float(np.mean(y))
        return self._cache[key]

    def uniq(self, j):
        return sorted(set(self.E[:, j].tolist()))

    def single_rows(self, j):
        return np.array([self.fixed({j: v}) for v in self.E[:, j]])

    def pair_rows(self, j, k):
        return np.array([self.fixed({j: a, k: b}) for a, b in zip(self.E[:, j], self.E[:, k])])

    def minus_rows(self, j):
        return np.array([self.fixed({k: row[k] for k in range(self.d) if k != j}) for row in self.E])

    def grid(self, j):
        return np.array([self.fixed({j: v}) for v in self.uniq(j)])

    def grid2(self, j, k):
        return np.array([[self.fixed({j: a, k: b}) for b in self.uniq(k)] for a in self.uniq(j)])

    # ------------------------------------------------------------ statistics

    def h(self, one, other, joint):
        """-> (numerator, denominator) of the H-statistic"""
        c = lambda x: x - np.mean(x)
        return float(np.sum((c(joint) - c(one) - c(other)) ** 2)), float(np.sum(c(joint) ** 2))

    def h_pair(self, j, k):
        return self.h(self.single_rows(j), self.single_rows(k), self.pair_rows(j, k))

    def h_all(self, j):
        return self.h(self.single_rows(j), self.minus_rows(j), self.preds)

    def den_ok(self, den):
        """The denominator is far enough from rounding noise for a ratio to be meaningful."""
        return den > 1e-10 * self.n * self.scale ** 2

    def greenwell(self, j, k, num_j, num_k):
        g = self.grid2(j, k)
        imp_k = [cond_imp(row, num_k) for row in g]           # importance of k for each value of j
        imp_j = [cond_imp(col, num_j) for col in g.T]
        return (sd(imp_k) + sd(imp_j)) / 2

    def importance(self, j, numeric):
        g = self.grid(j)
        if numeric:
            return math.sqrt(sum((x - sum(g) / len(g)) ** 2 for x in g) / len(g))
        return (max(g) - min(g)) / 4

    def additivity(self):
        m = float(np.mean(self.preds))
        first = m + sum(self.single_rows(j) - m for j in range(self.d))
        return float(np.sum((self.preds - first) ** 2)), float(np.sum((self.preds - m) ** 2))


def sd(values):
    """sample standard deviation, 0 for one value"""
    values = [float(v) for v in values]
    if len(values) < 2:
        return 0.0
    m = math.fsum(values) / len(values)
    return math.sqrt(math.fsum((v - m) ** 2 for v in values) / (len(values) - 1))


def cond_imp(values, numeric):
    return sd(values) if numeric else (float(max(values)) - float(min(values))) / 4


def close(a, b, tol):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol


def require(cond, message):
    if not cond:
        raise Violation(message)


# ---------------------------------------------------------------- reading result tables

def rows(df, columns, what):
    """Rows of a result table as tuples; the table must have exactly these columns."""
    require(isinstance(df, pd.DataFrame), f"{what} is {type(df).__name__}, not a table")
    require(set(columns) <= set(df.columns), f"{what} has columns {list(df.columns)}, expected {list(columns)}")
    return list(zip(*[df[c].tolist() for c in columns])) if len(df) else []


def pair_table(method, what="ovo"):
    """{frozenset pair: value} of a model-agnostic one-versus-one table, which lists each pair once"""
    out = {}
    for a, b, v in rows(method.ovo, ["Feature 1", "Feature 2", method.method], what):
        key = frozenset((a, b))
        require(len(key) == 2, f"{what} lists the pair ({a}, {b})")
        require(key not in out, f"{what} lists {sorted(key)} twice")
        out[key] = number(v, what)
    return out


def feature_table(df, column, what):
    out = {}
    for f, v in rows(df, ["Feature", column], what):
        require(f not in out, f"{what} lists {f} twice")
        out[f] = number(v, what)
    return out


def number(v, what):
    try:
        return float(v)
    except (TypeError, ValueError):
        raise Violation(f"{what} holds {v!r}, not a number")


def all_pairs(features):
    return {frozenset(p) for p in itertools.combinations(features, 2)}


def frames_equal(a, b):
    """Same values, dtypes, columns and index."""
    try:
        pd.testing.assert_frame_equal(a, b, check_exact=True)
        return True
    except AssertionError:
        return False


def tables_close(a, b, tol=0.0):
    """Two result tables: equal columns and rows, numbers within tol (NaN equals NaN)."""
    if a is None or b is None:
        return a is None and b is None
    if list(a.columns) != list(b.columns) or len(a) != len(b) or list(a.index) != list(b.index):
        return False
    for c in a.columns:
        for x, y in zip(a[c].tolist(), b[c].tolist()):
            if not all(isinstance(v, (numbers.Number, type(None))) for v in (x, y)):
                if x != y:
                    return False
            elif x is None or y is None:
                if not (pd.isna(x) and pd.isna(y)):
                    return False
            elif not close(x, y, tol):
                return False
    return True
