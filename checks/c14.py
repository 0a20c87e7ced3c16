"""C14: a shared partial dependence calculator gives the results of fresh objects and saves the work it can save."""
import numpy as np
from hypothesis import strategies as st

from artemis._utilities.pd_calculator import PartialDependenceCalculator
from artemis.additivity import AdditivityMeter
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
from lib import gen, oracle, pdcases
from lib.harness import Sub
from lib.oracle import require

RULE = ("random sequences of 1-5 explanations and requests to the calculator itself (H-statistic with and without one-versus-all, Greenwell, importance, additivity meter, "
        "any feature subsets) sharing one calculator that is new, pre-filled or taken from a fitted method; every result compared with "
        "a fresh object's, every data set given to the model counted against the values the calculator does not hold yet, and the whole "
        "sequence repeated to show that only unmodified data is predicted again. Calculators of another model object or of changed data "
        "must raise ValueError. Non-trivial: at least two explanations share the calculator, or a mismatch is rejected.")
CALC = ["calc_single", "calc_pairs", "calc_observed", "calc_minus"]      # requests made to the calculator itself
OPS = ["h", "hu", "h_noova", "greenwell", "importance", "additivity"]


@st.composite
def ops(draw, names):
    kind = draw(st.sampled_from(OPS + OPS + CALC))
    low = 1 if kind in ("importance", "calc_single", "calc_minus") else 2
    return [kind, None if kind == "additivity" else draw(gen.feature_lists(names, min_size=low))]


@st.composite
def cases(draw, **kw):
    case = draw(pdcases.fit_cases(options=False, min_rows=1, **kw))
    names = gen.names_of(case["data"])
    case["ops"] = [draw(ops(names)) for _ in range(draw(st.integers(1, 5)))]
    case["start"] = draw(st.sampled_from(["new", "new", "single", "pairs", "observed", "fitted", "minus"]))
    case["batch"] = draw(st.sampled_from(gen.BATCHES))
    case["copy"] = draw(st.booleans())
    case["again"] = draw(st.permutations(range(len(case["ops"]))))
    case["n"] = draw(gen.sample_sizes(case["data"]))
    case["features"] = None
    return case


def create(kind):
    return {"h": FriedmanHStatisticMethod, "h_noova": FriedmanHStatisticMethod, "greenwell": GreenwellMethod,
            "hu": lambda: FriedmanHStatisticMethod(normalized=False), "importance": PartialDependenceBasedImportance,
            "additivity": AdditivityMeter}[kind]()


def apply(op, model, X, pf, **kw):
    kind, features = op
    m = create(kind)
    if features is not None:
        kw["features"] = list(features)
    if pf is not None:
        kw["predict_function"] = pf
    if kind == "h_noova":
        kw["calculate_ova"] = False
    (m.importance if kind == "importance" else m.fit)(model, X, **kw)
    return m


def request(op, calc):
    kind, features = op
    if kind == "calc_single":
        calc.calculate_pd_single(features)
    elif kind == "calc_minus":
        calc.calculate_pd_minus_single(features)
    else:
        pairs = None if features is None else [(a, b) for i, a in enumerate(features) for b in features[i + 1:]]
        calc.calculate_pd_pairs(pairs, all_combinations=kind == "calc_pairs")


def results(kind, m):
    if kind == "additivity":
        return {"index": {(): m.additivity_index}}
    out = {"importance": oracle.feature_table(m.feature_importance, "Importance", "importance")}
    if kind != "importance":
        out["ovo"] = oracle.pair_table(m)
        if kind in ("h", "hu"):
            out["ova"] = oracle.feature_table(m.ova, m.method, "ova")
        elif kind == "h_noova":
            require(m.ova is None, "one-versus-all table although it was switched off")
    return out


def compare(kind, got, want, what):
    for t in want:
        require(set(got[t]) == set(want[t]), f"{what}: {t} of {kind} lists {list(got[t])}")
        for k, v in want[t].items():
            tol = 1e-7 * max(1.0, abs(v)) if np.isfinite(v) else 0
            require(oracle.close(got[t][k], v, tol), f"{what}: {t} of {kind} for {k} is {got[t][k]}, from scratch {v}")


class Work:
    """Counts the row blocks with changed values the model was asked to predict."""

    def __init__(self, data, sample):
        self.data, self.n = data, len(sample)
        self.E = data.encode(sample)
        self.reset()

    def reset(self):
        self.changed_rows = 0

    def record(self, Q, how):
        E = self.data.encode(Q[self.data.names])
        for i in range(0, len(E), self.n):
            block = E[i:i + self.n]
            if len(block) != self.n or not np.array_equal(block, self.E):
                self.changed_rows += len(block)


class Holdings:
    """What a calculator must hold after the requests made so far."""

    def __init__(self, data, E):
        self.names, self.E = data.names, E
        self.single, self.minus, self.pairs = set(), set(), {}

    def uniq(self, f):
        return len(set(self.E[:, self.names.index(f)]))

    def combos(self, a, b):
        a, b = sorted((a, b))
        return list(zip(self.E[:, self.names.index(a)], self.E[:, self.names.index(b)]))

    def allowed(self, op):
        """-> rows of changed data the model may be asked for; marks the values as held"""
        kind, features = op
        features = self.names if features is None else features
        single = features if kind == "calc_single" else [] if kind in CALC else self.names
        blocks = sum(self.uniq(f) for f in single if f not in self.single)
        if kind in ("h", "hu", "h_noova", "greenwell", "calc_pairs", "calc_observed"):
            for i, a in enumerate(features):
                for b in features[i + 1:]:
                    held = self.pairs.setdefault(frozenset((a, b)), set())
                    obs = self.combos(a, b)
                    if kind in ("greenwell", "calc_pairs"):
                        x, y = sorted((a, b))
                        full = {(p, q) for p in self.E[:, self.names.index(x)] for q in self.E[:, self.names.index(y)]}
                        blocks += len(full - held)
                        held |= full
                    else:
                        blocks += sum(c not in held for c in obs)
                        held |= set(obs)
        if kind in ("h", "hu", "calc_minus"):
            blocks += len(self.E) * sum(f not in self.minus for f in features)
            self.minus |= set(features)
        self.single |= set(single)
        return blocks * len(self.E)


def check(case, ctx):
    data = gen.Data(case["data"])
    sample = data.X
    pre = None
    recorder = []
    model, pf = gen.build_model(case["model"], data, record=lambda Q, how: [r(Q, how) for r in recorder])
    if case["start"] == "fitted":
        pre = FriedmanHStatisticMethod(random_state=3)
        kw = dict(gen.batch_kw(case["batch"]))
        if pf is not None:
            kw["predict_function"] = pf
        pre.fit(model, data.X, n=case["n"], **kw)
        sample = pre.X_sampled
    elif case["n"] is not None:
        sample = data.X.iloc[:case["n"]]
    work = Work(data, sample)
    hold = Holdings(data, work.E)
    if pre is not None:
        calc = pre.pd_calculator
        hold.allowed(["h", None])
    else:
        calc = PartialDependenceCalculator(model, sample, pf, **gen.batch_kw(case["batch"]))
        if case["start"] == "single":
            calc.calculate_pd_single()
            hold.single |= set(data.names)
        elif case["start"] == "pairs":
            calc.calculate_pd_pairs()
            hold.allowed(["greenwell", None])
            hold.single = set()
        elif case["start"] == "observed":
            calc.calculate_pd_pairs(all_combinations=False)
            hold.allowed(["h_noova", None])
            hold.single = set()
        elif case["start"] == "minus":
            calc.calculate_pd_minus_single()
            hold.minus |= set(data.names)
    recorder.append(work.record)
    given = sample.copy() if case["copy"] else sample
    scratch = []
    for op in case["ops"]:
        work.reset()
        m = request(op, calc) if op[0] in CALC else apply(op, model, given, pf, pd_calculator=calc)
        rows, allowed = work.changed_rows, hold.allowed(op)
        require(rows <= allowed, f"{op[0]} asked the model for {rows} rows of changed data, values for {allowed} rows were missing")
        if op[0] in CALC:
            scratch.append(None)
            ctx.event(op[0])
            continue
        got = results(op[0], m)
        fresh_model, fresh_pf = gen.build_model(case["model"], data)
        scratch.append(results(op[0], apply(op, fresh_model, sample.copy(), fresh_pf)))
        compare(op[0], got, scratch[-1], "shared calculator")
    work.reset()
    for i in case["again"]:
        op = case["ops"][i]
        if op[0] in CALC:
            request(op, calc)
        else:
            compare(op[0], results(op[0], apply(op, model, given, pf, pd_calculator=calc)), scratch[i], "repeated with held values")
    require(work.changed_rows == 0, f"repeating the requests asked the model again for {work.changed_rows} rows of changed data")
    ctx.nontrivial(len(case["ops"]) > 1 or case["start"] != "new")
    ctx.event("start " + case["start"])


@st.composite
def mismatches(draw):
    case = draw(pdcases.fit_cases(options=False, min_rows=2))
    names = gen.names_of(case["data"])
    case["op"] = [draw(st.sampled_from(OPS)), None]
    case["how"] = draw(st.sampled_from(["model", "model_same", "value", "rows", "fewer", "columns", "renamed", "more"]))
    case["at"] = [draw(st.integers(0, 50)), draw(st.integers(0, 50))]
    case["filled"] = draw(st.booleans())
    return case


def check_mismatch(case, ctx):
    data = gen.Data(case["data"])
    model, pf = gen.build_model(case["model"], data)
    other, X = model, data.X.copy()
    how = case["how"]
    if how.startswith("model"):
        spec = case["model"] if how == "model_same" else dict(case["model"], off=case["model"]["off"] + 1)
        other, _ = gen.build_model(spec, data)
    elif how == "value":
        i, j = case["at"][0] % data.n, case["at"][1] % len(data.names)
        col = X.columns[j]
        kind = data.kinds[col]
        now = X[col].iloc[i]
        new = [v for v in (gen.cell(kind, l) for l in range(gen.NLEV)) if v != now]
        if not new:
            ctx.event("constant kind")
            return
        values = X[col].values.copy()
        values[i] = new[0]
        X[col] = values
    elif how == "rows":
        X = X.iloc[::-1]
        if np.array_equal(data.encode(X), data.E):
            ctx.event("symmetric")
            return
    elif how == "fewer":
        X = X.iloc[:-1]
    elif how == "more":
        X = X.iloc[[*range(data.n), 0]]
    elif how == "columns":
        X = X[X.columns[::-1]]
    else:
        X = X.rename(columns={X.columns[0]: X.columns[0] + "_"})
    calc = PartialDependenceCalculator(model, data.X, pf)
    if case["filled"] and how != "renamed":
        calc.calculate_pd_single()
    try:
        apply(case["op"], other, X, pf, pd_calculator=calc)
    except ValueError:
        ctx.nontrivial()
        ctx.event(how + " rejected")
        return
    except Exception as e:
        require(False, f"calculator of other {how} given to {case['op'][0]} raised {type(e).__name__}: {e} instead of ValueError")
    require(False, f"calculator with different {how} was accepted by {case['op'][0]}")


SUBTESTS = [
    Sub("rich", cases(dense=True, big=(6, 4), min_terms=2, first_order=2, max_cols=4, kinds="fffgiinlbskj"), check, 600, 8000),
    Sub("shared", cases(max_rows=5, max_cols=4), check, 600, 8000),
    Sub("mismatch", mismatches(), check_mismatch, 400, 4000),
]
