"""Cases shared by the properties of partial dependence based explanations."""
import numpy as np
from hypothesis import strategies as st

from artemis.additivity import AdditivityMeter
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
from lib import gen, oracle
from lib.gen import Data
from lib.oracle import require


@st.composite
def fit_cases(draw, min_cols=2, max_cols=4, max_rows=7, kinds=gen.ALL_KINDS, big=None, model_kinds=("reg", "proba", "proba3", "pf"),
              options=True, min_rows=1, min_feat=2, min_terms=0, names=None, offsets=(0.0, 1.0, -5.0, 1000.0), max_order=3, dense=False, first_order=1,
              min_lev=2):
    data = draw(gen.data_specs(min_cols=min_cols, max_cols=max_cols, min_rows=min_rows, max_rows=max_rows, kinds=kinds, big=big,
                               names=names, dense=dense, min_lev=min_lev))
    names = gen.names_of(data)
    case = dict(data=data, model=draw(gen.model_specs(len(names), kinds=model_kinds, min_terms=min_terms, offsets=offsets,
                                                      max_order=max_order, first_order=first_order)),
                features=draw(gen.feature_lists(names, min_size=min_feat)))
    if options:
        case.update(n=draw(gen.sample_sizes(data, low=3 if dense else 1)), batch=draw(st.sampled_from(gen.BATCHES)),
                    progress=draw(st.integers(0, 4)) == 0, rs=draw(st.sampled_from([None, 0, 1, 42])))
    return case


def rich(**kw):
    """Dense tables and models with several terms: most cases have real interactions."""
    args = dict(dense=True, big=(10, 5), min_rows=3, min_terms=2, max_cols=4, first_order=2, kinds="fffgiinlbskjhyt")
    args.update(kw)
    return fit_cases(**args)


def many(**kw):
    """Tables with many rows and many different values per column."""
    args = dict(dense=True, big=(200, 220), min_rows=60, min_lev=30, min_terms=2, max_cols=3, first_order=2, kinds="uuuuufsni")
    args.update(kw)
    return fit_cases(**args)


def wide(**kw):
    """Many columns, few rows."""
    args = dict(dense=True, min_cols=8, max_cols=15, big=(5, 4), min_rows=2, min_terms=3, first_order=3, kinds="ffgiibskn")
    args.update(kw)
    return fit_cases(**args)


def scattered(**kw):
    """Several hundred rows, nearly all with a combination of values of their own."""
    args = dict(dense=True, big=(420, 60), min_rows=230, min_lev=25, min_terms=2, max_cols=3, first_order=2, kinds="uuuu", min_feat=2)
    args.update(kw)
    return fit_cases(**args)


def tall(**kw):
    """More rows than the default batch size, few different values."""
    args = dict(dense=True, big=(3200, 5), min_rows=900, min_terms=2, max_cols=3, first_order=2, kinds="ffibsk")
    args.update(kw)
    return fit_cases(**args)


class Setup:
    """Realised case: data, model, and keyword arguments for fit/importance."""

    def __init__(self, case, **kw):
        self.case = case
        self.data = Data(case["data"])
        self.model, self.pf = gen.build_model(case["model"], self.data, **kw)
        self.names = self.data.names
        self.features = case.get("features")
        self.requested = self.names if self.features is None else self.features
        self.fit_kw = {}
        if self.pf is not None:
            self.fit_kw["predict_function"] = self.pf
        if case.get("n") is not None:
            self.fit_kw["n"] = case["n"]
        if case.get("progress"):
            self.fit_kw["show_progress"] = True
        self.fit_kw.update(gen.batch_kw(case.get("batch")))

    def feat_kw(self):
        return {} if self.features is None else {"features": list(self.features)}

    def ref(self, X_sampled):
        """Oracle over the sample the method says it explained."""
        require(X_sampled is not None, "no sample is reported")
        E = self.data.encode(X_sampled)
        want = self.data.n if self.case.get("n") is None else self.case["n"]
        require(len(E) == want, f"{len(E)} rows explained, {want} requested")
        return oracle.PD(self.case["model"], E)

    def col(self, name):
        return self.names.index(name)

    def numeric(self, name):
        return gen.is_numeric(self.data.kinds[name])

    def h(self, normalized=True, **kw):
        m = FriedmanHStatisticMethod(random_state=self.case.get("rs"), normalized=normalized)
        m.fit(self.model, self.data.X, **self.fit_kw, **self.feat_kw(), **kw)
        return m

    def greenwell(self, **kw):
        m = GreenwellMethod(random_state=self.case.get("rs"))
        m.fit(self.model, self.data.X, **self.fit_kw, **self.feat_kw(), **kw)
        return m

    def importance(self, **kw):
        m = PartialDependenceBasedImportance()
        m.importance(self.model, self.data.X, **self.fit_kw, **self.feat_kw(), **kw)
        return m

    def additivity(self, **kw):
        m = AdditivityMeter(random_state=self.case.get("rs"))
        m.fit(self.model, self.data.X, **self.fit_kw, **kw)
        return m


def check_pairs_complete(table, requested):
    want = oracle.all_pairs(requested)
    require(set(table) == want, f"pairs {sorted(map(sorted, table))} reported, {sorted(map(sorted, want))} requested")


def check_h_value(got, num, den, ref, normalized, ignored, what, ctx):
    """ignored: the model does not use the features at all"""
    if not normalized:
        want = float(np.sqrt(num / ref.n))
        require(oracle.close(got, want, 1e-8 * ref.scale), f"unnormalised {what} is {got}, definition gives {want}")
        return want > 1e-6 * ref.scale
    if ignored:
        require(got == 0, f"{what} is {got} although the model does not vary over the features")
        return False
    if not ref.den_ok(den):
        ctx.event("denominator at rounding level, not compared")
        return False
    want = num / den
    require(oracle.close(got, want, 1e-7 * max(1.0, want)), f"{what} is {got}, definition gives {want}")
    return want > 1e-6


def check_importance(imp_df, s, ref, what="importance"):
    table = oracle.feature_table(imp_df, "Importance", what)
    require(set(table) == set(s.requested), f"{what} lists {sorted(table)}, requested {sorted(s.requested)}")
    some = False
    for f, got in table.items():
        want = ref.importance(s.col(f), s.numeric(f))
        require(oracle.close(got, want, 1e-8 * ref.scale), f"{what} of {f} is {got}, definition gives {want}")
        some = some or want > 1e-6 * ref.scale
    return some
