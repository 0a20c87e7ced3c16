"""C27: profile plots show the partial dependence functions."""
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection
from sklearn.inspection import partial_dependence

from artemis.visualizer import PartialDependenceVisualizer
from lib import figs, fitted, gen, oracle, pdcases
from lib.gen import NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("fitted methods of the three partial dependence kinds over columns of every type, every requested feature and pairs in both "
        "orders drawn as profile (colour mesh and contour); drawn lines, cells and contour vertices are compared with brute-force "
        "partial dependence. Stand-alone visualizer: models and data with ties and outliers, features by name or position, random grid "
        "resolution, percentiles and title, compared with scikit-learn's partial_dependence. Non-trivial: a profile that is not constant.")
KINDS = "fgibscjhf"


class Profiles:
    """oracle for the drawn partial dependence of a fitted method"""

    def __init__(self, b, m):
        self.kind, self.s, self.m, self.ref = b.kind, b.s, m, b.s.ref(m.X_sampled)

    def values(self, f):
        """unique observed cells with their codes"""
        col = self.m.X_sampled[f].tolist()
        codes = gen.encode_col(self.s.data.kinds[f], col)
        return [v for v, _ in sorted(dict(zip(col, codes)).items())], [float(c) for _, c in sorted(dict(zip(col, codes)).items())]

    def single(self, f):
        v, c = self.values(f)
        return v, np.array([self.ref.fixed({self.s.col(f): x}) for x in c])

    def pair(self, fx, fy):
        """values on x, values on y, Z[iy, ix], which cells must be shown (H-statistics: observed combinations)"""
        vx, cx = self.values(fx)
        vy, cy = self.values(fy)
        j, k = self.s.col(fx), self.s.col(fy)
        Z = np.array([[self.ref.fixed({j: a, k: b}) for a in cx] for b in cy])
        seen = set(zip(self.m.X_sampled[fx].tolist(), self.m.X_sampled[fy].tolist()))
        need = np.array([[self.kind == "greenwell" or (a, b) in seen for a in vx] for b in vy], dtype=bool)
        return vx, vy, Z, need

    @property
    def tol(self):
        return 1e-9 * self.ref.scale


def one_figure(before, what):
    f = figs.new_figures(before)
    require(len(f) == 1, f"{what}: {len(f)} figures drawn")
    return f[0]


def rug(ax, axis, values):
    """rug marks, where drawn, sit at observed values"""
    pos = figs.positions(ax.xaxis if axis == 0 else ax.yaxis, values)
    require(pos is not None, "an axis does not hold the values of the feature")
    for c in ax.collections:
        if isinstance(c, LineCollection) and not figs.surfaces(ax):
            for seg in c.get_segments():
                require(np.min(np.abs(pos - seg[0][axis])) <= 1e-9 * max(1, abs(seg[0][axis])), f"rug mark at {seg[0][axis]} where nothing was observed")


def draw_single(m, o, f, ctx):
    before = plt.get_fignums()
    m.plot_profile(f)
    fig = one_figure(before, f)
    ax = [a for a in fig.axes if a.lines]
    require(len(ax) == 1 and len(ax[0].lines) == 1, f"profile of {f} is not one line")
    ax = ax[0]
    vals, want = o.single(f)
    xs = figs.positions(ax.xaxis, vals)
    require(xs is not None, f"the axis does not hold the values of {f}")
    line = np.array(ax.lines[0].get_xydata(), dtype=float)
    require(line.shape == (len(vals), 2), f"profile of {f} has {len(line)} points, {len(vals)} values were observed")
    order = np.argsort(xs)
    require(np.all(np.diff(line[:, 0]) > 0), f"profile of {f} goes back and forth")
    require(np.allclose(line[:, 0], xs[order], rtol=1e-9, atol=1e-12), f"profile of {f} is over {line[:, 0].tolist()}, observed are {vals}")
    require(np.max(np.abs(line[:, 1] - want[order])) <= o.tol, f"profile of {f} is {line[:, 1].tolist()}, partial dependence is {want[order].tolist()}")
    require(ax.get_xlabel() == f, f"profile of {f} has x axis {ax.get_xlabel()!r}")
    rug(ax, 0, vals)
    ctx.nontrivial(np.ptp(want) > 1e-6 * o.ref.scale)
    plt.close(fig)


def draw_pair(m, o, f, g, kind, ctx):
    nf, ng = len(o.values(f)[0]), len(o.values(g)[0])
    if kind == "contour" and min(nf, ng) < 2:
        return
    before = plt.get_fignums()
    if kind is None:
        m.plot_profile(f, g)
    else:
        m.plot_profile(f, g, kind=kind)
    fig = one_figure(before, f"{f}, {g}")
    ax = [a for a in fig.axes if figs.surfaces(a) and not figs.is_bar_axes(a)]
    require(len(ax) == 1, f"profile of {f}, {g} has {len(ax)} surfaces")
    ax = ax[0]
    x, y = ax.get_xlabel(), ax.get_ylabel()
    require({x, y} == {f, g}, f"profile of {f}, {g} has axes {x!r} and {y!r}")
    bad = figs.surface_matches(ax, *o.pair(x, y), o.tol)
    require(bad is None, f"profile of {f}, {g} ({kind}): {bad}")
    want = figs.QuadContourSet if kind == "contour" else figs.QuadMesh
    require(any(isinstance(c, want) for c in figs.surfaces(ax)), f"kind {kind} is drawn as {[type(c).__name__ for c in figs.surfaces(ax)]}")
    ctx.nontrivial(np.ptp(o.pair(x, y)[2]) > 1e-6 * o.ref.scale and (x == f or nf > 1))
    ctx.event(str(kind))
    plt.close(fig)


def check_profile(case, ctx):
    b = fitted.Built(case["m"])
    m = b.fit()
    o = Profiles(b, m)
    req = b.s.requested
    for what in case["draw"]:
        if what[0] == "single":
            draw_single(m, o, req[what[1] % len(req)], ctx)
        else:
            i, j = what[1] % len(req), what[2] % len(req)
            if i == j:
                j = (i + 1) % len(req)
            draw_pair(m, o, req[i], req[j], what[0], ctx)


@st.composite
def profile_cases(draw):
    m = dict(kind=draw(st.sampled_from(fitted.PD_KINDS)),
             case=draw(pdcases.rich(names=NAMES, kinds=KINDS, big=(7, 4), max_cols=4, min_rows=2) if draw(st.booleans()) else
                       pdcases.fit_cases(names=NAMES, kinds=KINDS, max_rows=6)))
    idx = st.integers(0, 3)
    one = st.one_of(st.tuples(st.just("single"), idx), st.tuples(st.sampled_from([None, "colormesh", "contour", "contour"]), idx, idx))
    return dict(m=m, draw=draw(st.lists(one, min_size=1, max_size=4).map(lambda l: [list(x) for x in l])))


# ---------------------------------------------------------------- stand-alone visualizer

class Regressor:
    """scikit-learn style regressor computing a described model"""
    _estimator_type = "regressor"
    fitted_ = True

    def __init__(self, spec=None, names=None):
        self.spec, self.names = spec, names

    def fit(self, X, y=None):
        return self

    def __sklearn_is_fitted__(self):
        return True

    def predict(self, X):
        return gen.raw(self.spec, np.column_stack([np.asarray(X[n], dtype=float) for n in self.names]))


def check_visualizer(case, ctx):
    data = gen.Data(case["data"])
    X = data.X
    model = Regressor(case["model"], data.names)
    names = data.names
    feats = []
    for f in case["features"]:
        f = [x % len(names) for x in f]
        if len(f) == 2 and f[0] == f[1]:
            f[1] = (f[0] + 1) % len(names)
        spelled = [names[x] for x in f] if case["by_name"] else f
        feats.append(tuple(spelled) if len(f) == 2 else spelled[0])
    kw = {}
    if case["grid"] is not None:
        kw["grid_resolution"] = case["grid"]
    if case["title"] is not None:
        kw["title"] = case["title"]
    extra = {}
    if case["pct"] is not None:
        extra["percentiles"] = tuple(case["pct"])
    before_X, before = X.copy(deep=True), plt.get_fignums()
    wants = []
    for f in feats:
        fs = list(f) if isinstance(f, tuple) else [f]
        try:
            wants.append(partial_dependence(model, X, fs, grid_resolution=case["grid"] or 100, kind="average", **extra))
        except ValueError:
            ctx.event("scikit-learn has no grid for these values")
            return
        if isinstance(f, tuple) and (min(map(len, wants[-1]["values"])) < 2 or np.ptp(wants[-1]["average"]) < 1e-6):
            ctx.event("constant surface, which scikit-learn does not draw")
            return
    PartialDependenceVisualizer(model, X).plot(list(feats), **kw, **extra)
    fig = one_figure(before, "visualizer")
    require(oracle.frames_equal(X, before_X), "data changed by plotting")
    title = case["title"] if case["title"] is not None else "Partial Dependence"
    require(any(title == a.get_title() for a in fig.axes) or (fig._suptitle is not None and fig._suptitle.get_text() == title),
            f"title {title!r} is not shown: {[a.get_title() for a in fig.axes]}")
    drawn = [a for a in fig.axes if a.lines or figs.surfaces(a)]
    require(len(drawn) == len(feats), f"{len(drawn)} plots for {len(feats)} requested")
    for ax, f, w in zip(drawn, feats, wants):
        spell = lambda q: q if isinstance(q, str) else names[q]
        Z = np.asarray(w["average"][0], dtype=float)
        tol = 1e-9 * max(1.0, float(np.max(np.abs(Z))))
        if isinstance(f, tuple):
            require((ax.get_xlabel(), ax.get_ylabel()) == tuple(map(spell, f)), f"axes of {f} are {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
            for cs in figs.surfaces(ax):
                bad = contour(cs, np.asarray(w["values"][0]), np.asarray(w["values"][1]), Z.T, tol)
                require(bad is None, f"plot of {f}: {bad}")
        else:
            require(ax.get_xlabel() == spell(f), f"x axis of {f} is {ax.get_xlabel()!r}")
            line = np.array(ax.lines[0].get_xydata(), dtype=float)
            want = np.column_stack([np.asarray(w["values"][0], dtype=float), Z])
            require(line.shape == want.shape and np.allclose(line, want, rtol=1e-9, atol=tol),
                    f"line of {f} has {len(line)} points, expected {len(want)} of scikit-learn's partial dependence")
        ctx.nontrivial(np.ptp(Z) > 1e-6)
    ctx.event("pairs" if any(isinstance(f, tuple) for f in feats) else "single")


def contour(cs, xs, ys, Z, tol):
    """contours with levels common to several plots: only the vertices are compared"""
    class Wrap:
        zmin, zmax = Z.min(), Z.max()
        filled, levels, allsegs = cs.filled, cs.levels, cs.allsegs
    return figs.contour_matches(Wrap, xs, ys, Z, np.ones(Z.shape, dtype=bool), tol)


@st.composite
def visualizer_cases(draw):
    data = draw(gen.data_specs(min_cols=2, max_cols=4, min_rows=4, max_rows=12, kinds="fgi", names=gen.SAFE_NAMES, big=(30, 9)))
    if draw(st.integers(0, 3)) == 0:    # enough different values for the grid resolution to matter
        data = dict(cols=[dict(n=nm, k="u", lev=draw(st.sampled_from([90, 150, 400]))) for nm in gen.SAFE_NAMES[:2]], index="default",
                    rows=draw(st.integers(60, 250)), r=draw(st.integers(0, 10 ** 6)))
        return dict(data=data, model=draw(gen.model_specs(2, kinds=("reg",), min_terms=1, offsets=(0.0,))), features=draw(st.sampled_from([[[0]], [[1]], [[1], [0]]])),
                    by_name=draw(st.booleans()), grid=draw(st.sampled_from([None, 20, 51, 60, 100, 130])), title=None, pct=draw(st.sampled_from([None, [0, 1]])))
    n = len(data["cols"])
    one = st.integers(0, n - 1)
    feats = draw(st.one_of(st.lists(one, min_size=1, max_size=1).map(lambda x: [x]),
                           st.lists(one, min_size=2, max_size=2).map(lambda x: [x]),
                           st.lists(st.lists(one, min_size=1, max_size=2), min_size=1, max_size=3)))
    return dict(data=data, model=draw(gen.model_specs(n, kinds=("reg",), min_terms=1, offsets=(0.0, 1.0))), features=feats,
                by_name=draw(st.booleans()), grid=draw(st.sampled_from([None, 2, 3, 5, 10, 40])), title=draw(st.sampled_from([None, "My title", "x"])),
                pct=draw(st.sampled_from([None, [0, 1], [0.1, 0.8]])))


SUBTESTS = [
    Sub("profile", profile_cases(), check_profile, 1350, 15000),
    Sub("visualizer", visualizer_cases(), check_visualizer, 480, 5000),
]
