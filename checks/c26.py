"""C26: every supported plot renders and leaves the results untouched."""
import copy
import math

import numpy as np
from hypothesis import strategies as st
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.collections import Collection, LineCollection
from matplotlib.patches import FancyArrowPatch

from artemis._utilities.exceptions import VisualizationNotSupportedException
from lib import figs, fitted
from lib.gen import NAMES, SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("fitted methods of every kind, sequences of one to four plots (every supported visualization, profiles and zenplots) with random "
        "documented options and summaries with nested option dictionaries, each rendered to pixels; all result tables and the caller's "
        "option dictionaries are compared before and after, and a plot with default options is compared before and after the sequence "
        "and with a fresh object. Non-trivial: at least two plots with options of a table with two or more entries.")


def fingerprint(fig):
    """what a figure shows: texts, bars, points, cells, lines and colours of every axes"""
    out = [tuple(map(float, fig.get_size_inches())), fig._suptitle.get_text() if fig._suptitle else None]
    for ax in fig.axes:
        a = dict(title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(), inv=figs.inverted(ax), lim=[ax.get_xlim(), ax.get_ylim()],
                 texts=sorted((t.get_text(), tuple(np.round(t.get_position(), 9)), mcolors.to_hex(t.get_color()), t.get_fontsize(),
                               str(t.get_fontweight())) for t in ax.texts),
                 bars=[(p.get_x(), p.get_y(), p.get_width(), p.get_height(), mcolors.to_hex(p.get_facecolor())) for p in figs.bars(ax)],
                 lines=[np.asarray(l.get_xydata(), dtype=float).tolist() for l in ax.lines],
                 ticks=[[t.get_text() for t in ax.get_xticklabels()], [t.get_text() for t in ax.get_yticklabels()]])
        a["arrows"] = [(p.get_linewidth(), mcolors.to_hex(p.get_edgecolor())) for p in ax.patches if isinstance(p, FancyArrowPatch)]
        for i, c in enumerate(ax.collections):
            if not isinstance(c, Collection):
                continue
            arr = c.get_array()
            a["c%d" % i] = (type(c).__name__, None if arr is None else np.ma.filled(np.ma.asarray(arr, dtype=float), np.nan).tolist(),
                            np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).tolist(),
                            np.asarray(c.get_sizes()).tolist() if hasattr(c, "get_sizes") else None,
                            np.round(np.asarray(c.get_facecolor(), dtype=float), 6).tolist(), c.get_cmap().name if arr is not None else None,
                            [s.tolist() for s in c.get_segments()] if isinstance(c, LineCollection) else None,
                            np.asarray(c.get_linewidth(), dtype=float).tolist())
        out.append(a)
    return repr(out)


def draw(m, b, call):
    """one plotting call [vis, options]; -> figure"""
    vis, opts = call
    before = plt.get_fignums()
    mine = figs.with_cmaps(copy.deepcopy(opts))
    if "figsize" in mine:
        mine["figsize"] = tuple(mine["figsize"])
    given = copy.deepcopy(mine)
    if vis in ("profile", "zenplot"):
        feats = [b.s.requested[i % len(b.s.requested)] for i in mine.pop("f", [])]
        given.pop("f", None)
        if len(set(feats)) < len(feats):
            feats = feats[:1]
        if vis == "zenplot":
            m.plot_zenplot(**mine)
        else:
            m.plot_profile(*feats, **mine)
    elif vis == "default":
        m.plot()
    else:
        m.plot(vis, **mine)
    require(given == mine and list(given) == list(mine), f"options {given} became {mine}")
    f = figs.new_figures(before)
    require(len(f) == 1, f"{len(f)} figures drawn for {vis}")
    f[0].canvas.draw()
    return f[0]


def shot(m, b, call):
    fig = draw(m, b, call)
    out = fingerprint(fig)
    plt.close("all")
    return out


def check(case, ctx):
    b = fitted.Built(case["m"])
    kind = b.kind
    m = b.fit()
    rows = fitted.table(m, kind)
    if not any(x != y for x, y, _ in rows):
        ctx.event("no pair")
        return
    if any(math.isinf(r[2]) for r in rows):
        ctx.event("infinite value, not drawn")
        return
    calls = case["calls"]
    if kind in fitted.PD_KINDS:
        flat = any(m.X_sampled[f].nunique() < 2 for f in b.s.requested)
        calls = [[v, {k: x for k, x in o.items() if k != "kind"}] if flat and "kind" in o else [v, o] for v, o in calls]
    calls = [c for c in calls if c[0] in fitted.VIS[kind] + ["default"] or kind in fitted.PD_KINDS and c[0] in ("profile", "zenplot")]
    before = fitted.snapshot(m)
    plain = [case["plain"], {}]
    if plain[0] not in fitted.VIS[kind]:
        plain = ["default", {}]
    first = shot(m, b, plain)
    for c in calls:
        draw(m, b, c)
        if case["close"]:
            plt.close("all")
        diff = fitted.same(before, fitted.snapshot(m))
        require(diff is None, f"{diff} changed by plotting {c}")
    plt.close("all")
    again = shot(m, b, plain)
    require(first == again, f"{plain[0]} is drawn differently after {calls}")
    if case["fresh"] and b.rs is None and kind in ("split", "cmd"):
        other = b.fit(fitted.new(kind))
        require(shot(other, b, plain) == first, f"{plain[0]} of a new object is drawn differently after {calls}")
    for v in fitted.ALL_VIS:
        if v not in fitted.VIS[kind]:
            try:
                m.plot(v)
            except VisualizationNotSupportedException:
                continue
            require(False, f"{kind} draws {v} after {calls}")
    diff = fitted.same(before, fitted.snapshot(m))
    require(diff is None, f"{diff} changed by plotting")
    ctx.nontrivial(len(rows) > 1 and sum(bool(o) for _, o in calls) > 1)
    for c in calls:
        ctx.event(kind + " " + c[0])


COLORS = ["red", "#00ff00", "black"]
HEAT = dict(interaction_color_map=["Blues", "obj:viridis", ["red", "#ffff00", "blue"]], importance_color_map=["Reds", "obj:Reds", ["black", "white"]], annot_fmt=[".1f", ".2e", "g"], linewidths=[0, 1.5],
            linecolor=COLORS, cbar_shrink=[0.5, 1])
BAR = dict(top_k=[1, 2, 3, 50], color=COLORS)
GRAPH = dict(n_highest_with_labels=[0, 1, 20], edge_color=COLORS, node_color=COLORS, node_size=[10, 300, 3000], font_color=COLORS,
             font_weight=["normal", "bold"], font_size=[5, 14], threshold_relevant_interaction=[0.0, 0.5, 2.0, 100.0])
LOLLI = dict(max_trees=[0.5, 1.0, 0.01], colors=[["red", "green", "blue"], ["#e41a1c", "#377eb8"]], shapes=[["o", "v", "^"], ["s", "x"]], max_depth=[1, 2, 4, 9],
             label_threshold=[0.0, 0.7, 1.0], labels=[True, False], scale=["linear", "log"])
COND = dict(top_k=[1, 2, 50], color=COLORS, cmap=["Blues", "obj:Reds"])


def options(d, title=True):
    """dictionaries with some of the documented options"""
    items = dict(d)
    if title:
        items.update(title=["T", ""], figsize=[[4, 3], [9, 2]])
    return st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in items.items()})


PARTS = dict(heatmap=HEAT, graph=GRAPH, bar_chart=BAR, bar_chart_ova=BAR)


def call_for(vis, kind):
    if vis == "summary":
        keys = ["heatmap", "graph", "bar_chart"] + (["bar_chart_ova"] if kind in ("h", "hu") else [])
        return st.fixed_dictionaries({}, optional={**{k: options(PARTS[k], False) for k in keys}, "title": st.just("S"), "figsize": st.just([2, 1])})
    if vis == "profile":
        return st.fixed_dictionaries(dict(f=st.lists(st.integers(0, 3), min_size=1, max_size=2)),
                                     optional=dict(kind=st.sampled_from(["colormesh", "contour"]), cmap=st.sampled_from(["viridis", "Blues_r"]), figsize=st.just([3, 3])))
    if vis == "zenplot":
        return st.fixed_dictionaries({}, optional=dict(zenpath_length=st.integers(1, 8), kind=st.sampled_from(["colormesh", "contour"]),
                                                       cmap=st.sampled_from(["viridis", "Blues_r"]), figsize=st.just([5, 4])))
    return options({"heatmap": HEAT, "default": {}, "graph": GRAPH, "bar_chart": BAR, "bar_chart_ova": BAR, "lollipop": LOLLI, "bar_chart_conditional": COND}[vis],
                   vis != "default")


@st.composite
def cases(draw, heavy=False, **kw):
    m = draw(fitted.specs(**kw))
    kind = m["kind"]
    vs = [v for v in fitted.VIS[kind] if heavy or v != "summary"]
    if kind in fitted.PD_KINDS:
        vs = vs + (["profile", "zenplot"] if heavy else ["profile"])
    calls = []
    for _ in range(draw(st.integers(1, 2 if heavy else 4))):
        v = draw(st.sampled_from(vs + (["summary"] if heavy else [])))
        calls.append([v, draw(call_for(v, kind))])
    plain = draw(st.sampled_from([v for v in fitted.VIS[kind] if v != "summary"] + (["summary"] if heavy else [])))
    return dict(m=m, calls=calls, plain=plain, close=draw(st.booleans()), fresh=draw(st.booleans()))


SUBTESTS = [
    Sub("agnostic", cases(kinds=["h", "hu", "greenwell", "sejong"], names=NAMES, lo=2, max_cols=4, small=True), check, 144, 2500),
    Sub("trees", cases(kinds=["split", "split", "cmd"], names=SAFE_NAMES, lo=2, max_cols=4), check, 192, 3000),
    Sub("dense", cases(names=SAFE_NAMES, lo=3, max_cols=5, dense=True), check, 128, 2500),
    Sub("heavy", cases(heavy=True, names=SAFE_NAMES, lo=2, max_cols=4), check, 64, 1500),
]
