"""C30: documented plot options take effect and defaults are as documented."""
import math

import numpy as np
from hypothesis import strategies as st
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.markers import MarkerStyle
from matplotlib.patches import FancyArrowPatch

from lib import figs, fitted, gbref, trees
from lib.gen import NAMES, SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("fitted methods of every kind, every supported visualization alone or inside the summary, profiles and zenplots, drawn with random "
        "subsets of the documented options (size, title, colours, colour maps, line widths, fonts, markers); sizes, colours, widths, fonts "
        "and markers are read back from the matplotlib artists and compared with the requested or documented default ones. Non-trivial: "
        "at least two options given for a table with two or more entries.")
COLORS = ["red", "#00ff00", "black", "tab:cyan"]
HEAT = dict(interaction_color_map=["Blues", "viridis", "obj:YlGn", ["red", "#ffff00", "blue"]],
            importance_color_map=["Reds", "obj:plasma", ["black", "#00ff00"]], linewidths=[0, 1.5, 3], linecolor=COLORS, annot_fmt=[".1f", ".2e", ".5f"])
BAR = dict(color=COLORS)
GRAPH = dict(edge_color=COLORS, node_color=COLORS, font_color=COLORS, font_weight=["normal", "bold"], font_size=[5, 14])
COND = dict(color=COLORS, cmap=["Blues", "Reds", "obj:Blues", "obj:Reds"], top_k=[2, 4, 50])
LOLLI = dict(colors=[["red", "green", "blue"], ["#e41a1c", "#377eb8"], ["black"]], shapes=[["o", "v", "^"], ["s", "D"], ["^"]], max_depth=[1, 2, 3, 9],
             max_trees=[0.5, 1.0], labels=[True, False], scale=["linear", "log", "symlog"])
DEPTH_COLORS = ["#e41a1c", "#377eb8", "#4daf4a", "#984ea3", "#ff7f00", "#ffff33"]
DEPTH_SHAPES = ["o", ",", "v", "^", "<", ">"]
SIZES = [[4, 3], [9, 2], [6.5, 6.5]]


def same_color(a, b):
    return np.allclose(mcolors.to_rgb(tuple(a) if not isinstance(a, str) else a), mcolors.to_rgb(b), atol=2e-3)


def all_color(found, want, what):
    for c in found:
        require(same_color(c, want), f"{what} has the colour {mcolors.to_hex(tuple(c) if not isinstance(c, str) else c)}, expected {want}")


def heatmap(ax, b, o):
    hm = figs.Heatmap(ax)
    for mesh in hm.meshes:
        lw = np.atleast_1d(mesh.get_linewidth()).astype(float)
        require(np.allclose(lw, o.get("linewidths", 0.5)), f"cells are divided by lines of width {lw[0]}, expected {o.get('linewidths', 0.5)}")
        all_color(np.atleast_2d(mesh.get_edgecolor()), o.get("linecolor", "white"), "the line between cells")
    fmt = o.get("annot_fmt", ".3f")
    for (r, c), v in hm.values.items():
        if math.isinf(v):
            continue
        got = {t for t in hm.texts.get((r, c), []) if any(ch.isdigit() for ch in t)}      # seaborn may leave out annotations
        require(got <= {format(v, fmt)}, f"cell {r}, {c} with the value {v} is annotated {got}, the format is {fmt}")
        diag = r == c
        if diag:
            name = o.get("importance_color_map", "Greens_r" if b.importance_ascending else "Greens")
        else:
            name = o.get("interaction_color_map", "Purples_r" if b.ascending else "Purples")
        mesh = hm.owner[(r, c)]
        got, want = mesh.cmap(mesh.norm(v)), figs.cmap_of(name)(mesh.norm(v))
        require(np.allclose(got, want, atol=2e-3), f"cell {r}, {c} has the colour {mcolors.to_hex(got)}, not one of the map {name}")


def barh(ax, o):
    all_color([p.get_facecolor() for p in figs.bars(ax)], o.get("color", "mediumpurple"), "a bar")


def graph(ax, b, o, nodes):
    edge = o.get("edge_color", "rebeccapurple")
    for c in ax.collections:
        if isinstance(c, LineCollection):
            all_color(c.get_edgecolor(), edge, "an edge")
        elif isinstance(c, PathCollection):
            all_color(c.get_facecolor(), o.get("node_color", "green"), "a node")
    all_color([p.get_edgecolor() for p in ax.patches if isinstance(p, FancyArrowPatch)], edge, "an edge")
    seen = set()
    for t in ax.texts:
        s = t.get_text()
        if not s.strip():
            continue
        all_color([t.get_color()], o.get("font_color", "#3B1F2B"), f"text {s}")
        require(str(t.get_fontweight()) == o.get("font_weight", "bold"), f"text {s} has weight {t.get_fontweight()}")
        if s in nodes and s not in seen:
            seen.add(s)
            require(abs(t.get_fontsize() - o.get("font_size", 10)) < 1e-9, f"name {s} has size {t.get_fontsize()}, expected {o.get('font_size', 10)}")


def conditional(ax, m, b, o, ctx):
    table = m.ovo.dropna(subset=[m.method])
    counts = [int(x) for x in table["n_occurences"]][:o.get("top_k", 15)]
    got = {}
    for p in figs.bars(ax):
        if not np.isnan(p.get_height()):
            got[round(p.get_x() + p.get_width() / 2)] = p.get_facecolor()
    require(sorted(got) == list(range(len(counts))), f"{len(got)} bars, expected {len(counts)}")
    dark = lambda c: 1 - (0.299 * c[0] + 0.587 * c[1] + 0.114 * c[2])
    by = sorted((n, dark(got[i]), i) for i, n in enumerate(counts))
    lo, hi = by[0][0], by[-1][0]
    for (n1, d1, i1), (n2, d2, i2) in zip(by, by[1:]):
        if n1 == n2:
            require(abs(d1 - d2) < 1e-6, f"bars {i1} and {i2} with {n1} occurrences have different colours")
        else:
            require(d2 >= d1 - 1e-6, f"bar {i2} with {n2} occurrences is lighter than bar {i1} with {n1}")
            if (n2 - n1) > 0.05 * (hi - lo):
                require(d2 > d1, f"bars {i1} and {i2} with {n1} and {n2} occurrences have the same colour")
                ctx.event("different occurrences")
    name = o.get("cmap", "Purples").replace("obj:", "")
    for c in got.values():
        ok = {"Blues": c[2] > c[0], "Reds": c[0] > c[2], "Purples": c[2] > c[1]}[name]
        require(ok, f"bar colour {mcolors.to_hex(c)} is not of the map {name}")
    want = o.get("color", "black")
    for c in ax.collections:
        if isinstance(c, PathCollection):
            all_color(c.get_facecolor(), want, "an importance marker")
        elif isinstance(c, LineCollection):
            all_color(c.get_edgecolor(), want, "an importance line")
    imp = fitted.importance(m)
    values = [float(v) for v in table[m.method]][:len(counts)]
    names = [str(v) for v in table["variable"]][:len(counts)]
    segs = {}
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                if len(s) == 2:
                    segs[round(float(s[0][0]))] = sorted((float(s[0][1]), float(s[1][1])))
    for i, (v, f) in enumerate(zip(values, names)):
        require(i in segs and np.allclose(segs[i], sorted((v, imp[f])), atol=1e-9),
                f"the line of bar {i} spans {segs.get(i)}, value and minimal depth are {v} and {imp[f]}")


def marker_path(s):
    ms = MarkerStyle(s)
    return ms.get_path().transformed(ms.get_transform())


def lollipop(ax, b, o, spec):
    walk = trees.walk_gb(b.booster, spec["spec"]["lib"])
    cols, shapes = o.get("colors", DEPTH_COLORS), o.get("shapes", DEPTH_SHAPES)
    depth = o.get("max_depth", 1)
    known = {}
    for s in walk:
        if s["depth"] <= depth:
            known.setdefault(s["tree"] + 1.0, []).append(s)
    for c in ax.collections:
        if not isinstance(c, PathCollection):
            continue
        pts = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
        faces, paths = c.get_facecolor(), c.get_paths()
        for i, (x, y) in enumerate(pts):
            if math.isnan(x) or math.isnan(y):      # a tree that is one leaf
                continue
            depths = {s["depth"] for s in known.get(x, []) if gbref.close(y, s["gain"])}
            if not depths:
                require(False, f"point ({x}, {y}) shows no split")
            color = faces[i % len(faces)]
            require(any(same_color(color, cols[d % len(cols)]) for d in depths),
                    f"split at depth {sorted(depths)} in tree {x - 1} has the colour {mcolors.to_hex(color)}, colours are {cols}")
            p = paths[i % len(paths)]
            ok = False
            for d in depths:
                q = marker_path(shapes[d % len(shapes)])
                ok = ok or p.vertices.shape == q.vertices.shape and np.allclose(p.vertices, q.vertices)
            require(ok, f"split at depth {sorted(depths)} in tree {x - 1} has another marker than {shapes}")
    require(ax.get_xscale() == o.get("scale", "linear"), f"the scale of the trees is {ax.get_xscale()}, expected {o.get('scale', 'linear')}")
    for l in ax.lines:
        if len(l.get_xdata()):
            all_color([l.get_color()], cols[0], "the line through the roots")
    return any(s["depth"] > 1 for ss in known.values() for s in ss)


def size(fig, want, what):
    got = tuple(map(float, fig.get_size_inches()))
    require(np.allclose(got, want), f"{what} has the size {got}, expected {tuple(want)}")


def check(case, ctx):
    b = fitted.Built(case["m"])
    m = b.fit()
    kind = b.kind
    rows = fitted.table(m, kind)
    if not any(x != y for x, y, _ in rows) or any(math.isinf(r[2]) for r in rows):
        ctx.event("nothing to draw")
        return
    nodes = {f for r in rows for f in r[:2]}
    for vis, opts in case["calls"]:
        before = plt.get_fignums()
        o = {k: ([x for x in v] if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in opts.items()}
        if "figsize" in o:
            o["figsize"] = tuple(o["figsize"])
        m.plot(vis, **figs.with_cmaps(o))
        fs = figs.new_figures(before)
        require(len(fs) == 1, f"{len(fs)} figures drawn")
        fig, o = fs[0], opts
        p = figs.panels(fig)
        if vis == "summary":
            w, h = fig.get_size_inches()
            fw, fh = o.get("figsize", (8, 6))
            require(abs(w * fh - h * fw) <= 1e-6 * w * h, f"summary has the proportions of {(w, h)}, requested {(fw, fh)}")
            require(len(p["heatmap"]) == 1 and len(p["graph"]) == 1 and p["bars"], "panels of the summary")
            heatmap(p["heatmap"][0], b, o.get("heatmap", {}))
            graph(p["graph"][0], b, o.get("graph", {}), nodes)
            single = lambda ax: all(l in nodes for l, _ in figs.bar_rows(ax))
            for i, ax in enumerate(p["bars"]):
                is_ova = kind in ("h", "hu") and single(ax)
                barh(ax, o.get("bar_chart_ova" if is_ova else "bar_chart", {}))
            title = fig._suptitle.get_text() if fig._suptitle else ""
        else:
            size(fig, o.get("figsize", (8, 6)), vis)
            ax = (p["heatmap"] + p["bars"] + p["graph"])[0]
            title = ax.get_title()
            if vis == "heatmap":
                heatmap(ax, b, o)
            elif vis == "graph":
                graph(ax, b, o, nodes)
            elif vis == "bar_chart_conditional":
                conditional(ax, m, b, o, ctx)
            elif vis == "lollipop":
                if lollipop(ax, b, o, case["m"]):
                    ctx.event("deeper splits")
            else:
                barh(ax, o)
        if o.get("title", "default") == "default":
            require(title.strip() and title != "default", f"the generated title is {title!r}")
        else:
            require(title == o["title"], f"title is {title!r}, requested {o['title']!r}")
        plt.close("all")
        ctx.event(kind + " " + vis)
    ctx.nontrivial(len(rows) > 1 and sum(len(o) for _, o in case["calls"]) > 1)


def check_pd(case, ctx):
    b = fitted.Built(case["m"])
    m = b.fit()
    rows = fitted.table(m, b.kind)
    o = dict(case["opts"])
    if any(math.isinf(r[2]) for r in rows) or not rows:
        ctx.event("nothing to draw")
        return
    if "figsize" in o:
        o["figsize"] = tuple(o["figsize"])
    if any(m.X_sampled[f].nunique() < 2 for f in b.s.requested):
        o.pop("kind", None)
    before = plt.get_fignums()
    if case["zen"]:
        m.plot_zenplot(**o)
    else:
        x, y, _ = rows[case["row"] % len(rows)]
        m.plot_profile(x, y, **o)
    fs = figs.new_figures(before)
    require(len(fs) == 1, f"{len(fs)} figures drawn")
    if "figsize" in o:
        size(fs[0], o["figsize"], "plot")
    n = 0
    for ax in fs[0].axes:
        if figs.is_bar_axes(ax):
            continue
        for c in figs.surfaces(ax):
            if getattr(c, "filled", True) is False:
                continue
            n += 1
            cmap = plt.get_cmap(o.get("cmap", "RdYlBu_r"))
            at = np.linspace(0, 1, 7)
            require(np.allclose(c.get_cmap()(at), cmap(at), atol=2e-3), f"surface drawn with the map {c.get_cmap().name}, expected {cmap.name}")
    require(n, "no surface is drawn")
    plt.close("all")
    ctx.nontrivial(len(o) > 1)
    ctx.event(b.kind + (" zenplot" if case["zen"] else " profile"))


def opts_of(d, title=True):
    items = dict(d)
    if title:
        items.update(title=["T", "", "default"], figsize=SIZES)
    return st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in items.items()})


TABLE = dict(heatmap=HEAT, graph=GRAPH, bar_chart=BAR, bar_chart_ova=BAR, lollipop=LOLLI, bar_chart_conditional=COND)


@st.composite
def cases(draw, only=None, summary=False, **kw):
    m = draw(fitted.specs(**kw))
    kind = m["kind"]
    if summary:
        keys = ["heatmap", "graph", "bar_chart"] + (["bar_chart_ova"] if kind in ("h", "hu") else [])
        some = lambda k: opts_of(TABLE[k], False).filter(bool)
        o = draw(st.fixed_dictionaries({}, optional={**{k: some(k) for k in keys}, "title": st.sampled_from(["S", "default"]),
                                                     "figsize": st.sampled_from([[2, 1], [1, 2], [3, 3]])}))
        return dict(m=m, calls=[["summary", o]])
    vs = [v for v in fitted.VIS[kind] if v != "summary" and (only is None or v in only)]
    vs = draw(st.lists(st.sampled_from(vs), min_size=1, max_size=2, unique=True))
    return dict(m=m, calls=[[v, draw(opts_of(TABLE[v]))] for v in vs])


@st.composite
def pd_cases(draw, **kw):
    m = draw(fitted.specs(kinds=fitted.PD_KINDS, names=SAFE_NAMES, **kw))
    zen = draw(st.integers(0, 2)) == 0
    o = draw(st.fixed_dictionaries({}, optional=dict(kind=st.sampled_from(["colormesh", "contour"]), cmap=st.sampled_from(["viridis", "Blues"]),
                                                     figsize=st.sampled_from(SIZES))))
    if zen:
        o["zenpath_length"] = draw(st.integers(1, 4))
    return dict(m=m, zen=zen, row=draw(st.integers(0, 5)), opts=o)


SUBTESTS = [
    Sub("agnostic", cases(kinds=["h", "hu", "greenwell", "sejong"], names=NAMES, lo=2, max_cols=4, dense=True, small=True), check, 320, 4000),
    Sub("trees", cases(kinds=["split", "cmd", "cmd"], names=SAFE_NAMES, lo=2, max_cols=5, dense=True), check, 320, 4000),
    Sub("special", cases(only=("lollipop", "bar_chart_conditional"), kinds=["split", "cmd"], names=SAFE_NAMES, lo=2, max_cols=5), check, 400, 5000),
    Sub("profiles", pd_cases(lo=2, max_cols=4, dense=True, small=True), check_pd, 192, 3000),
    Sub("summary", cases(summary=True, names=SAFE_NAMES, lo=2, max_cols=4, dense=True), check, 96, 2000),
    Sub("summary_ova", cases(summary=True, kinds=["h", "hu"], names=SAFE_NAMES, lo=2, max_cols=3, dense=True, small=True), check, 160, 2500),
]
