"""C28: zenplots show the strongest pairs, each with its own surface."""
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt

from checks.c27 import KINDS, Profiles, one_figure
from lib import figs, fitted, gen, pdcases
from lib.gen import NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("fitted methods of the three partial dependence kinds with three to seven features, zenplots of length 1 to 30 of both kinds; the "
        "panels are ordered by position, matched with brute-force surfaces of the pairs (both orientations) and searched for an assignment "
        "of pairs that follows the strongest-next rule. Non-trivial: at least three panels and three different surfaces.")


def panel_order(fig):
    ax = [a for a in fig.axes if figs.surfaces(a) and not figs.is_bar_axes(a)]
    boxes = {a: a.get_position() for a in ax}
    mid = lambda a: ((boxes[a].x0 + boxes[a].x1) / 2, (boxes[a].y0 + boxes[a].y1) / 2)
    return sorted(ax, key=lambda a: (round(-mid(a)[1], 3), round(mid(a)[0], 3))), mid


def check(case, ctx):
    b = fitted.Built(case["m"])
    m = b.fit()
    o = Profiles(b, m)
    rows = fitted.table(m, b.kind)
    if len(rows) != len(m.ovo):
        ctx.event("missing values")
        return
    kind = case["style"]
    if kind == "contour" and any(len(o.values(f)[0]) < 2 for f in b.s.requested):
        ctx.event("contour of a constant feature")
        return
    k = case["k"]
    kw = {} if kind is None else {"kind": kind}
    if k is not None:
        kw["zenpath_length"] = k
    before = plt.get_fignums()
    m.plot_zenplot(**kw)
    fig = one_figure(before, "zenplot")
    k = 7 if k is None else k
    panels, mid = panel_order(fig)
    want = min(k, len(rows))
    require(len(panels) == want, f"{len(panels)} panels, expected {want} (length {k}, {len(rows)} pairs)")
    # neighbours: right (sharing the vertical axis) or below (sharing the horizontal one)
    moves = []
    for p, q in zip(panels, panels[1:]):
        (x0, y0), (x1, y1) = mid(p), mid(q)
        right, below = x1 > x0 + 1e-3 and abs(y1 - y0) < 1e-3, y1 < y0 - 1e-3 and abs(x1 - x0) < 1e-3
        require(right or below, f"panel at ({x1}, {y1}) after ({x0}, {y0}) is neither to the right nor below")
        moves.append("right" if right else "below")
    # colours
    scale = set()
    type_ = figs.QuadContourSet if kind == "contour" else figs.QuadMesh
    for ax in panels:
        filled = [c for c in figs.surfaces(ax) if isinstance(c, type_) and getattr(c, "filled", True)]
        require(len(filled) == 1, f"a panel has {len(filled)} coloured surfaces of kind {kind}")
        c = filled[0]
        scale.add((float(c.norm.vmin), float(c.norm.vmax), c.cmap.name))
    cand = rows[:k + 1]
    grids = [o.pair(f, g) for f, g, _ in cand]
    every = np.concatenate([Z.ravel() for _, _, Z, _ in grids])
    observed = np.concatenate([Z[need] for _, _, Z, need in grids])
    flat = np.ptp(observed) <= 1e-6 * o.ref.scale       # matplotlib widens the scale of a colour bar without extent
    require(flat or len(scale) == 1, f"panels have different colour scales {sorted(scale)}")
    lo, hi, _ = scale.pop()
    # which surfaces can each panel be
    fits, why = [], []
    cache = {}
    for ax in panels:
        ok = []
        for i, (f, g, _) in enumerate(cand):
            for x, y in ((f, g), (g, f)):
                names = dict(title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel())
                if names["title"] not in ("", x) or names["x"] not in ("", x) or names["y"] not in ("", y):
                    continue
                if (x, y) not in cache:
                    cache[(x, y)] = o.pair(x, y)
                bad = figs.surface_matches(ax, *cache[(x, y)], o.tol)
                if bad is None:
                    ok.append((i, x, y))
        fits.append(ok)
        require(ok, f"panel {len(fits)} (title {ax.get_title()!r}, y label {ax.get_ylabel()!r}) shows none of the {len(cand)} strongest pairs "
                    f"{[r[:2] for r in cand]} with axes labelled by their features")

    named = [{ax.get_title(), ax.get_xlabel(), ax.get_ylabel()} for ax in panels]

    def search(at, left, last):
        if at == len(panels):
            return True
        joined = [i for i in left if last in cand[i][:2]]
        pool = joined or list(left)
        best = max(cand[i][2] for i in pool)
        for i, x, y in fits[at]:
            if i not in pool or cand[i][2] != best:
                continue
            enter, leave = None, None
            if not {x, y} <= named[at] | (named[at + 1] if at + 1 < len(panels) else set()):
                continue
            if at > 0:
                enter = y if moves[at - 1] == "right" else x
                if joined and enter != last:
                    continue
            if at < len(moves):
                leave = y if moves[at] == "right" else x
            if search(at + 1, left - {i}, leave):
                return True
        return False

    require(search(0, frozenset(range(len(cand))), None),
            f"panels show {[[cand[i][:2] for i, _, _ in f] for f in fits]}, which do not start with the strongest pair and continue with the "
            f"strongest remaining pair that shares a feature, both features being named on the panel or the next one; names {named}, pairs {cand}")
    shown = [cache[(f[0][1], f[0][2])] for f in fits]
    vals = np.concatenate([Z[need] for _, _, Z, need in shown])
    pad = 1e-9 * o.ref.scale
    require(flat or lo <= vals.min() + pad and hi >= vals.max() - pad, f"colours span {lo}..{hi}, panels hold {vals.min()}..{vals.max()}")
    require(flat or lo >= every.min() - pad and hi <= every.max() + pad, f"colours span {lo}..{hi}, the pairs hold {every.min()}..{every.max()}")
    ctx.nontrivial(want >= 3 and len({v for _, _, v in cand}) >= 3)
    ctx.event(f"{kind} {'all pairs' if want == len(rows) else 'strongest pairs'}")
    ctx.event(f"labels {sum(bool(a.get_title() or a.get_ylabel()) for a in panels) == len(panels)}")


@st.composite
def cases(draw, lo=2, hi=4, dense=True):
    kw = dict(names=NAMES, kinds=KINDS, max_cols=hi, min_cols=lo, min_feat=min(lo, 3))
    if dense:
        case = draw(pdcases.rich(big=(5, 3), min_rows=3, **kw))
        if draw(st.integers(0, 3)):
            case["model"]["terms"] = gen.full_terms(len(case["data"]["cols"]), draw(st.integers(0, 10 ** 6)))
    else:
        case = draw(pdcases.fit_cases(max_rows=5, **kw))
    return dict(m=dict(kind=draw(st.sampled_from(fitted.PD_KINDS)), case=case), k=draw(st.sampled_from([None, 1, 2, 3, 4, 5, 6, 8, 30])),
                style=draw(st.sampled_from([None, "colormesh", "contour"])))


SUBTESTS = [
    Sub("dense", cases(3, 5), check, 440, 4000),
    Sub("wide", cases(4, 6), check, 180, 2000),
    Sub("small", cases(2, 4, dense=False), check, 300, 3000),
]
