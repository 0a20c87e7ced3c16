"""Reading drawn figures."""
import re

import numpy as np
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.collections import PathCollection, QuadMesh
from matplotlib.contour import QuadContourSet
from matplotlib.patches import Rectangle

NUM = r"(-?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))"


def as_cmap(v):
    """colour map option: "obj:name" stands for the colour map object of that name, others are passed as they are"""
    return plt.get_cmap(v[4:]) if isinstance(v, str) and v.startswith("obj:") else list(v) if isinstance(v, list) else v


def cmap_of(v):
    """the colour map an option asks for"""
    v = as_cmap(v)
    return mcolors.ListedColormap(v) if isinstance(v, list) else plt.get_cmap(v)


def with_cmaps(opts):
    return {k: as_cmap(v) if "map" in k and k != "heatmap" else with_cmaps(v) if isinstance(v, dict) else v for k, v in opts.items()}


def new_figures(before):
    return [plt.figure(n) for n in plt.get_fignums() if n not in before]


def comparison_axes(result):
    """the axes of what comparison_plot returns or summary stores"""
    if isinstance(result, tuple):
        return result[1]
    return result.axes[0]


def points(ax):
    """visible scatter points"""
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            p = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
            out += [tuple(x) for x in p.tolist() if not np.isnan(x).any()]
    return sorted(out)


def correlation_box(ax):
    """{name: value} of the correlation box, None without one"""
    for t in ax.texts:
        s = t.get_text().lower()
        found = {m: re.search(m + r"\D{0,3}?" + NUM, s) for m in ("pearson", "kendall", "spearman")}
        if all(found.values()):
            return {m: float(x.group(1)) for m, x in found.items()}
    return None


def annotations(ax):
    """[(text, xy)] of annotations with a marked point"""
    return [(t.get_text(), tuple(map(float, t.xy))) for t in ax.texts if hasattr(t, "xy")]


def inverted(ax):
    return bool(ax.xaxis_inverted()), bool(ax.yaxis_inverted())


# ---------------------------------------------------------------- plots of methods

def is_colorbar(ax):
    return ax.get_label() == "<colorbar>"


def meshes(ax):
    return [c for c in ax.collections if isinstance(c, QuadMesh)]


def bars(ax):
    return [p for p in ax.patches if isinstance(p, Rectangle)]


def panels(fig):
    """the axes of a figure by what they show: {"heatmap": [...], "bars": [...], "graph": [...]}"""
    out = dict(heatmap=[], bars=[], graph=[])
    for ax in fig.axes:
        if is_colorbar(ax):
            continue
        if meshes(ax):
            out["heatmap"].append(ax)
        elif bars(ax):
            out["bars"].append(ax)
        else:
            out["graph"].append(ax)
    return out


def tick_names(axis, n):
    """{cell index: label} of an axis whose cells are centred at k + 0.5"""
    out = {}
    for pos, lab in zip(axis.get_ticklocs(), axis.get_ticklabels()):
        if lab.get_text() != "":
            out[int(np.floor(pos))] = lab.get_text()
    return [out.get(k) for k in range(n)]


class Heatmap:
    """rows, columns, values {(row, column): value}, texts {(row, column): annotation}, meshes"""

    def __init__(self, ax):
        self.meshes = meshes(ax)
        shape = np.ma.asarray(self.meshes[0].get_array()).shape
        if len(shape) == 1:
            n = int(round(shape[0] ** 0.5))
            shape = (n, n)
        self.shape = shape
        self.rows, self.cols = tick_names(ax.yaxis, shape[0]), tick_names(ax.xaxis, shape[1])
        self.values, self.owner, self.double = {}, {}, []
        for mesh in self.meshes:
            a = np.ma.asarray(mesh.get_array()).reshape(shape)
            mask = np.ma.getmaskarray(a)
            for i in range(shape[0]):
                for j in range(shape[1]):
                    if mask[i, j] or np.isnan(float(a[i, j])):
                        continue
                    key = (self.rows[i], self.cols[j])
                    if key in self.values:
                        self.double.append(key)
                    self.values[key] = float(a[i, j])
                    self.owner[key] = mesh
        self.texts = {}
        for t in ax.texts:
            x, y = t.get_position()
            i, j = int(np.floor(y)), int(np.floor(x))
            if 0 <= i < shape[0] and 0 <= j < shape[1]:
                self.texts.setdefault((self.rows[i], self.cols[j]), []).append(t.get_text())

    def darkness(self, key):
        m = self.owner[key]
        r, g, b, _ = m.cmap(m.norm(self.values[key]))
        return 1 - (0.299 * r + 0.587 * g + 0.114 * b)


def bar_rows(ax):
    """[(label, length)] of horizontal bars from top to bottom"""
    locs = {round(float(p)): l.get_text() for p, l in zip(ax.yaxis.get_ticklocs(), ax.yaxis.get_ticklabels())}
    out = []
    for p in bars(ax):
        mid = p.get_y() + p.get_height() / 2
        out.append((mid, locs.get(round(mid)), float(p.get_width())))
    out.sort(key=lambda r: r[0], reverse=not ax.yaxis_inverted())
    return [(l, w) for _, l, w in out]


def bar_columns(ax):
    """[(label, height)] of vertical bars from left to right; bars without a height are not drawn"""
    locs = {round(float(p)): l.get_text() for p, l in zip(ax.xaxis.get_ticklocs(), ax.xaxis.get_ticklabels())}
    out = []
    for p in bars(ax):
        if np.isnan(p.get_height()):
            continue
        mid = p.get_x() + p.get_width() / 2
        out.append((mid, locs.get(round(mid)), float(p.get_height())))
    out.sort(key=lambda r: r[0])
    return [(l, h) for _, l, h in out], locs


def graph_texts(ax, nodes):
    """positions of node names, and the remaining texts with positions"""
    pos, rest = {}, []
    for t in ax.texts:
        s = t.get_text()
        if s in nodes and s not in pos:
            pos[s] = np.array(t.get_position(), dtype=float)
        else:
            rest.append((s, np.array(t.get_position(), dtype=float)))
    return pos, rest


def title_of(fig, ax):
    return ax.get_title()


# ---------------------------------------------------------------- surfaces

def is_bar_axes(ax):
    return is_colorbar(ax) or getattr(ax, "_colorbar", None) is not None


def surfaces(ax):
    return [c for c in ax.collections if isinstance(c, (QuadMesh, QuadContourSet))]


def positions(axis, values):
    """where the values lie on an axis (text values by the categories of the axis); None if the axis does not hold them"""
    known = getattr(axis.units, "_mapping", None)
    if any(isinstance(v, str) for v in values):
        if known is None or not all(v in known for v in values):
            return None
        return np.array([float(known[v]) for v in values])
    return None if known is not None else np.array([float(v) for v in values])


def _cell(edges, p):
    """index of the cell that holds p, for increasing or decreasing edges"""
    lo, hi = np.minimum(edges[:-1], edges[1:]), np.maximum(edges[:-1], edges[1:])
    hit = np.nonzero((lo <= p) & (p <= hi))[0]
    return int(hit[0]) if len(hit) else None


def mesh_matches(mesh, xs, ys, Z, need, tol):
    """Z[iy, ix] is shown at (xs[ix], ys[iy]), cells not needed may be blank; -> None or what is wrong"""
    a = np.ma.filled(np.ma.asarray(mesh.get_array(), dtype=float), np.nan)
    c = mesh.get_coordinates()
    if c is None or a.size != Z.size or c.shape[:2] != (len(ys) + 1, len(xs) + 1):
        return f"surface of shape {a.shape}, expected {Z.shape}"
    a = a.reshape(len(ys), len(xs))
    ex, ey = c[0, :, 0], c[:, 0, 1]
    for ix, x in enumerate(xs):
        for iy, y in enumerate(ys):
            i, j = _cell(ey, y), _cell(ex, x)
            if i is None or j is None:
                return f"nothing is shown at ({x}, {y})"
            if np.isnan(a[i, j]) and not need[iy, ix]:
                continue
            if not abs(a[i, j] - Z[iy, ix]) <= tol:
                return f"{a[i, j]} is shown at ({x}, {y}), partial dependence is {Z[iy, ix]}"
    return None


def _slack(v):
    """how far from each value of a sorted axis a point still counts as lying on its grid line"""
    scale = max(1.0, float(np.max(np.abs(v))))
    if len(v) == 1:
        return np.full(1, 1e-9 * scale)
    d = np.diff(np.asarray(v, dtype=float))
    gap = np.minimum(np.append(d, np.inf), np.insert(d, 0, np.inf))
    return np.maximum(np.minimum(1e-9 * scale, 1e-7 * gap), 4e-16 * np.abs(v))


def _on_grid(p, xs, ys, Z):
    """values the surface takes at a point on the lines of the grid"""
    out = []
    sx, sy = _slack(xs), _slack(ys)
    if not (xs[0] - sx[0] <= p[0] <= xs[-1] + sx[-1] and ys[0] - sy[0] <= p[1] <= ys[-1] + sy[-1]):
        return out
    for ix in np.nonzero(np.abs(xs - p[0]) <= sx)[0]:
        out.append(float(np.interp(p[1], ys, Z[:, ix])))
    for iy in np.nonzero(np.abs(ys - p[1]) <= sy)[0]:
        out.append(float(np.interp(p[0], xs, Z[iy, :])))
    return out


def contour_matches(cs, xs, ys, Z, need, tol):
    lo, hi = Z[need].min(), Z[need].max()
    if not (Z.min() - tol <= cs.zmin <= lo + tol and hi - tol <= cs.zmax <= Z.max() + tol):
        return f"contours of values {cs.zmin}..{cs.zmax}, partial dependence is {Z.min()}..{Z.max()}"
    if cs.filled:
        ranges = list(zip(cs.levels[:-1], cs.levels[1:]))
    else:
        ranges = [(l, l) for l in cs.levels]
    tol = max(tol, 1e-6 * max(1e-12, float(np.max(np.abs(Z)))))
    for (lo, hi), segs in zip(ranges, cs.allsegs):
        for seg in segs:
            for p in np.asarray(seg, dtype=float).reshape(-1, 2):
                vals = _on_grid(p, xs, ys, Z)
                inside = xs[0] <= p[0] <= xs[-1] and ys[0] <= p[1] <= ys[-1]
                if not vals and inside and not (cs.filled and need.all()):
                    continue        # contours cut corners of cells next to blank ones, and lines have gaps for labels
                if not vals:
                    return f"contour point {tuple(p)} is outside the grid of values"
                if not any(lo - tol <= v <= hi + tol for v in vals):
                    return f"contour {lo}..{hi} passes {tuple(p)} where partial dependence is {vals[0]}"
    return None


def surface_matches(ax, xvals, yvals, Z, need, tol):
    """all surfaces of the axes show Z[iy, ix] over the values; -> None or what is wrong"""
    found = surfaces(ax)
    if not found:
        return "no surface is drawn"
    xs, ys = positions(ax.xaxis, xvals), positions(ax.yaxis, yvals)
    if xs is None or ys is None:
        return "an axis does not hold the values of the feature"
    ox, oy = np.argsort(xs), np.argsort(ys)
    xs, ys, Z, need = xs[ox], ys[oy], np.asarray(Z, dtype=float)[np.ix_(oy, ox)], need[np.ix_(oy, ox)]
    for c in found:
        bad = (contour_matches if isinstance(c, QuadContourSet) else mesh_matches)(c, xs, ys, Z, need, tol)
        if bad:
            return bad
    return None
