"""Reference values of split score interactions and importance from the walk over all trees."""
import math

from hypothesis import strategies as st

from lib import trees

INTER = ["sum_gain", "mean_gain", "mean_depth", "sum_cover", "mean_cover"]
IMPORT = INTER + ["mean_weighted_depth", "root_frequency", "weighted_root_frequency"]


def aggregate(splits, metric):
    how, _, what = metric.partition("_")
    vals = [s[what] for s in splits]
    return math.fsum(vals) if how == "sum" else math.fsum(vals) / len(vals)


def interactions(walk, metric, only_def):
    groups = {}
    for s in walk:
        if s["parent"] is None:
            continue
        if only_def and not (s["parent"][0] != s["feature"] and s["gain"] > s["parent"][1]):
            continue
        groups.setdefault((s["parent"][0], s["feature"]), []).append(s)
    return {k: aggregate(v, metric) for k, v in groups.items()}, groups


def importance(walk, metric):
    """None: never at a root, or a share of a total of zero, which may be reported as zero or as missing"""
    groups = {}
    for s in walk:
        groups.setdefault(s["feature"], []).append(s)
    total = math.fsum(s["gain"] for s in walk if s["depth"] == 0)
    out = {}
    for f, ss in groups.items():
        roots = [s for s in ss if s["depth"] == 0]
        if metric == "mean_weighted_depth":
            weight = math.fsum(s["gain"] for s in ss)
            out[f] = math.fsum(s["gain"] * s["depth"] for s in ss) / weight if weight else None
        elif metric == "root_frequency":
            out[f] = float(len(roots)) if roots else None
        elif metric == "weighted_root_frequency":
            out[f] = len(roots) * math.fsum(s["gain"] for s in roots) / total if roots and total else None
        else:
            out[f] = aggregate(ss, metric)
    return out


def supported(metric, lib):
    return lib == "xgb" or "cover" not in metric


@st.composite
def requests(draw, spec_strategy, **extra):
    spec = draw(spec_strategy)
    ok = lambda ms: [m for m in ms if supported(m, spec["lib"])]
    case = dict(spec=spec, inter=draw(st.sampled_from(ok(INTER))), imp=draw(st.sampled_from(ok(IMPORT))), only=draw(st.booleans()),
                progress=draw(st.integers(0, 5)) == 0)
    for k, s in extra.items():
        case[k] = draw(s)
    return case


def close(got, want):
    if isinstance(got, str) or got is None:
        return False
    return abs(float(got) - want) <= 2e-5 * max(1.0, abs(want))
