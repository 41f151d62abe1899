"""P28 - plots show the numbers they are given."""
import math
import warnings
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection, PolyCollection
from matplotlib.colors import to_rgba
from scipy import stats as sps
from harness.core import *
from harness import gen, zoo
import diff_diff as dd
from diff_diff import results as R, staggered_results as SR, sun_abraham as SA, bacon as BA, honest_did as HD, power as PW, pretrends as PT, visualization as V

P = "P28"
val = st.one_of(st.floats(-50, 50), st.floats(-3, 3), st.sampled_from([0.0, 1e-6, 1234.5]))
nval = st.one_of(val, val, val, st.just(float("nan")))
pos = st.one_of(st.floats(0, 20), st.floats(0, 1), st.just(0.0))
npos = st.one_of(pos, pos, pos, st.sampled_from([float("nan"), float("inf")]))
alphas = st.one_of(st.sampled_from([0.05, 0.1, 0.01]), st.floats(0.001, 0.9))


# ------------------------------------------------------------------ reading the axes
class Ax:
    """draw(ax) on given or own axes; the artists, in data coordinates"""

    def __init__(self, draw, own=False):
        plt.close("all")
        try:
            if own:
                self.ax = draw(None)
                check(len(plt.get_fignums()) == 1 and self.ax.get_figure() is plt.gcf(), "without ax a new figure is drawn and its axes returned")
            else:
                fig, ax = plt.subplots(1, 2, figsize=(6, 3))
                self.ax = draw(ax[0])
                check(self.ax is ax[0] and len(plt.get_fignums()) == 1, "the given axes are drawn on and returned")
                check(not ax[1].lines and not ax[1].collections, "other axes stay empty")
            self.read()
        finally:
            plt.close("all")

    def read(self):
        ax = self.ax
        self.points, self.curves, self.h, self.v = [], [], [], []      # markers (x, y, colour, hollow); polylines; reference lines
        for l in ax.lines:
            x, y = np.asarray(l.get_xdata(orig=False), float), np.asarray(l.get_ydata(orig=False), float)
            m = l.get_marker()
            if m in ("_", "|", 2, 3, 0, 1):
                continue                                              # caps of error bars
            if m not in ("None", None, "", " "):
                face = to_rgba(l.get_markerfacecolor())
                self.points += [(a, b, to_rgba(l.get_markeredgecolor()), face == to_rgba("white")) for a, b in zip(x, y)]
                if len(x) > 1 and l.get_linestyle() != "None":
                    self.curves.append((x, y, to_rgba(l.get_color()), l.get_label()))
            elif l.get_transform() == ax.get_yaxis_transform(which="grid"):
                self.h.append((y[0], to_rgba(l.get_color()), l.get_linestyle(), l.get_label()))
            elif l.get_transform() == ax.get_xaxis_transform(which="grid"):
                self.v.append((x[0], to_rgba(l.get_color()), l.get_linestyle(), l.get_label()))
            else:
                self.curves.append((x, y, to_rgba(l.get_color()), l.get_label()))
        self.bars = []                                                # error bars: x, low, high, colour
        self.scatter = []
        self.fills = []
        for c in ax.collections:
            if isinstance(c, LineCollection):
                col = [tuple(q) for q in c.get_colors()]
                for i, s in enumerate(c.get_segments()):
                    if len(s) == 2 and np.isfinite(s).all():
                        self.bars.append((s[0][0], min(s[:, 1]), max(s[:, 1]), col[i % len(col)]))
            elif isinstance(c, PathCollection):
                f = [tuple(q) for q in c.get_facecolors()]
                off = np.ma.getdata(c.get_offsets())
                self.scatter += [(x, y, f[i % len(f)]) for i, (x, y) in enumerate(off)]
            elif isinstance(c, PolyCollection):
                self.fills.append(np.vstack([p.vertices for p in c.get_paths()]) if c.get_paths() else np.zeros((0, 2)))
        self.spans, self.rects = [], []
        for p in ax.patches:
            v = p.get_path().transformed(p.get_patch_transform()).vertices
            (self.spans if p.get_transform() != ax.transData and getattr(p, "get_height", lambda: None)() in (None, 1, 1.0) and p not in [q for k in ax.containers for q in getattr(k, "patches", [])] else self.rects).append((v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max(), to_rgba(p.get_facecolor())))
        self.ticks = list(zip(ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]))
        leg = ax.get_legend()
        self.legend = [t.get_text() for t in leg.get_texts()] if leg else []
        self.labels = (ax.get_title(), ax.get_xlabel(), ax.get_ylabel())
        self.texts = [t.get_text() for t in ax.texts]


def near(a, b, tol=1e-9):
    return isnan(a) and isnan(b) or a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def matched(got, want, what):
    """two collections of number tuples agree up to order"""
    check(len(got) == len(want), f"{what}: {len(got)} drawn, {len(want)} expected; {got[:6]} / {want[:6]}")
    k = lambda r: tuple(1e300 if isnan(v) else float(v) for v in r)
    for a, b in zip(sorted(got, key=k), sorted(want, key=k)):
        check(all(near(x, y, 1e-7) for x, y in zip(a, b)), f"{what}: {a} drawn, {b} expected")


def rgb(c):
    return tuple(to_rgba(c)[:3])


def draw_event(c, given, want, kw, own):
    """want: ordered [(period, effect, se)], reference info in kw/given"""
    return Ax(lambda ax: V.plot_event_study(ax=ax, show=False, **given, **kw), own)


def judge_event(a, rows, ref, norm, pre, kw, what):
    """rows: [(period, effect, se)] in drawing order; ref: marked period or None; norm: explicit reference"""
    eff = dict((p, e) for p, e, _ in rows)
    base = 0.0
    if norm and ref in eff and np.isfinite(eff[ref]):
        base, fixed = eff[ref], ref
    else:
        fixed = None
    z = sps.norm.isf(kw.get("alpha", 0.05) / 2)
    shown = [(p, e - base, s) for p, e, s in rows if not math.isnan(e)]
    at = {p: i for i, (p, _, _) in enumerate(shown)}
    check([t for _, t in a.ticks] == [str(p) for p, _, _ in shown] and [x for x, _ in a.ticks] == list(range(len(shown))), f"{what}: ticks {a.ticks} for periods {[p for p, _, _ in shown]}")
    matched([(x, y) for x, y, *_ in a.points], [(at[p], e) for p, e, _ in shown], f"{what} estimates")
    hollow = [x for x, _, _, w in a.points if w]
    check(hollow == ([at[ref]] if ref in at else []), f"{what}: hollow markers at {hollow}, reference {ref!r} at {at.get(ref)}")
    matched([b[:3] for b in a.bars], [(at[p], e - z * s, e + z * s) for p, e, s in shown if np.isfinite(s) and not (fixed is not None and p == fixed)], f"{what} intervals")
    check([h[0] for h in a.h] == ([0] if kw.get("show_zero_line", True) else []), f"{what}: horizontal lines {a.h}")
    check([v[0] for v in a.v] == ([at[ref]] if kw.get("show_reference_line", True) and ref in at else []), f"{what}: vertical lines {a.v} for reference {ref!r}")
    px = [at[p] for p in pre or [] if p in at]
    if kw.get("shade_pre", True) and px:
        check(len(a.spans) == 1 and near(a.spans[0][0], min(px) - 0.5) and near(a.spans[0][1], max(px) + 0.5), f"{what}: shaded {a.spans}, pre-treatment positions {px}")
    else:
        check(not a.spans, f"{what}: shading {a.spans} without pre-treatment periods")


switch = dict(show_zero_line=st.booleans(), show_reference_line=st.booleans(), shade_pre=st.booleans())
inputs = st.fixed_dictionaries(dict(switch, form=st.sampled_from(["dict", "frame"]), lab=st.sampled_from(["rel", "year", "str", "float", "gap"]), rows=st.lists(st.tuples(nval, npos), min_size=1, max_size=7), seed=seeds, ref=st.sampled_from(["none", "none", "in", "in", "out"]), refi=st.integers(0, 6), sub=st.sampled_from(["none", "some", "extra"]),
                                    pre=st.sampled_from(["none", "given", "given", "absent"]), alpha=alphas, own=st.booleans(), missing=st.booleans()))


@facet(P, "inputs", inputs, 220, rule="plot_event_study of a table or of dictionaries: one marker per period with an estimate (in the given or sorted order, labelled), normal intervals at the level asked for exactly where the SE is finite, normalisation and hollow marker of an explicit reference, shading and reference lines as switched")
def inputs_(c):
    n = len(c["rows"])
    labs = {"rel": list(range(-2, n - 2)), "year": [2000 + i for i in range(n)], "str": [f"q{i}" for i in range(n)], "float": [i / 2 - 1 for i in range(n)], "gap": [-5, -4, -1, 2, 3, 7, 11][:n]}[c["lab"]]
    r = rng_of(c)
    rows = [(p, e, s) for p, (e, s) in zip(labs, c["rows"])]
    if all(math.isnan(e) for _, e, _ in rows):
        a = [x for x in rows]
        raises(lambda: V.plot_event_study(effects={p: e for p, e, _ in a}, se={p: s for p, _, s in a}, show=False), (ValueError,), "nothing to plot")
        return {"empty"}
    rows = [rows[i] for i in r.permutation(n)]
    kw = {k: c[k] for k in switch}
    kw["alpha"] = c["alpha"]
    given = dict(results=pd.DataFrame(rows, columns=["period", "effect", "se"])) if c["form"] == "frame" else dict(effects={p: e for p, e, _ in rows}, se={p: s for p, _, s in rows if not (math.isnan(s) and c["missing"])})
    drawn = rows if c["form"] == "frame" else sorted(rows, key=lambda q: q[0])
    if c["sub"] != "none":
        ps = [labs[i] for i in r.permutation(n)[: max(1, n - 1)]] + ({"str": ["zz"]}.get(c["lab"], [99]) if c["sub"] == "extra" else [])
        kw["periods"] = ps
        d = {p: (p, e, s) for p, e, s in rows}
        drawn = [d[p] for p in ps if p in d]
        if all(math.isnan(e) for _, e, _ in drawn):
            return None
    ref = None
    if c["ref"] == "in":
        ref = labs[c["refi"] % n]
    elif c["ref"] == "out":
        ref = "zz" if c["lab"] == "str" else 88
    if ref is not None:
        kw["reference_period"] = ref
    pre = None
    if c["pre"] != "none":
        pre = labs[: max(1, n // 2)] if c["pre"] == "given" else ["nowhere"]
        kw["pre_periods"] = pre
    # the reference may lie outside the periods drawn and still normalise them
    a = Ax(lambda ax: V.plot_event_study(ax=ax, show=False, **given, **kw), c["own"])
    eff = {p: e for p, e, _ in rows}
    rows2 = drawn
    if ref in eff and ref not in [p for p, _, _ in drawn] and np.isfinite(eff[ref]):
        rows2 = [(p, e - eff[ref], s) for p, e, s in drawn]
    judge_event(a, rows2, ref, True, pre, kw, "event study")
    return {c["form"], c["lab"], f"ref-{c['ref']}", f"sub-{c['sub']}", "nan-se" if any(not np.isfinite(s) for _, _, s in rows) else "se"}


# ------------------------------------------------------------------ estimators' results
def cs_results(rows, al, ref, shape):
    q = {p: dict(effect=e, se=s, t_stat=0.0, p_value=0.5, conf_int=(0.0, 1.0), n_groups=0 if p == ref else 2) for p, e, s in rows}
    if shape == "sa":
        return SA.SunAbrahamResults(q, 1.0, 1.0, 1.0, 0.5, (0.0, 1.0), {}, [2004], [1, 2, 3], 10, 5, 5, alpha=al)
    return SR.CallawaySantAnnaResults({(2004, p + 2004): q[p] for p in q}, 1.0, 1.0, 1.0, 0.5, (0.0, 1.0), [2004], [1, 2, 3], 10, 5, 5, alpha=al, event_study_effects=q)


def mp_results(rows, cut, al=0.05, pre=None):
    return R.MultiPeriodDiDResults({p: R.PeriodEffect(p, e, s, 0.0, 0.5, (0.0, 1.0)) for p, e, s in rows}, 1.0, 1.0, 1.0, 0.5, (0.0, 1.0), 10, 5, 5, pre_periods=pre if pre is not None else [1990 + i for i in range(cut)], post_periods=[p for p, _, _ in rows], alpha=al)


@facet(P, "results", st.fixed_dictionaries(dict(switch, cls=st.sampled_from(["cs", "sa", "mp", "cs"]), rows=st.lists(st.tuples(nval, npos), min_size=2, max_size=7), mark=st.sampled_from(["none", "m1", "m2"]), ref=st.sampled_from(["auto", "auto", "explicit"]), refi=st.integers(0, 6), sub=st.booleans(), alpha=alphas, seed=seeds, own=st.booleans())), 160,
       rule="plot_event_study of multi-period, Callaway-Sant'Anna and Sun-Abraham results with arbitrary contents: every event time in order; an inferred reference (the normalised period, else -1) only gets a hollow marker, effects and intervals unchanged; an explicit one normalises; periods before 0 shaded")
def results_(c):
    n = len(c["rows"])
    r = rng_of(c)
    kw = {k: c[k] for k in switch}
    kw["alpha"] = c["alpha"]
    if c["cls"] == "mp":
        rows = [(2000 + i, e, s) for i, (e, s) in enumerate(c["rows"])]
        res = mp_results(rows, 2)
        ref, norm, pre = None, False, res.pre_periods
    else:
        rows = [(i - 3, e, s) for i, (e, s) in enumerate(c["rows"])]
        mark = {"none": None, "m1": -1, "m2": -2}[c["mark"]]
        res = cs_results([rows[i] for i in r.permutation(n)], 0.05, mark, c["cls"])
        ps = [p for p, _, _ in rows]
        ref, norm = (mark if mark in ps else -1), False
        pre = [p for p in ps if p < 0]
    if c["ref"] == "explicit":
        ref, norm = rows[c["refi"] % n][0], True
        kw["reference_period"] = ref
    if c["sub"]:
        kw["periods"] = [rows[i][0] for i in r.permutation(n)[: max(1, n - 1)]]
        d = {q[0]: q for q in rows}
        eff = d.get(ref, (0, float("nan"), 0))[1]
        drawn = [d[p] for p in kw["periods"]]
        if norm and ref not in kw["periods"] and np.isfinite(eff):
            drawn = [(p, e - eff, s) for p, e, s in drawn]
        if c["cls"] != "mp":
            pre = [p for p in kw["periods"] if p < 0]
        rows = drawn
    if all(math.isnan(e) for _, e, _ in rows):
        raises(lambda: V.plot_event_study(res, show=False, **kw), (ValueError,), "nothing to plot")
        return {"empty"}
    a = Ax(lambda ax: V.plot_event_study(res, ax=ax, show=False, **kw), c["own"])
    judge_event(a, rows, ref, norm, pre, kw, c["cls"])
    return {c["cls"], c["ref"], c["mark"]}


@facet(P, "fitted", st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from([k for k in zoo.KINDS if k.startswith(("cs", "sa", "mp", "multi")) and k != "sa_boot"] or ["cs"]))), 100, rule="plot_event_study and plot_group_effects of fitted results: markers and intervals are those of the result tables")
def fitted(c):
    s = zoo.spec(c)
    try:
        res = s.fit()
    except (ValueError, KeyError, np.linalg.LinAlgError):
        return None
    n = type(res).__name__
    tags = {n}
    if n == "MultiPeriodDiDResults":
        rows = [(p, q.effect, q.se) for p, q in res.period_effects.items() if p in res.post_periods]
        pre, ref = res.pre_periods, None
    elif getattr(res, "event_study_effects", None):
        rows = [(p, q["effect"], q["se"]) for p, q in sorted(res.event_study_effects.items())]
        pre = [p for p, _, _ in rows if p < 0]
        mk = [p for p, q in res.event_study_effects.items() if q.get("n_groups", 1) == 0]
        ref = mk[0] if mk else -1
    else:
        rows = []
    if any(not math.isnan(e) for _, e, _ in rows):
        judge_event(Ax(lambda ax: V.plot_event_study(res, ax=ax, show=False, alpha=0.1)), rows, ref, False, pre, dict(alpha=0.1), n)
        tags.add("event")
    if hasattr(res, "group_time_effects"):
        judge_groups(Ax(lambda ax: V.plot_group_effects(res, ax=ax, show=False)), res, None, 0.05)
        tags.add("groups")
    return tags


def judge_groups(a, res, groups, alpha):
    z = sps.norm.isf(alpha / 2)
    gs = sorted({g for g, _ in res.group_time_effects}) if groups is None else groups
    cells = [(t, q["effect"], q["se"]) for g in gs for (h, t), q in res.group_time_effects.items() if h == g]
    matched([(x, y) for x, y, *_ in a.points], [(t, e) for t, e, _ in cells], "group-time estimates")
    matched([b[:3] for b in a.bars], [(t, e - z * s, e + z * s) for t, e, s in cells if np.isfinite(s) and np.isfinite(e)], "group-time intervals")
    check(a.legend == [f"Cohort {g}" for g in gs if any(h == g for h, _ in res.group_time_effects)], f"legend {a.legend} for cohorts {gs}")
    # one connected curve per cohort, through its own cells in time order
    want = [sorted((t, q["effect"]) for (h, t), q in res.group_time_effects.items() if h == g) for g in gs]
    want = [w for w in want if len(w) > 1]
    got = [list(zip(x, y)) for x, y, *_ in a.curves]
    check(len(got) == len(want) and all(len(u) == len(w) and all(near(i, k) for u2, w2 in zip(u, w) for i, k in zip(u2, w2)) for u, w in zip(got, want)), f"cohort curves {got} for {want}")
    check([h[0] for h in a.h] == [0], "zero line")


@facet(P, "groups", st.fixed_dictionaries(dict(cells=st.lists(st.tuples(st.sampled_from([2003, 2004, 2007]), st.integers(2000, 2008), val, st.one_of(pos, st.just(float("nan")))), min_size=1, max_size=12, unique_by=lambda q: (q[0], q[1])), sub=st.booleans(), alpha=alphas, own=st.booleans(), seed=seeds)), 120,
       rule="plot_group_effects: each cohort's cells at their calendar times with normal intervals at the level asked for, cohorts in order or as selected")
def groups(c):
    items = [((g, t), (e, v)) for g, t, e, v in c["cells"]]
    res = cs_results([(0, 1.0, 1.0)], 0.05, None, "cs")
    res.group_time_effects = {items[i][0]: dict(effect=items[i][1][0], se=items[i][1][1], t_stat=0.0, p_value=0.5, conf_int=(0.0, 1.0)) for i in rng_of(c).permutation(len(items))}
    gs = sorted({g for (g, _), _ in items})
    sel = gs[::-1][:2] if c["sub"] else None
    a = Ax(lambda ax: V.plot_group_effects(res, ax=ax, show=False, alpha=c["alpha"], **({"groups": sel} if sel else {})), c["own"])
    judge_groups(a, res, sel, c["alpha"])
    return {f"groups{len(gs)}", f"sub{c['sub']}"}


# ------------------------------------------------------------------ honest DiD
@facet(P, "sensitivity", st.fixed_dictionaries(dict(n=st.integers(1, 8), mix=st.booleans(), step=st.floats(0.05, 2), vals=st.lists(st.tuples(val, pos, pos, pos), min_size=8, max_size=8), est=val, bm=st.one_of(st.none(), st.floats(0, 5), st.just(0.0)), show=st.tuples(st.booleans(), st.booleans(), st.booleans()), via=st.sampled_from(["function", "method"]), own=st.booleans())), 150,
       rule="sensitivity plots (function and method): the band and the interval lines run through the bounds and intervals of every M, the estimate and breakdown lines are where they should be, parts switched off are absent")
def sensitivity(c):
    M = np.arange(c["n"]) * c["step"]
    if c["mix"]:
        M = np.random.default_rng(c["n"]).permutation(M)
    B = [(m - a, m + b) for m, a, b, _ in c["vals"][: c["n"]]]
    C = [(lo - w, hi + w) for (lo, hi), (_, _, _, w) in zip(B, c["vals"])]
    res = HD.SensitivityResults(M_values=M, bounds=B, robust_cis=C, breakdown_M=c["bm"], method="relative_magnitude", original_estimate=c["est"], original_se=1.0)
    sb, sc, sl = c["show"]
    kw = dict(show_bounds=sb, show_ci=sc, breakdown_line=sl)
    a = Ax((lambda ax: res.plot(ax=ax, **kw)) if c["via"] == "method" else (lambda ax: V.plot_sensitivity(res, ax=ax, show=False, **kw)), c["own"])
    matched([(h[0],) for h in a.h], [(c["est"],), (0.0,)], "horizontal lines")
    check(len([h for h in a.h if h[3] == "Original estimate" and near(h[0], c["est"])]) == 1, f"estimate line {a.h}")
    bl = sl and c["bm"] is not None
    matched([(v[0],) for v in a.v], [(c["bm"],)] if bl else [], "breakdown line")
    if bl:
        check(a.v[0][3] == f"Breakdown (M={c['bm']:.2f})", f"breakdown label {a.v[0][3]} for {c['bm']}")
    got = [list(zip(x, y)) for x, y, *_ in a.curves]
    want = [[(m, q[k]) for m, q in zip(M, C)] for k in (0, 1)] if sc else []
    check(len(got) == len(want), f"{len(got)} interval lines")
    for w in want:
        check(any(len(g) == len(w) and all(near(i, k) for u, v in zip(sorted(g), sorted(w)) for i, k in zip(u, v)) for g in got), f"no line through {w}: {got}")
    check(len(a.fills) == int(sb), f"{len(a.fills)} bands")
    if sb:
        for m, (lo, hi) in zip(M, B):
            ys = a.fills[0][np.abs(a.fills[0][:, 0] - m) < 1e-9, 1]
            check(len(ys) and near(ys.min(), lo) and near(ys.max(), hi), f"band at M={m}: {ys} for [{lo}, {hi}]")
    return {c["via"], f"n{c['n']}", f"show{c['show']}"}


@facet(P, "honest", st.fixed_dictionaries(dict(cls=st.sampled_from(["cs", "mp"]), rows=st.lists(st.tuples(val, st.one_of(pos, st.just(float("nan")))), min_size=1, max_size=6), mid=val, half=st.one_of(pos, st.just(float("inf"))), per=st.booleans(), bounds=st.lists(st.tuples(val, pos), min_size=6, max_size=6), M=st.floats(0, 5), alpha=alphas, ref=st.one_of(st.none(), st.integers(0, 5)), sub=st.booleans(), own=st.booleans())), 150,
       rule="plot_honest_event_study: estimates with standard intervals at the result's own level, and the robust interval (per period if known, else the scalar one), whether or not it contains the estimate")
def honest(c):
    rows = [((2000 if c["cls"] == "mp" else -2) + i, e, s) for i, (e, s) in enumerate(c["rows"])]
    orig = mp_results(rows, 1, pre=[1999]) if c["cls"] == "mp" else cs_results(rows[::-1], 0.05, None, "cs")
    lo, hi = c["mid"] - c["half"], c["mid"] + c["half"]
    per = {p: dict(ci_lb=m - w, ci_ub=m + w, lb=m, ub=m) for (p, _, _), (m, w) in zip(rows, c["bounds"])} if c["per"] else None
    res = HD.HonestDiDResults(lb=lo, ub=hi, ci_lb=lo, ci_ub=hi, M=c["M"], method="smoothness", original_estimate=1.0, original_se=1.0, alpha=c["alpha"], ci_method="FLCI", original_results=orig, event_study_bounds=per)
    kw = {}
    drawn = rows
    if c["sub"]:
        drawn = rows[::-1][: max(1, len(rows) - 1)]
        kw["periods"] = [p for p, _, _ in drawn]
    ref = None if c["ref"] is None else rows[c["ref"] % len(rows)][0]
    if ref is not None:
        kw["reference_period"] = ref
    a = Ax(lambda ax: V.plot_honest_event_study(res, ax=ax, show=False, **kw), c["own"])
    z = sps.norm.isf(c["alpha"] / 2)
    at = {p: i for i, (p, _, _) in enumerate(drawn)}
    check([t for _, t in a.ticks] == [str(p) for p, _, _ in drawn], f"ticks {a.ticks}")
    matched([(x, y) for x, y, *_ in a.points], [(at[p], e) for p, e, _ in drawn], "estimates")
    hollow = [x for x, _, _, w in a.points if w]
    check(hollow == ([at[ref]] if ref in at else []), f"hollow {hollow}")
    std, rob = rgb("#6b7280"), rgb("#2563eb")
    matched([b[:3] for b in a.bars if rgb(b[3]) == std], [(at[p], e - z * s, e + z * s) for p, e, s in drawn if np.isfinite(s)], "standard intervals")
    want = []
    for p, _, _ in drawn:
        l, h = (per[p]["ci_lb"], per[p]["ci_ub"]) if per else (lo, hi)
        if np.isfinite([l, h]).all():
            want.append((at[p], l, h))
    matched([b[:3] for b in a.bars if rgb(b[3]) == rob], want, "robust intervals")
    check(f"Honest CI (M={c['M']:.2f})" in a.legend, f"legend {a.legend}")
    return {c["cls"], "per" if per else "scalar", "outside" if any(not lo <= e <= hi for _, e, _ in drawn) else "inside", "infinite" if math.isinf(c["half"]) else "finite"}


# ------------------------------------------------------------------ Goodman-Bacon
KIND = ["treated_vs_never", "earlier_vs_later", "later_vs_earlier"]


@facet(P, "bacon", st.fixed_dictionaries(dict(comps=st.lists(st.tuples(st.sampled_from(KIND), val, st.floats(0, 1)), min_size=1, max_size=9), twfe=val, plot=st.sampled_from(["scatter", "bar"]), show=st.tuples(st.booleans(), st.booleans()), colors=st.booleans(), own=st.booleans())), 150,
       rule="Goodman-Bacon plots: every 2x2 comparison at (estimate, weight) in its type's colour, the averages and the TWFE line where they belong; bars as high as the weights of the types, labelled with weight and average")
def bacon(c):
    W = {k: sum(w for t, _, w in c["comps"] if t == k) for k in KIND}
    tot = sum(W.values())
    assume(tot > 0)
    comps = [BA.Comparison2x2(2000, 2001, t, e, w / tot, 3, 4, (1.0, 5.0)) for t, e, w in c["comps"]]
    W = {k: w / tot for k, w in W.items()}
    A = {k: (sum(q.weight * q.estimate for q in comps if q.comparison_type == k) / W[k] if W[k] > 0 else None) for k in KIND}
    res = BA.BaconDecompositionResults(c["twfe"], comps, *[W[k] for k in KIND], *[A[k] for k in KIND], 3, 4, [2000], n_obs=10, decomposition_error=0.0)
    col = {"treated_vs_never": "#010203", "earlier_vs_later": "#a0b0c0", "later_vs_earlier": "#ff00ff"} if c["colors"] else {"treated_vs_never": "#22c55e", "earlier_vs_later": "#3b82f6", "later_vs_earlier": "#ef4444"}
    kw = dict(plot_type=c["plot"], show_weighted_avg=c["show"][0], show_twfe_line=c["show"][1], **({"colors": col} if c["colors"] else {}))
    a = Ax(lambda ax: V.plot_bacon(res, ax=ax, show=False, **kw), c["own"])
    if c["plot"] == "scatter":
        for k in KIND:
            matched([(x, y) for x, y, f in a.scatter if rgb(f) == rgb(col[k])], [(q.estimate, q.weight) for q in comps if q.comparison_type == k], f"{k} comparisons")
            avg = [(v[0],) for v in a.v if rgb(v[1]) == rgb(col[k])]
            matched(avg, [(A[k],)] if c["show"][0] and A[k] is not None else [], f"{k} average")
        tw = [v for v in a.v if v[3].startswith("TWFE")]
        check(len(tw) == int(c["show"][1]), f"TWFE lines {tw}")
        if tw:
            check(near(tw[0][0], c["twfe"]) and tw[0][3] == f"TWFE = {c['twfe']:.4f}", f"TWFE line {tw[0]} for {c['twfe']}")
        names = {"treated_vs_never": "Treated vs Never-treated", "earlier_vs_later": "Earlier vs Later treated", "later_vs_earlier": "Later vs Earlier (forbidden)"}
        check([t for t in a.legend if not t.startswith("TWFE")] == [names[k] for k in KIND if any(q.comparison_type == k for q in comps)], f"legend {a.legend}")
    else:
        check(len(a.rects) == 3, f"{len(a.rects)} bars")
        for k, rct in zip(KIND, sorted(a.rects)):
            check(near(rct[3] - rct[2], W[k]) and rgb(rct[4]) == rgb(col[k]), f"{k} bar {rct} for weight {W[k]}")
        matched_texts(a.texts, [f"{W[k]:.1%}" for k in KIND if W[k] > 0.01] + [f"β = {A[k]:.3f}" for k in KIND if W[k] > 0.01 and A[k] is not None] + [f"TWFE = {c['twfe']:.4f}"])
    raises(lambda: V.plot_bacon(res, plot_type="pie", show=False), (ValueError,), "unknown plot type")
    plt.close("all")
    return {c["plot"], *[k for k in KIND if A[k] is not None]}


def matched_texts(got, want):
    check(sorted(got) == sorted(want), f"annotations {got}, expected {want}")


# ------------------------------------------------------------------ power curves
curve = st.fixed_dictionaries(dict(src=st.sampled_from(["list", "array", "effect-frame", "sample-frame", "sim", "analysis"]), xs=st.lists(st.integers(-20, 60).map(lambda k: k / 4), min_size=1, max_size=7, unique=True), seed=seeds, mde=st.sampled_from(["none", "on", "between", "outside"]), u=st.floats(0, 1), target=st.one_of(st.none(), st.floats(0.05, 0.99)), show=st.tuples(st.booleans(), st.booleans()), sort=st.booleans(), own=st.booleans()))


def judge_curve(a, x, y, mark, target, show_mark, show_target, name):
    check(len(a.curves) == 1 and len(a.curves[0][0]) == len(x) and all(near(i, j) for i, j in zip(a.curves[0][0], x)) and all(near(i, j) for i, j in zip(a.curves[0][1], y)), f"curve {a.curves} for {list(x)}, {list(y)}")
    matched([(h[0],) for h in a.h], [(target,)] if show_target else [], "target line")
    if show_target:
        check(a.h[0][3] == f"Target power ({target:.0%})", f"target label {a.h[0][3]} for {target}")
    on = show_mark and mark is not None and np.isfinite(mark)
    matched([(v[0],) for v in a.v], [(mark,)] if on else [], f"{name} line")
    if on:
        check(a.v[0][3] == f"{name} = {mark:.3f}", f"{name} label {a.v[0][3]} for {mark}")
    o = np.argsort(x, kind="stable")
    inside = on and min(x) <= mark <= max(x)
    matched([q[:2] for q in a.scatter], [(mark, np.interp(mark, np.asarray(x, float)[o], np.asarray(y, float)[o]))] if inside else [], f"{name} marker")


@facet(P, "power", curve, 170, rule="plot_power_curve from lists, arrays, tables, simulation results and PowerAnalysis curves: the curve passes through the given points, the MDE marker lies on it (also for unsorted grids), target and MDE lines where asked for")
def power(c):
    r = rng_of(c)
    x = sorted(c["xs"]) if c["sort"] else [c["xs"][i] for i in r.permutation(len(c["xs"]))]
    y = list(np.round(r.random(len(x)), 3))
    lo, hi = min(x), max(x)
    mde = {"none": None, "on": x[0], "between": lo + c["u"] * (hi - lo), "outside": hi + 1.0}[c["mde"]]
    target = 0.8 if c["target"] is None else c["target"]
    kw = dict(show_mde_line=c["show"][0], show_target_line=c["show"][1])
    if c["target"] is not None:
        kw["target_power"] = c["target"]
    if mde is not None:
        kw["mde"] = mde
    src = c["src"]
    title = ("Power Curve", "Effect Size")
    if src == "list":
        given = dict(effect_sizes=x, powers=y)
    elif src == "array":
        given = dict(effect_sizes=np.array(x), powers=np.array(y))
    elif src == "effect-frame":
        given = dict(results=pd.DataFrame(dict(power=y, effect_size=x), index=r.permutation(len(x))))
    elif src == "sample-frame":
        given = dict(results=pd.DataFrame(dict(sample_size=x, power=y)))
        title = ("Power vs Sample Size", "Sample Size")
    elif src == "sim":
        true = x[-1] if c["sort"] else lo + 0.3 * (hi - lo)
        given = dict(results=PW.SimulationPowerResults(power=0.5, power_se=0.01, power_ci=(0.4, 0.6), rejection_rate=0.5, mean_estimate=true, std_estimate=1.0, mean_se=1.0, coverage=0.9, n_simulations=10, effect_sizes=x, powers=y, true_effect=true, alpha=0.05, estimator_name="e"))
        if mde is None:
            mde = true
    else:
        pa = PW.PowerAnalysis(alpha=0.05)
        f = pa.power_curve(n_treated=20, n_control=30, sigma=2.0, effect_sizes=x)
        x, y = list(f["effect_size"]), list(f["power"])
        given = dict(results=f)
    a = Ax(lambda ax: V.plot_power_curve(ax=ax, show=False, **given, **kw), c["own"])
    judge_curve(a, x, y, mde, target, *c["show"], "MDE")
    check(a.labels[:2] == title, f"labels {a.labels}")
    return {src, c["mde"], "sorted" if c["sort"] else "shuffled"}


@facet(P, "pretrends", curve, 150, rule="plot_pretrends_power and PreTrendsPowerCurve.plot: curve, minimum detectable violation and the curve's own target power; explicit arguments win")
def pretrends(c):
    r = rng_of(c)
    x = [abs(v) for v in (sorted(c["xs"]) if c["sort"] else c["xs"])]
    x = list(dict.fromkeys(x))
    y = list(np.round(r.random(len(x)), 3))
    lo, hi = min(x), max(x)
    mdv = {"none": None, "on": x[0], "between": lo + c["u"] * (hi - lo), "outside": hi + 1.0}[c["mde"]]
    target = 0.8 if c["target"] is None else c["target"]
    kw = dict(show_mdv_line=c["show"][0], show_target_line=c["show"][1])
    src = c["src"]
    if src in ("list", "array", "effect-frame", "sample-frame"):
        given = {"list": dict(M_values=x, powers=y), "array": dict(M_values=np.array(x), powers=np.array(y))}.get(src, dict(results=pd.DataFrame(dict(M=x, power=y))))
        if mdv is not None:
            kw["mdv"] = mdv
        if c["target"] is not None:
            kw["target_power"] = c["target"]
        a = Ax(lambda ax: V.plot_pretrends_power(ax=ax, show=False, **given, **kw), c["own"])
    else:
        own = float("inf") if mdv is None else mdv
        q = PT.PreTrendsPowerCurve(M_values=np.array(x), powers=np.array(y), mdv=own, alpha=0.05, target_power=target, violation_type="linear")
        if src == "sim":
            a = Ax(lambda ax: q.plot(ax=ax, show_mdv=c["show"][0], show_target=c["show"][1]), c["own"])
            a.scatter = a.scatter or ([(mdv, np.interp(mdv, *zip(*sorted(zip(x, y)))))] if mdv is not None and c["show"][0] and lo <= mdv <= hi else [])  # this method marks no point
            mdv = own
        else:
            if c["u"] > 0.5:
                kw["target_power"] = target = 0.6
            if c["u"] > 0.8:
                kw["mdv"] = own = lo
            a = Ax(lambda ax: V.plot_pretrends_power(q, ax=ax, show=False, **kw), c["own"])
            mdv = own
    judge_curve(a, x, y, mdv, target, *c["show"], "MDV")
    return {src, c["mde"], "sorted" if c["sort"] else "shuffled"}


# ------------------------------------------------------------------ words and sizes
def drawable():
    """one drawable call per public plotting function"""
    f = pd.DataFrame(dict(period=[-1, 0, 1], effect=[0.0, 1.0, 2.0], se=[0.5, 0.5, 0.5]))
    cs = cs_results([(-1, 0.0, 0.4), (0, 1.0, 0.5)], 0.05, None, "cs")
    sens = HD.SensitivityResults(M_values=np.array([0.0, 1.0]), bounds=[(1.0, 1.0), (0.5, 1.5)], robust_cis=[(0.5, 1.5), (0.0, 2.0)], breakdown_M=0.7, method="relative_magnitude", original_estimate=1.0, original_se=0.3)
    hon = HD.HonestDiDResults(lb=0.0, ub=1.0, ci_lb=-1.0, ci_ub=2.0, M=1.0, method="smoothness", original_estimate=1.0, original_se=1.0, alpha=0.05, ci_method="FLCI", original_results=cs)
    bac = BA.BaconDecompositionResults(0.5, [BA.Comparison2x2(2000, 2001, "treated_vs_never", 1.0, 1.0, 3, 4, (1.0, 5.0))], 1.0, 0.0, 0.0, 1.0, None, None, 1, 4, [2000], n_obs=10, decomposition_error=0.5)
    return dict(event=(V.plot_event_study, (f,), {}), group=(V.plot_group_effects, (cs,), {}), sens=(V.plot_sensitivity, (sens,), {}), honest=(V.plot_honest_event_study, (hon,), {}), bacon=(V.plot_bacon, (bac,), {}), bacon_bar=(V.plot_bacon, (bac,), dict(plot_type="bar")),
                power=(V.plot_power_curve, (), dict(effect_sizes=[0.0, 1.0], powers=[0.1, 0.9])), pretrends=(V.plot_pretrends_power, (), dict(M_values=[0.0, 1.0], powers=[0.1, 0.9])))


@facet(P, "words", st.fixed_dictionaries(dict(f=st.sampled_from(["event", "group", "sens", "honest", "bacon", "bacon_bar", "power", "pretrends"]), title=st.one_of(st.none(), st.sampled_from(["A title", "Minimum wage"])), xlabel=st.one_of(st.none(), st.sampled_from(["x words", "Year"])), ylabel=st.one_of(st.none(), st.sampled_from(["y words", "Jobs"])), size=st.sampled_from([None, (4, 3), (7.5, 5)]), own=st.booleans())), 150,
       rule="every plotting function shows the title and axis labels given (or its documented ones), draws on the axes given and returns them, and makes a figure of the size asked for otherwise")
def words(c):
    import inspect
    fn, args, kw = drawable()[c["f"]]
    sig = inspect.signature(fn).parameters
    want = {}
    for k in ("title", "xlabel", "ylabel"):
        if c[k] is not None:
            kw[k] = c[k]
        want[k] = c[k] if c[k] is not None else sig[k].default
    if c["f"] == "bacon_bar":
        want["xlabel"] = None  # named by its categories
    size = c["size"] or sig["figsize"].default
    if c["size"]:
        kw["figsize"] = c["size"]
    plt.close("all")
    try:
        ax = plt.figure().add_subplot() if c["own"] else None
        got = fn(*args, ax=ax, show=False, **kw)
        check(ax is None or got is ax, "the axes given are returned")
        for k, v in want.items():
            if v is not None:
                check(getattr(got, "get_" + k)() == v, f"{c['f']}: {k} {getattr(got, 'get_' + k)()!r}, asked for {v!r}")
        if ax is None:
            eq_arr(got.figure.get_size_inches(), size, f"{c['f']}: figure size")
            check(len(plt.get_fignums()) == 1, "more than one figure")
    finally:
        plt.close("all")
    return {c["f"], *[k for k in ("title", "xlabel", "ylabel") if c[k]], f"own{c['own']}"}


# ------------------------------------------------------------------ refusals
class Junk:
    pass


@facet(P, "refused", st.fixed_dictionaries(dict(what=st.sampled_from(["nothing", "effects-only", "se-only", "not-dict", "se-not-dict", "junk", "no-period", "no-effect", "no-se", "no-es", "groups-junk", "power-junk", "power-frame", "power-result", "power-nothing", "pre-junk", "pre-frame", "pre-nothing", "honest-none"]), own=st.just(True))), 120,
       rule="input that is no result, table or complete pair of dictionaries is refused with TypeError/ValueError")
def refused(c):
    w = c["what"]
    f = pd.DataFrame(dict(period=[1, 2], effect=[0.1, 0.2], se=[1.0, 1.0]))
    es = lambda *a, **k: (lambda: V.plot_event_study(*a, show=False, **k))
    call = {"nothing": es(), "effects-only": es(effects={1: 1.0}), "se-only": es(se={1: 1.0}), "not-dict": es(effects=[1.0], se={0: 1.0}), "se-not-dict": es(effects={1: 1.0}, se=[1.0]), "junk": es(Junk()), "no-period": es(f.drop(columns="period")), "no-effect": es(f.drop(columns="effect")), "no-se": es(f.drop(columns="se")),
            "no-es": es(SR.CallawaySantAnnaResults({}, 1.0, 1.0, 1.0, 0.5, (0.0, 1.0), [1], [1], 1, 1, 1)), "groups-junk": lambda: V.plot_group_effects(Junk(), show=False), "power-junk": lambda: V.plot_power_curve(Junk(), show=False), "power-frame": lambda: V.plot_power_curve(f, show=False), "power-nothing": lambda: V.plot_power_curve(show=False, powers=[0.1]),
            "power-result": lambda: V.plot_power_curve(PW.PowerAnalysis().mde(n_treated=10, n_control=10, sigma=1.0), show=False), "pre-junk": lambda: V.plot_pretrends_power(Junk(), show=False), "pre-frame": lambda: V.plot_pretrends_power(f, show=False), "pre-nothing": lambda: V.plot_pretrends_power(M_values=[1.0], show=False),
            "honest-none": lambda: V.plot_honest_event_study(HD.HonestDiDResults(lb=0, ub=1, ci_lb=0, ci_ub=1, M=1.0, method="smoothness", original_estimate=1.0, original_se=1.0, alpha=0.05, ci_method="FLCI"), show=False)}[w]
    plt.close("all")
    try:
        raises(call, (ValueError, TypeError), w)
    finally:
        plt.close("all")
    return {w}
