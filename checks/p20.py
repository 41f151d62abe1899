"""P20 - parallel-trends and equivalence tests."""
import itertools
import math
import numpy as np
import pandas as pd
from scipy import stats
from harness.core import *
from harness import gen
from diff_diff import check_parallel_trends, check_parallel_trends_robust, equivalence_test_trends

P = "P20"
base = dict(T=mostly(2, 8, 14), nt=mostly(1, 5, 20), nc=mostly(1, 6, 25), t0=st.sampled_from([0, 1, 2001, -3]), gap=st.sampled_from([False, True, "quarter"]), drop=st.sampled_from([0.0, 0.0, 0.2]), noise=gen.noise, diff=st.sampled_from([0.0, 0.0, 0.5, 3.0]),
            pre=st.sampled_from(["default", "default", "given", "holes"]), k=st.integers(0, 20), gtype=st.sampled_from(["int", "bool", "float"]), ulab=gen.ulab, pres=gen.presentation, void=st.sampled_from([None, None, None, 0, 1]), unit=st.booleans(), flat=st.sampled_from([None] * 6 + [0, 1]), seed=seeds)
case = st.fixed_dictionaries(base)


def build(c):
    r = rng_of(c)
    per = [c["t0"] + (k / 4 if c["gap"] == "quarter" else 2 * k if c["gap"] and k > 1 else k) for k in range(c["T"])]
    N = c["nt"] + c["nc"]
    u = gen.unit_labels(c["ulab"], N, r)
    D = r.permutation([1] * c["nt"] + [0] * c["nc"])
    rows = [(u[i], p, D[i], r.normal() + 0.4 * k + c["diff"] * k * D[i]) for i in range(N) for k, p in enumerate(per)]
    df = pd.DataFrame(rows, columns=["u", "t", "g", "y"])
    df["y"] += gen.shock(c["noise"], r, len(df))
    if c["flat"] is not None:  # every change in one group is exactly the same
        df.loc[df["g"] == c["flat"], "y"] = df["t"] * 2.0
    df["g"] = df["g"].astype(c["gtype"])
    if c["drop"]:
        df = df[r.random(len(df)) >= c["drop"]].reset_index(drop=True)
    seen = sorted(df["t"].unique().tolist())
    if c["void"] is not None and c["T"] > 2:  # one group unobserved in a period
        df = df[~((df["g"] == c["void"]) & (df["t"] == per[1 + c["k"] % (c["T"] - 1)]))].reset_index(drop=True)
        seen = sorted(df["t"].unique().tolist())
    if c["pre"] == "default":
        pre, kw = seen[: len(seen) // 2], {}
    else:
        n = 1 + c["k"] % c["T"]
        pre = per[:n] if c["pre"] == "given" else [p for p in per if r.random() < 0.7]
        kw = dict(pre_periods=pre)
    return gen.present(df, c["pres"], r), pre, kw


def changes(df, pre, unit):
    d = df[df["t"].isin(pre)]
    out = {}
    for g in (1, 0):
        q = d[d["g"] == g]
        v = []
        if unit:
            for _, s in q.groupby("u"):
                y = s.sort_values("t")["y"].to_numpy()
                v += list(y[1:] - y[:-1])
        elif len(q):
            m = [q.loc[q["t"] == t, "y"].mean() for t in sorted(q["t"].unique())]
            v = [b - a for a, b in zip(m, m[1:])]
        out[g] = np.array(v, float)
    return out[1], out[0]


@facet(P, "simple", case, 700, rule="any panel, pre-period choice, group coding, missing rows: slopes and slope SEs per group equal the least-squares line, their difference is tested with the normal reference; undefined pieces give no verdict")
def simple(c):
    df, pre, kw = build(c)
    d = df[df["t"].isin(pre)]
    assume(d["g"].nunique() == 2)
    r = check_parallel_trends(df, "y", "t", "g", **kw)
    b, s, noise = {}, {}, False
    for g, name in ((1, "treated"), (0, "control")):
        q = d[d["g"] == g]
        t, y = q["t"].to_numpy(float), q["y"].to_numpy(float)
        if len(q) < 2 or np.ptp(t) == 0:
            b[g] = s[g] = np.nan
        else:
            X = np.column_stack([np.ones(len(t)), t - t.mean()])
            co = np.linalg.lstsq(X, y, rcond=None)[0]
            res = y - X @ co
            b[g] = co[1]
            s[g] = math.sqrt(res @ res / (len(t) - 2) / ((t - t.mean()) ** 2).sum()) if len(t) > 2 else np.nan
            sc = abs(y).max()
            noise |= s[g] < 1e-6 * (sc + 1)
        eq(r[f"{name}_trend"], b[g], f"{name} trend", 1e-6, 1e-7)
        if not (s[g] < 1e-9 * (1 + abs(y).max() if len(y) else 1)):
            eq(r[f"{name}_trend_se"], s[g], f"{name} trend SE", 1e-5, 1e-9)
    eq(r["trend_difference"], b[1] - b[0], "difference", 1e-6, 1e-7)
    if noise:
        return ["exact-line"]
    se = math.sqrt(s[1] ** 2 + s[0] ** 2)
    eq(r["trend_difference_se"], se, "SE of the difference", 1e-5)
    if math.isnan(se):
        check(isnan(r["t_statistic"]) and isnan(r["p_value"]) and r["parallel_trends_plausible"] is None, lambda: f"no standard error, but the verdict is {r['parallel_trends_plausible']} (t {r['t_statistic']}, p {r['p_value']})")
        return ["undefined"]
    t = (b[1] - b[0]) / se
    eq(r["t_statistic"], t, "t", 1e-4, 1e-5)
    p = 2 * stats.norm.sf(abs(t))
    eq(r["p_value"], p, "p", 1e-3, 1e-6)
    if abs(p - 0.05) > 1e-4:
        check(bool(r["parallel_trends_plausible"]) == (p > 0.05), lambda: f"verdict {r['parallel_trends_plausible']} at p={p}")
    return ["tested", c["pre"], "plausible" if p > 0.05 else "rejected"]


def w1(a, b):
    """1-Wasserstein distance from the two step functions, written out"""
    z = np.sort(np.concatenate([a, b]))
    F = np.searchsorted(np.sort(a), z[:-1], side="right") / len(a) - np.searchsorted(np.sort(b), z[:-1], side="right") / len(b)
    return float((np.abs(F) * np.diff(z)).sum())


@facet(P, "robust", st.tuples(case, st.sampled_from([0.05, 0.2, 0.2, 1.0])).map(list), 150, rule="changes recomputed per unit (or per period mean); distances written out; permutation p-value inside the 5-sigma band of the exhaustively enumerated one (or of an independent sample of permutations); "
       "verdict by the two stated thresholds; reproducible by seed")
def robust(a):
    c, thr = a
    df, pre, kw = build(c)
    if c["unit"]:
        kw["unit"] = "u"
    n = 400
    call = lambda s: check_parallel_trends_robust(df, "y", "t", "g", n_permutations=n, seed=s, wasserstein_threshold=thr, **kw)
    g0 = np.random.get_state()[1].copy()
    r = call(c["seed"])
    check((np.random.get_state()[1] == g0).all(), "global random state changed")
    x, y = changes(df, pre, c["unit"])
    sc = 1e-9 * (1 + max(np.abs(np.concatenate([x, y, [0]]))))
    eq_arr(np.sort(r["treated_changes"]), np.sort(x), "treated changes", 1e-9, sc)
    eq_arr(np.sort(r["control_changes"]), np.sort(y), "control changes", 1e-9, sc)
    if min(len(x), len(y)) < 2:
        check(r["parallel_trends_plausible"] is None and isnan(r["wasserstein_p_value"]) and isnan(r["ks_p_value"]), "verdict without data")
        return ["insufficient"]
    d = w1(x, y)
    z = np.concatenate([x, y])
    eq(r["wasserstein_distance"], d, "distance", 1e-7, sc)
    eq(r["wasserstein_normalized"], d / z.std(ddof=1), "normalised distance", 1e-6, 1e-9)
    eq(r["mean_difference"], x.mean() - y.mean(), "mean difference", 1e-7, sc)
    if y.var(ddof=1) > 1e-12:
        eq(r["variance_ratio"], x.var(ddof=1) / y.var(ddof=1), "variance ratio", 1e-5)
    check((r["n_treated"], r["n_control"]) == (len(x), len(y)), "counts")
    ks = max(abs((x <= v).mean() - (y <= v).mean()) for v in z)
    if c["noise"] != "int":
        eq(r["ks_statistic"], ks, "KS statistic", 1e-9, 1e-12)
        eq(r["ks_p_value"], stats.ks_2samp(x, y).pvalue, "KS p", 1e-6)
    m = len(x)
    if math.comb(len(z), m) <= 3000:
        sets = [list(s) for s in itertools.combinations(range(len(z)), m)]
        N, kind = len(sets), "exhaustive"
    else:
        q = rng_of(c, 5)
        sets = [list(q.permutation(len(z))[:m]) for _ in range(1500)]
        N, kind = 1500, "sampled"
    ds = np.array([w1(z[s], np.delete(z, s)) for s in sets])
    tol = 1e-9 * (1 + d)
    lo, hi = (ds > d + tol).mean(), (ds >= d - tol).mean()
    band = lambda p: 5 * math.sqrt(max(p * (1 - p), 1 / n) * (1 / n + (1 / N if kind == "sampled" else 0))) + 2 / n
    p = r["wasserstein_p_value"]
    check(lo - band(lo) <= p <= hi + band(hi), lambda: f"permutation p {p}, enumeration gives {lo}..{hi}")
    check(abs(p * n - round(p * n)) < 1e-6, "p is a share of the permutations")
    nd = d / z.std(ddof=1)
    if abs(nd - thr) > 1e-6:
        check(r["parallel_trends_plausible"] == (p > 0.05 and nd < thr), "verdict")
    r2 = call(c["seed"])
    check(r2["wasserstein_p_value"] == p, "same seed, different p")
    return [kind, "unit" if c["unit"] else "means", "plausible" if r["parallel_trends_plausible"] else "not"]


@facet(P, "equivalence", st.tuples(case, st.sampled_from([None, None, 0.1, 1.0, 5.0])).map(list), 700, rule="two one-sided Welch t-tests on the recomputed changes: difference, SE, Welch df, margin (half the pooled SD by default), both p-values and their maximum, verdict at 5%")
def equivalence(a):
    c, margin = a
    df, pre, kw = build(c)
    if c["unit"]:
        kw["unit"] = "u"
    r = equivalence_test_trends(df, "y", "t", "g", equivalence_margin=margin, **kw)
    x, y = changes(df, pre, c["unit"])
    if min(len(x), len(y)) < 2:
        check(r["equivalent"] is None and isnan(r["tost_p_value"]) and isnan(r["mean_difference"]), "verdict without data")
        return ["insufficient"]
    z = np.concatenate([x, y])
    vx, vy = x.var(ddof=1) / len(x), y.var(ddof=1) / len(y)
    sc = 1e-9 * (1 + np.abs(z).max())
    eq(r["mean_difference"], x.mean() - y.mean(), "mean difference", 1e-7, sc)
    se = math.sqrt(vx + vy)
    if vx == 0 and vy == 0:
        check(r["equivalent"] is None and isnan(r["tost_p_value"]), "verdict with zero variance")
        return ["zero-variance"]
    if any(0 < v and math.sqrt(v) < 1e-6 * (1 + np.abs(z).max()) for v in (vx, vy)):
        assume(False)
    eq(r["se_difference"], se, "SE", 1e-6)
    m = 0.5 * z.std(ddof=1) if margin is None else margin
    eq(r["equivalence_margin"], m, "margin", 1e-7)
    df_ = (vx + vy) ** 2 / (vx ** 2 / (len(x) - 1) + vy ** 2 / (len(y) - 1))
    eq(r["degrees_of_freedom"], df_, "Welch df", 1e-6)
    dm = x.mean() - y.mean()
    lo, up = stats.t.sf((dm + m) / se, df_), stats.t.cdf((dm - m) / se, df_)
    eq_arr([r["lower_t_stat"], r["upper_t_stat"]], [(dm + m) / se, (dm - m) / se], "t statistics", 1e-5, 1e-6)
    eq_arr([r["lower_p_value"], r["upper_p_value"], r["tost_p_value"]], [lo, up, max(lo, up)], "p-values", 1e-4, 1e-7)
    if abs(max(lo, up) - 0.05) > 1e-5:
        check(r["equivalent"] == (max(lo, up) < 0.05), "verdict")
    w = stats.ttest_ind(x, y, equal_var=False)
    check(abs(stats.t.sf(abs(dm / se), df_) * 2 - w.pvalue) < 1e-6, "oracle self-check")
    return ["unit" if c["unit"] else "means", "equivalent" if r["equivalent"] else "not", "default" if margin is None else "margin"]
