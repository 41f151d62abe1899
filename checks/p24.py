"""P24 - one coherent inference per reported effect, in every estimator."""
import math
import numpy as np
from scipy import stats, optimize
from harness.core import *
from harness import zoo

P = "P24"
SLOW = ("trop", "trop_jack", "sa_boot", "sdid_boot", "trop_joint")
kinds = [k for k in zoo.KINDS if k not in SLOW and not k.startswith("bacon")]
base = dict(zoo.case, kind=st.sampled_from(kinds + ["trop_joint"]), deg=st.sampled_from(["no", "no", "no", "no", "const", "exact", "drop", "tinycl", "dupcol", "onetr"]), alpha=st.sampled_from([0.05, 0.01, 0.1, 0.32, 0.5, 0.001]))
case = st.fixed_dictionaries(base)


def degrade(c, s):
    """data sets in which parts of the inference are undefined"""
    df, deg = s.df, c["deg"]
    r = rng_of(c, 5)
    if deg == "const":
        df["y"] = 3.0
    elif deg == "exact":
        df["y"] = 2.0 * df["D"]
    elif deg == "drop":
        keep = r.random(len(df)) > 0.35
        df = df[keep]
    elif deg == "tinycl":
        if "cluster" in s.ctor and s.ctor["cluster"]:
            df["cl2"] = (df["d"] if "gg" not in df else df["gg"]).astype(int)
            s.ctor["cluster"] = "cl2"
    elif deg == "dupcol":
        if "covariates" in s.fitkw:
            df["x2"] = 2 * df["x"] + 1
            s.fitkw["covariates"] = ["x", "x2"]
    elif deg == "onetr":
        tr = df.loc[df["d"] == 1, "u"].unique().tolist()
        df = df[(df["d"] == 0) | (df["u"] == tr[0])]
    s.df = df
    return s


def implied_df(h, alpha):
    """degrees of freedom whose t quantile is h (inf: normal)"""
    z = stats.norm.ppf(1 - alpha / 2)
    if h <= z * (1 + 1e-9):
        return np.inf
    f = lambda v: stats.t.ppf(1 - alpha / 2, 1 / v) - h
    lo, hi = 1e-9, 50.0
    if f(lo) > 0:
        return np.inf
    if f(hi) < 0:
        return None
    return 1 / optimize.brentq(f, lo, hi, xtol=1e-14, rtol=1e-14)


def coherent(e, alpha, exact_boot=False):
    """one reference distribution behind t, p and interval; nothing defined without a standard error"""
    w = f"{e.label}: effect {e.effect!r}, se {e.se!r}, t {e.t!r}, p {e.p!r}, ci {e.ci!r} at alpha {alpha}"
    lo, hi = map(float, e.ci)
    check(isnan(lo) == isnan(hi), f"half an interval; {w}")
    check(isnan(e.se) or e.se >= 0, f"negative standard error; {w}")
    check(isnan(e.p) or 0 <= e.p <= 1, f"p-value outside [0, 1]; {w}")
    check(isnan(lo) or lo <= hi, f"interval upside down; {w}")
    if isnan(e.effect) or isnan(e.se):
        check(isnan(e.t) and isnan(e.p) and isnan(lo), f"inference without an estimate or standard error; {w}")
        return "undefined"
    if not e.se > 0:
        # a perfect fit: either undefined or the degenerate limit, never a finite t or a proper interval
        check(isnan(e.t) or math.isinf(e.t) or e.effect == 0, f"finite t at zero standard error; {w}")
        check(isnan(lo) or (close(lo, e.effect, 1e-12, 1e-12) and close(hi, e.effect, 1e-12, 1e-12)), f"proper interval at zero standard error; {w}")
        check(isnan(e.p) or e.boot or e.p == (1.0 if e.effect == 0 else 0.0), f"p-value at zero standard error; {w}")
        return "zero"
    if isnan(e.t):
        check(isnan(e.p) and isnan(lo), f"t undefined, p or interval defined; {w}")
        return "undefined"
    if not e.boot:
        eq(e.t, e.effect / e.se, f"t is not effect over standard error; {w}", 1e-7, 1e-12)
        check(not isnan(e.p) or isnan(lo), f"interval without a p-value; {w}")
        if isnan(e.p):
            return "undefined"
        h = (hi - lo) / 2 / e.se
        tol = 1e-7 * (1 + abs(e.effect) / e.se)
        check(abs((hi + lo) / 2 - e.effect) <= tol * e.se, f"interval is not centred on the effect; {w}")
        if tol > 1e-3 * max(h, 1):
            return "huge-t"
        z = stats.norm.ppf(1 - alpha / 2)
        check(h >= z - 2 * tol - 1e-6, f"interval shorter than the normal one; {w}")
        df = implied_df(h, alpha)
        check(df is not None, f"no t distribution has this quantile; {w}")
        if abs(e.t) < 30:
            p = 2 * (stats.norm.sf(abs(e.t)) if np.isinf(df) else stats.t.sf(abs(e.t), df))
            check(abs(p - e.p) <= 1e-5 * p + 2e-6 + 50 * tol, f"p-value {p} from the interval's distribution (df {df}); {w}")
        if abs(abs(e.t) - h) > 1e-6 * (1 + h):
            check((lo <= 0 <= hi) == (e.p >= alpha), f"the interval and the p-value disagree about zero; {w}")
        return "analytic"
    return "bootstrap"


@facet(P, "coherence", case, 2600, rule="every estimator and option incl. degenerate data (constant, exact fit, holes, one treated unit, two clusters, collinear covariates): each reported effect has t = effect/SE, p and symmetric interval from one t or normal distribution at the configured alpha, "
       "agreeing about zero; without a positive SE nothing is defined; significance flags follow p")
def coherence(c):
    s = degrade(c, zoo.spec(c))
    try:
        res = s.fit()
    except (ValueError, KeyError, np.linalg.LinAlgError):
        return None
    al = c["alpha"]
    labels = set()
    for e in zoo.effects(res, s.boot):
        if s.boot and c["kind"].startswith(("sdid", "trop")):
            e.boot = True
            if e.se > 0:
                eq(e.t, e.effect / e.se, f"t of {e.label}", 1e-7, 1e-12)
        labels.add(coherent(e, al))
    main = zoo.effects(res, s.boot)[0]
    check(res.alpha == al, f"result says alpha {res.alpha}")
    check(res.is_significant == bool(main.p < al), f"is_significant {res.is_significant} at p {main.p} and alpha {al}")
    stars = "" if isnan(main.p) else "***" if main.p < 0.001 else "**" if main.p < 0.01 else "*" if main.p < 0.05 else "." if main.p < 0.1 else ""
    check(res.significance_stars == stars, f"stars {res.significance_stars!r} at p {main.p}")
    for e in getattr(res, "period_effects", {}).values():
        check(e.is_significant == bool(e.p_value < 0.05), f"period effect significance at p {e.p_value}")
    return {c["kind"], c["deg"]} | labels


@facet(P, "alpha", st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from(kinds + ["trop_joint", "sdid_boot"]), a2=st.sampled_from([0.2, 0.32, 0.5]), a1=st.sampled_from([0.01, 0.05]))), 500,
       rule="the same data and seed at two significance levels: estimates, standard errors, t and p are unchanged, the interval of the smaller alpha contains the other one, analytic widths grow by the ratio of quantiles of one distribution")
def alpha(c):
    s = zoo.spec(c)
    try:
        r1 = s.fit(alpha=c["a1"])
    except (ValueError, KeyError, np.linalg.LinAlgError):
        raises(lambda: s.fit(alpha=c["a2"]), (ValueError, KeyError, np.linalg.LinAlgError), "fit that fails at one alpha only")
        return None
    r2 = s.fit(alpha=c["a2"])
    A, B = zoo.effects(r1, s.boot), zoo.effects(r2, s.boot)
    check([e.label for e in A] == [e.label for e in B], "different effects at another alpha")
    n = 0
    for a, b in zip(A, B):
        for k in ("effect", "se", "t", "p"):
            eq(getattr(b, k), getattr(a, k), f"{k} of {a.label} at alpha {c['a2']} and {c['a1']}", 1e-12, 0)
        l1, h1, l2, h2 = map(float, (*a.ci, *b.ci))
        check(isnan(l1) == isnan(l2), "interval defined at one alpha only")
        if isnan(l1):
            continue
        tiny = 1e-9 * (abs(l1) + abs(h1))
        check(l1 <= l2 + tiny and h2 <= h1 + tiny, f"{a.label}: the {c['a1']} interval {a.ci} does not contain the {c['a2']} interval {b.ci}")
        if not a.boot and a.se > 1e-6 * (abs(a.effect) + 1):
            df = implied_df((h1 - l1) / 2 / a.se, c["a1"])
            q = stats.norm.ppf(1 - c["a2"] / 2) if np.isinf(df) else stats.t.ppf(1 - c["a2"] / 2, df)
            eq((h2 - l2) / 2 / a.se, q, f"{a.label}: interval width at alpha {c['a2']}", 1e-4, 1e-6)
        n += h1 > l1
    if n:
        return {c["kind"]}


@facet(P, "large", st.fixed_dictionaries(dict(n=st.sampled_from([130, 260, 700, 1500, 4000]), T=st.integers(2, 4), what=st.sampled_from(["did", "did_plain", "did_cluster", "mp", "mp_cluster", "twfe", "sa", "ddd", "placebo"]), alpha=st.sampled_from([0.05, 0.01, 0.1, 0.32]), eff=st.sampled_from([0.0, 0.2, 1.0]), seed=seeds)), 400, 4000,
       rule="hundreds to thousands of rows: the interval and the p-value of every effect come from the t distribution with the residual (or clusters-based) degrees of freedom of the regression, which the normal distribution does not approximate to the precision checked")
def large(c):
    import pandas as pd
    import diff_diff as dd
    r = rng_of(c, 9)
    T, N = c["T"], max(12, c["n"] // c["T"])
    u, t = np.repeat(np.arange(N), T), np.tile(np.arange(T), N)
    d = (u % 2).astype(int)
    post = (t >= T // 2).astype(int)
    df = pd.DataFrame(dict(u=u, t=t, d=d, post=post, pp=r.integers(0, 2, N * T), g=np.where(d == 1, np.where(u % 4 == 1 if T > 2 else True, T // 2, T - 1), 0)))
    df["y"] = r.normal(size=N * T) + r.normal(size=N)[u] + c["eff"] * d * post
    df["cl"] = r.integers(0, 40, N)[u]
    w, al = c["what"], c["alpha"]
    if w.startswith("did"):
        res = dd.DifferenceInDifferences(**doc(c, alpha=al, robust=w != "did_plain", cluster="cl" if w == "did_cluster" else None)).fit(df, outcome="y", treatment="d", time="post")
        want = N * T - 4
    elif w.startswith("mp"):
        res = dd.MultiPeriodDiD(**doc(c, alpha=al, cluster="cl" if w == "mp_cluster" else None)).fit(df, outcome="y", treatment="d", time="t", post_periods=list(range(T // 2, T)))
        want = N * T - (1 + T + T - T // 2)
    elif w == "twfe":
        res = dd.TwoWayFixedEffects(**doc(c, alpha=al)).fit(df, outcome="y", treatment="d", time="post", unit="u")
        want = None
    elif w == "sa":
        res = dd.SunAbraham(**doc(c, alpha=al)).fit(df, "y", "u", "t", "g")
        want = None
    elif w == "ddd":
        res = dd.TripleDifference(**doc(c, alpha=al, estimation_method="reg")).fit(df, outcome="y", group="d", partition="pp", time="post")
        want = None
    else:
        res = dd.placebo_group_test(df[df.d == 0].assign(f=0), "y", "post", "u", fake_treated_units=list(range(0, N, 4)), alpha=al)
        lo, hi = res.conf_int
        q = implied_df((hi - lo) / 2 / res.se, al)
        p = 2 * (stats.norm.sf(abs(res.t_stat)) if np.isinf(q) else stats.t.sf(abs(res.t_stat), q))
        check(abs(p - res.p_value) <= 1e-6 * p + 1e-7, f"p-value {res.p_value}, the interval's distribution gives {p}")
        return [w]
    for e in zoo.effects(res):
        check(coherent(e, al) == "analytic", f"no inference for {e.label}")
        h = (float(e.ci[1]) - float(e.ci[0])) / 2 / e.se
        df_ = implied_df(h, al)
        p = 2 * (stats.norm.sf(abs(e.t)) if np.isinf(df_) else stats.t.sf(abs(e.t), df_))
        check(abs(p - e.p) <= 1e-6 * p + 1e-9, f"{e.label}: p-value {e.p}, the interval's distribution (df {df_}) gives {p}")
        if want:
            eq(h, stats.t.ppf(1 - al / 2, want), f"{e.label}: half-width over SE with {want} residual degrees of freedom", 1e-8)
    return [w, f"n{c['n']}"]
