"""Every estimator of the package in a common shape, for cross-cutting properties."""
import dataclasses
import math
import numpy as np
import pandas as pd
from harness.core import doc, st, seeds
from harness import gen
import diff_diff as dd

KINDS = ["did", "did_plain", "did_cov", "did_fe", "did_absorb", "did_cluster", "did_formula", "did_boot", "twfe", "twfe_cov", "twfe_boot", "mp", "mp_cov", "mp_absorb", "mp_cluster", "sdid_placebo", "sdid_boot", "sdid_cov", "cs", "cs_cov", "cs_nyt", "cs_univ", "cs_boot", "sa", "sa_cov",
         "sa_nyt", "sa_boot", "ddd", "ddd_cov", "ddd_cluster", "trop", "trop_jack", "trop_joint", "bacon", "bacon_exact"]
STAG = ("cs", "sa", "bacon")
case = dict(kind=st.sampled_from(KINDS), nt=st.integers(2, 4), nc=st.integers(3, 7), npre=st.integers(2, 3), npost=st.integers(1, 3), noise=gen.noise, alpha=gen.alphas, ulab=gen.ulab, pres=gen.presentation, agg=st.sampled_from([None, "all", "event_study", "group"]), antic=st.sampled_from([0, 0, 1]),
            rob=st.booleans(), m=st.integers(0, 2), bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)), B=st.integers(20, 40), seed=seeds)


class Spec:
    def __init__(self, cls, ctor, fit, df, boot=False):
        self.cls, self.ctor, self.fitkw, self.df, self.boot, self.seed = cls, ctor, fit, df, boot, 1

    def make(self, **over):
        return self.cls(**{**doc(dict(seed=self.seed), **self.ctor), **over})

    def fit(self, df=None, est=None, **over):
        return (est or self.make(**over)).fit(self.df if df is None else df, **self.fitkw)


def frame(c):
    """panel with columns u t post d D g x z cl reg y (and gg pp for the triple difference)"""
    r = np.random.default_rng([int(c["seed"]) & 0xFFFFFFFF, 77])
    kind = c["kind"].split("_")[0]
    T = c["npre"] + c["npost"]
    per = [2001 + k for k in range(T)]
    N = c["nt"] + c["nc"]
    u = gen.unit_labels(c["ulab"], N, r)
    tr = np.zeros(N, int)
    tr[r.permutation(N)[: c["nt"]]] = 1
    start = np.where(tr == 1, per[c["npre"]], 0)
    if kind in STAG:
        start = np.where(tr == 1, r.choice(per[1:], size=N), 0)
        start[np.where(tr == 1)[0][0]] = per[c["npre"]]
    fe, tf = 2 * r.normal(size=N), r.normal(size=T)
    cl = r.integers(0, 3, N)
    cl[r.permutation(N)[:4]] = [0, 1, 2, 3]
    rows = []
    xu = r.normal(size=N)
    for i in range(N):
        for k, p in enumerate(per):
            on = int(start[i] > 0 and p >= start[i])
            x = r.normal() * 0.5 + 0.3 * tr[i] + (xu[i] if kind in ("cs", "sa") else 0)
            rows.append((u[i], p, int(k >= c["npre"]), tr[i], on, start[i], x, f"r{cl[i] % 3}", cl[i], fe[i] + tf[k] + 1.5 * on + 0.5 * x))
    df = pd.DataFrame(rows, columns=["u", "t", "post", "d", "D", "g", "x", "reg", "cl", "y"])
    df["y"] += gen.shock(c["noise"], r, len(df))
    if kind == "ddd":
        df["gg"], df["pp"] = r.integers(0, 2, len(df)), r.integers(0, 2, len(df))
        for k, (a, b, t) in enumerate([(a, b, t) for a in (0, 1) for b in (0, 1) for t in (0, 1)] * 2):
            df.loc[df.index[k % len(df)], ["gg", "pp", "post"]] = (a, b, t)
        df["D"] = df["gg"] * df["pp"] * df["post"]
    return gen.present(df, c["pres"], r)


def spec(c):
    s = _spec(c)
    s.seed = c["seed"]
    return s


def _spec(c):
    df = frame(c)
    k, al = c["kind"], c["alpha"]
    per = sorted(df["t"].unique().tolist())
    post = per[c["npre"]:]
    a, _, b = k.partition("_")
    base = dict(alpha=al)
    if a == "did":
        kw = dict(outcome="y", treatment="d", time="post")
        ctor = dict(base, robust=b != "plain")
        if b == "cov":
            kw["covariates"] = ["x"]
        if b == "fe":
            kw["fixed_effects"] = ["reg"]
        if b == "absorb":
            kw["absorb"] = ["reg"]
        if b == "cluster":
            ctor["cluster"] = "cl"
        if b == "formula":
            kw = dict(formula=["y ~ d * post", "y ~ d + post + d:post", "y ~ d * post + x"][c["m"]])
        if b == "boot":
            ctor.update(cluster="u", inference="wild_bootstrap", n_bootstrap=c["B"], bootstrap_weights=["rademacher", "webb", "mammen"][c["m"]], seed=c["bseed"])
        return Spec(dd.DifferenceInDifferences, ctor, kw, df, b == "boot")
    if a == "twfe":
        ctor = dict(base, cluster=[None, None, "u"][c["m"]], robust=c["rob"])
        if b == "boot":
            ctor.update(inference="wild_bootstrap", cluster="u", n_bootstrap=c["B"], seed=c["bseed"])
        return Spec(dd.TwoWayFixedEffects, ctor, dict(outcome="y", treatment="d", time="post", unit="u", **(dict(covariates=["x"]) if b == "cov" else {})), df, b == "boot")
    if a in ("mp", "sdid") and c["seed"] % 4 < 2:  # write the request in the shortest way that says the same: the second half is the default
        post = None if list(post) == list(per[len(per) // 2:]) else post
    if a == "mp":
        kw = dict(outcome="y", treatment="d", time="t", **({} if post is None else dict(post_periods=post)))
        ctor = dict(base, robust=c["rob"] or b == "cluster")
        if b == "cov":
            kw["covariates"] = ["x"]
        if b == "absorb":
            kw["absorb"] = ["u"]
        if b == "cluster":
            ctor["cluster"] = "u"
        if c["m"] == 1:
            kw["reference_period"] = per[0]
        return Spec(dd.MultiPeriodDiD, ctor, kw, df)
    if a == "sdid":
        ctor = dict(base, variance_method="bootstrap" if b == "boot" else "placebo", n_bootstrap=c["B"], seed=c["bseed"], lambda_reg=[0.0, 0.5, 2.0][c["m"]])
        return Spec(dd.SyntheticDiD, ctor, dict(outcome="y", treatment="d", unit="u", time="t", **({} if post is None else dict(post_periods=post)), **(dict(covariates=["x"]) if b == "cov" else {})), df, True)
    if a == "cs":
        ctor = dict(base, estimation_method=["dr", "reg", "ipw"][c["m"]], anticipation=c["antic"], control_group="not_yet_treated" if b == "nyt" else "never_treated", base_period="universal" if b == "univ" else "varying", n_bootstrap=c["B"] + 30 if b == "boot" else 0, seed=c["bseed"])
        kw = dict(outcome="y", unit="u", time="t", first_treat="g", aggregate=c["agg"])
        if b == "cov":
            kw["covariates"] = ["x"]
        return Spec(dd.CallawaySantAnna, ctor, kw, df, b == "boot")
    if a == "sa":
        ctor = dict(base, anticipation=c["antic"], control_group="not_yet_treated" if b == "nyt" else "never_treated", n_bootstrap=c["B"] if b == "boot" else 0, seed=c["bseed"])
        return Spec(dd.SunAbraham, ctor, dict(outcome="y", unit="u", time="t", first_treat="g", **(dict(covariates=["x"]) if b == "cov" else {})), df, b == "boot")
    if a == "ddd":
        ctor = dict(base, estimation_method=["dr", "reg", "ipw"][c["m"]], robust=c["rob"] or b == "cluster", cluster="u" if b == "cluster" else None)
        return Spec(dd.TripleDifference, ctor, dict(outcome="y", group="gg", partition="pp", time="post", **(dict(covariates=["x"]) if b == "cov" else {})), df)
    if a == "trop":
        ctor = dict(base, method="joint" if b == "joint" else "twostep", lambda_time_grid=[[0.3], [0.0], [0.0, 0.5]][c["m"]], lambda_unit_grid=[0.2], lambda_nn_grid=[np.inf] if c["m"] else [1.0], max_iter=30, n_bootstrap=8, variance_method="jackknife" if b == "jack" else "bootstrap", seed=c["bseed"], max_loocv_samples=10)
        return Spec(dd.TROP, ctor, dict(outcome="y", treatment="D", unit="u", time="t"), df, b != "jack")
    return Spec(dd.BaconDecomposition, dict(weights="exact" if b == "exact" else "approximate"), dict(outcome="y", unit="u", time="t", first_treat="g"), df)


class Inf:
    """one reported effect with its inference"""

    def __init__(self, label, effect, se, t, p, ci, boot=False):
        self.label, self.effect, self.se, self.t, self.p, self.ci, self.boot = label, effect, se, t, p, ci, boot


def effects(res, boot=False):
    n = type(res).__name__
    out = []
    d = lambda lab, q, bt=boot: out.append(Inf(lab, q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], bt))
    if n in ("DiDResults", "SyntheticDiDResults", "TripleDifferenceResults", "TROPResults"):
        out.append(Inf("att", res.att, res.se, res.t_stat, res.p_value, res.conf_int, boot))
    elif n == "MultiPeriodDiDResults":
        out.append(Inf("avg", res.avg_att, res.avg_se, res.avg_t_stat, res.avg_p_value, res.avg_conf_int))
        for p, e in res.period_effects.items():
            out.append(Inf(("period", p), e.effect, e.se, e.t_stat, e.p_value, e.conf_int))
    elif n in ("CallawaySantAnnaResults", "SunAbrahamResults"):
        out.append(Inf("overall", res.overall_att, res.overall_se, res.overall_t_stat, res.overall_p_value, res.overall_conf_int, boot))
        for k, q in (res.event_study_effects or {}).items():
            d(("event", k), q)
        if n == "CallawaySantAnnaResults":
            for k, q in res.group_time_effects.items():
                d(("gt",) + tuple(k), q)
            for k, q in (res.group_effects or {}).items():
                d(("group", k), q)
    return out


SKIP = {"residuals", "fitted_values", "influence_functions", "original_results"}


def flat(x, path="", out=None, skip=SKIP):
    """all numbers and labels of a result, by path"""
    out = {} if out is None else out
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        for f in dataclasses.fields(x):
            if f.name not in skip:
                flat(getattr(x, f.name), f"{path}.{f.name}", out, skip)
    elif isinstance(x, dict):
        for k, v in x.items():
            flat(v, f"{path}[{k}]", out, skip)
    elif isinstance(x, pd.DataFrame):
        for col in x.columns:
            flat(x[col].tolist(), f"{path}[{col}]", out, skip)
    elif isinstance(x, (pd.Series, np.ndarray)):
        flat(np.asarray(x).tolist(), path, out, skip)
    elif isinstance(x, (list, tuple)):
        out[path + ".len"] = len(x)
        for i, v in enumerate(x):
            flat(v, f"{path}({i})", out, skip)
    elif isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, str):
        out[path] = x
    elif isinstance(x, (int, float, np.integer, np.floating)):
        out[path] = float(x)
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("diff_diff"):
        flat(vars(x), path, out, skip)
    else:
        out[path] = str(x)
    return out


def differ(a, b, rtol=0.0, atol=0.0):
    """first difference of two flat results, or None"""
    if set(a) != set(b):
        return f"fields differ: {sorted(set(a) ^ set(b))[:4]}"
    for k, v in a.items():
        w = b[k]
        if isinstance(v, float) and isinstance(w, float):
            if math.isnan(v) and math.isnan(w) or v == w or abs(v - w) <= atol + rtol * max(abs(v), abs(w)):
                continue
            return f"{k}: {v!r} and {w!r}"
        if v != w:
            return f"{k}: {v!r} and {w!r}"
    return None
