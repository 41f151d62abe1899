"""P30 - invalid input is refused, never turned into an estimate."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import zoo
import diff_diff as dd

P = "P30"
ERR = (ValueError, KeyError, TypeError, AttributeError, IndexError)
DID = ["did", "did_plain", "did_cov", "did_fe", "did_absorb", "did_cluster", "did_formula", "did_boot"]
TW = ["twfe", "twfe_cov", "twfe_boot"]
MP = ["mp", "mp_cov", "mp_absorb", "mp_cluster"]
SD = ["sdid_placebo", "sdid_boot", "sdid_cov"]
CS = ["cs", "cs_cov", "cs_nyt", "cs_univ", "cs_boot"]
SA = ["sa", "sa_cov", "sa_nyt"]
DDD = ["ddd", "ddd_cov", "ddd_cluster"]
TR = ["trop", "trop_joint", "trop_jack"]
BA = ["bacon", "bacon_exact"]
EVERY = DID + TW + MP + SD + CS + SA + DDD + TR + BA
COV = ["did_cov", "twfe_cov", "mp_cov", "sdid_cov", "sa_cov", "ddd_cov"]
# fault -> estimators that state they need data without it
FAULTS = {
    "missing-column": EVERY, "not-a-frame": EVERY, "empty": EVERY, "text-outcome": EVERY,
    "nan-outcome": DID + TW + MP + SD + SA + DDD, "inf-outcome": DID + TW + MP + ["sdid_cov"] + SA + ["ddd_cov"],
    "nan-covariate": COV, "inf-covariate": COV, "text-covariate": COV,
    "nan-treatment": DID + TW + MP + SD + DDD + TR, "nan-time": DID + TW + MP + SD + CS + SA + DDD + TR + BA,
    "nan-unit": TW + SD + CS + SA + TR + BA,
    "nan-timing": CS + SA + BA, "timing-varies": CS + SA + BA, "negative-timing": CS + SA + BA,
    "treatment-not-binary": DID + TW + MP + SD + DDD + TR, "post-not-binary": DID + DDD, "partition-not-binary": DDD,
    "text-treatment": DID + TW + MP + SD + DDD + TR,
    "nobody-treated": DID + TW + MP + SD + CS + SA + DDD + TR, "all-treated": DID + TW + MP + SD + CS + SA + DDD + TR,
    "one-period": DID + TW + MP + SD + CS + DDD + TR, "empty-cell": DDD,
    "duplicate": SD + CS + TR, "gap": SD, "treatment-varies": SD, "treatment-ends": TR,
    "no-post": MP + SD, "all-post": MP + SD, "unknown-post": MP + SD, "unknown-reference": MP, "aggregate": CS,
    "wild-weights": ["did_boot", "twfe_boot"], "nan-cluster": DID[:6] + TW + MP + SA + DDD, "nan-effect": ["did_fe", "did_absorb", "mp_absorb"], "cluster-column": DID[:6] + TW + MP + ["mp_cluster"] + SA + DDD,
}
PAIRS = sorted({(f, k) for f, ks in FAULTS.items() for k in ks})


def setv(df, col, rows, v):
    if not isinstance(v, (int, np.integer)) or isinstance(v, bool):
        df[col] = df[col].astype(float if isinstance(v, float) else object)
    df.loc[rows, col] = v


def spoil(s, kind, f, r, n, pick):
    """one documented-invalid variation of a valid request: (frame, fit arguments, constructor changes) or None"""
    df, kw, over = s.df.reset_index(drop=True).copy(), dict(s.fitkw), {}
    rows = np.sort(r.permutation(len(df))[:n])
    d = {"ddd": "gg", "trop": "D"}.get(kind.split("_")[0], "d")
    stag = kind.split("_")[0] in zoo.STAG
    if f == "missing-column":
        if "formula" in kw:
            kw["formula"] = kw["formula"].replace(["y", "d", "post"][pick % 3] + " ", "nope ")
            if "nope" not in kw["formula"]:
                return None
        else:
            names = [a for a, v in kw.items() if a not in ("post_periods", "aggregate", "reference_period")]
            a = names[pick % len(names)]
            kw[a] = "nope" if isinstance(kw[a], str) else (list(kw[a]) + ["nope"] if pick % 2 else ["nope"])
    elif f == "not-a-frame":
        df = [df.to_dict(), df.values, df["y"], None][pick % 4]
    elif f == "empty":
        df = df.iloc[:0]
    elif f == "text-outcome":
        df["y"] = df["y"].astype(str) + "a"
    elif f in ("nan-outcome", "inf-outcome", "nan-covariate", "inf-covariate"):
        bad = np.nan if f.startswith("nan") else [np.inf, -np.inf][pick % 2]
        setv(df, "y" if f.endswith("outcome") else "x", rows, float(bad))
    elif f == "text-covariate":
        df["x"] = "a"
    elif f == "nan-treatment":
        rows = rows[df.loc[rows, "y"].notna().to_numpy()]
        if not len(rows):
            return None
        setv(df, d, rows, float("nan"))
    elif f == "nan-time":
        setv(df, kw.get("time", "post"), rows, float("nan"))
    elif f == "nan-unit":
        setv(df, "u", rows[:1], None)
    elif f == "nan-timing":
        setv(df, "g", rows if pick % 2 else df.index[df["u"] == df["u"].iloc[rows[0]]], float("nan"))
    elif f == "timing-varies":
        m = df.index[df["u"] == df["u"].iloc[rows[0]]]
        if len(m) < 2:
            return None
        now = df.loc[m[0], "g"]
        never = now == 0 or now == np.inf
        others = sorted(g for g in df["g"].unique() if g > 0 and g != np.inf and g != now) + ([] if never else [0])
        if not others:
            return None
        df.loc[r.permutation(m)[: 1 + pick % (len(m) - 1)], "g"] = others[pick % len(others)]
    elif f == "negative-timing":
        setv(df, "g", df.index[df["u"] == df["u"].iloc[rows[0]]], [-1, -3][pick % 2])
    elif f in ("treatment-not-binary", "post-not-binary", "partition-not-binary"):
        c = {"t": d, "p": "post"}[f[0]] if f != "partition-not-binary" else "pp"
        bad = [0.5, 2, -1, 1.0000001, 3, 0.01][pick % 6]
        if c == "d" and "u" in df and kind.startswith("sdid"):
            rows = df.index[df["u"] == df["u"].iloc[rows[0]]]
        setv(df, c, rows, bad)
    elif f == "text-treatment":
        df[d] = df[d].map({0: "no", 1: "yes"})
    elif f == "nobody-treated":
        df[d] = 0
        df["g"] = [0, np.inf][pick % 2] if kind.startswith("cs") else 0
    elif f == "all-treated":
        df[d] = 1
        first = df["g"].max()
        df["g"] = np.where(df["g"] > 0, df["g"], first)
    elif f == "one-period":
        df = df[df["t"] == sorted(df["t"].unique())[pick % df["t"].nunique()]]
    elif f == "empty-cell":
        a, b, t = pick % 2, pick // 2 % 2, pick // 4 % 2
        df = df[~((df["gg"] == a) & (df["pp"] == b) & (df["post"] == t))]
    elif f == "duplicate":
        df = pd.concat([df, df.iloc[rows]], ignore_index=True)
        if pick % 2:
            df.loc[df.index[-n:], "y"] += 1.0
        df = df.iloc[r.permutation(len(df))]
    elif f == "gap":
        df = df.drop(index=rows)
        if df["t"].nunique() < s.df["t"].nunique() or df["u"].nunique() < s.df["u"].nunique():
            return None
    elif f == "treatment-varies":
        us = df["u"].unique()
        i = us[pick % len(us)]
        m = df.index[df["u"] == i]
        k = 1 + pick % (len(m) - 1)
        df.loc[r.permutation(m)[:k], d] = 1 - df.loc[m[0], d]
    elif f == "treatment-ends":
        us = df.loc[df["D"] == 1, "u"].unique()
        m = df[df["u"] == us[pick % len(us)]].sort_values("t")
        on = m.index[m["D"] == 1]
        if len(on) < 2:
            return None
        k = 1 + pick % (len(on) - 1)
        df.loc[on[k: k + 1] if pick >= 12 else on[k:], "D"] = 0  # a gap, or an end
    elif f == "no-post":
        kw["post_periods"] = []
    elif f == "all-post":
        kw["post_periods"] = sorted(df["t"].unique())
    elif f == "unknown-post":
        odd = [1900, 2999, 2003.5, "2004", 0][pick % 5]
        if odd in set(df["t"]):
            return None
        kw["post_periods"] = list(kw.get("post_periods", sorted(df["t"].unique())[-1:])) + [odd]
    elif f == "unknown-reference":
        kw["reference_period"] = [1900, 2999, 2003.5, 0][pick % 4]
        if kw["reference_period"] in set(df["t"]):
            return None
    elif f == "aggregate":
        kw["aggregate"] = ["dynamic", "event-study", "EVENT_STUDY", "calendar", ""][pick % 5]
    elif f == "wild-weights":
        over["bootstrap_weights"] = ["normal", "Rademacher", ""][pick % 3]
    elif f == "nan-cluster":
        over["cluster"] = "cl"
        setv(df, "cl", rows, float("nan") if pd.api.types.is_numeric_dtype(df["cl"]) else None)
    elif f == "nan-effect":
        col = (kw.get("fixed_effects") or kw.get("absorb"))[0]
        setv(df, col, rows, float("nan") if pd.api.types.is_numeric_dtype(df[col]) else None)
    elif f == "cluster-column":
        over["cluster"] = "nope"
    if stag and f in ("nobody-treated", "all-treated") and len(df) and (df["g"].max() == 0) == (f == "all-treated"):
        return None
    return df, kw, over


@facet(P, "data", st.fixed_dictionaries(dict(zoo.case, pair=st.sampled_from(PAIRS), n=st.integers(1, 3), pick=st.integers(0, 23))), quick=700, thorough=9000, rule="an estimator and one way its documented requirements can be broken: missing column, missing or infinite values, non-binary indicators, an empty cell, duplicates, gaps, unknown periods, unknown options")
def data(c):
    f, kind = c["pair"]
    c = dict(c, kind=kind)
    if f in ("inf-covariate", "inf-outcome") and kind.startswith("ddd") and c["m"] == 2:
        return None  # pure weighting: the estimate comes out undefined instead
    s = zoo.spec(c)
    q = spoil(s, kind, f, rng_of(c, 30), c["n"], c["pick"])
    if q is None:
        return None
    df, kw, over = q
    est = s.make(**over)
    keep = df.copy() if hasattr(df, "copy") else df
    raises(lambda: est.fit(df, **kw), ERR, f"{kind} with {f}")
    if isinstance(df, pd.DataFrame):
        check(df.equals(keep) or f in ("nan-unit", "nan-cluster", "nan-effect"), f"{kind} with {f}: the refused data were changed")
    if not over:
        check(not getattr(est, "is_fitted_", False) and getattr(est, "results_", None) is None, f"{kind} with {f}: the estimator counts as fitted after the refusal")
        if c["pick"] % 4 == 0:
            try:
                b = zoo.flat(s.fit())
            except ERR:  # the untouched data are refused too, for another reason
                return None
            a = zoo.flat(s.fit(est=est))
            d = zoo.differ(a, b)
            check(d is None, f"{kind}: a fit after a refused one ({f}) differs from a fresh fit: {d}")
    return {f, kind.split("_")[0]}


KINDS_ALL = sorted({k for _, k in PAIRS})


@facet(P, "catalogue", st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from(KINDS_ALL), n=st.integers(1, 3), pick=st.integers(0, 23))), quick=110, thorough=1500, rule="one estimator and every way its documented requirements can be broken, one after the other on the same data")
def catalogue(c):
    out = set()
    for f, kind in PAIRS:
        if kind == c["kind"] and data(dict(c, pair=[f, kind])) is not None:
            out.add(f)
    return out | {c["kind"]} if out else None


CHOICES = {
    "DifferenceInDifferences": {"inference": ["analytical", "wild_bootstrap"], "rank_deficient_action": ["warn", "error", "silent"]},
    "TwoWayFixedEffects": {"inference": ["analytical", "wild_bootstrap"], "rank_deficient_action": ["warn", "error", "silent"]},
    "MultiPeriodDiD": {"inference": ["analytical", "wild_bootstrap"], "rank_deficient_action": ["warn", "error", "silent"]},
    "CallawaySantAnna": {"control_group": ["never_treated", "not_yet_treated"], "estimation_method": ["dr", "ipw", "reg"], "base_period": ["varying", "universal"], "rank_deficient_action": ["warn", "error", "silent"], "bootstrap_weights": ["rademacher", "mammen", "webb"]},
    "SunAbraham": {"control_group": ["never_treated", "not_yet_treated"], "rank_deficient_action": ["warn", "error", "silent"]},
    "SyntheticDiD": {"variance_method": ["bootstrap", "placebo"]},
    "TripleDifference": {"estimation_method": ["dr", "reg", "ipw"], "rank_deficient_action": ["warn", "error", "silent"]},
    "TROP": {"method": ["twostep", "joint"], "variance_method": ["bootstrap", "jackknife"]},
    "BaconDecomposition": {"weights": ["approximate", "exact"]},
    "PreTrendsPower": {"violation_type": ["linear", "constant", "last_period"], "alpha": [0.01, 0.5], "power": [0.5, 0.9]},
    "HonestDiD": {"method": ["smoothness", "relative_magnitude", "combined"], "M": [0.0, 2.0], "alpha": [0.01, 0.5]},
}
ITEMS = [(k, n) for k, v in CHOICES.items() for n in v]
NUM_BAD = {"alpha": [0, 1, -0.1, 1.5], "power": [0, 1, -0.1, 1.5], "M": [-1, -0.001]}
junk = st.one_of(st.sampled_from(["foo", "", "Never_treated", "DR", "drr", "reg ", "wild", "boot", "warnn", "two-step", "exactly", "mammen2", "univ"]), st.text(min_size=0, max_size=6))


@facet(P, "options", st.fixed_dictionaries(dict(item=st.sampled_from(ITEMS), bad=junk, how=st.sampled_from(["constructor", "set_params", "both changed"]), good=st.integers(0, 5), i=st.integers(0, 3), seed=seeds)), quick=1200, thorough=20000, rule="a documented choice given a value outside it, through the constructor or through set_params, alone or together with a valid change")
def options(c):
    k, n = c["item"]
    cls = getattr(dd, k)
    ok = CHOICES[k]
    bad = NUM_BAD[n][c["i"] % len(NUM_BAD[n])] if n in NUM_BAD else c["bad"]
    if bad in ok[n]:
        return None
    if c["how"] == "constructor":
        raises(lambda: cls(**{n: bad}), ERR, f"{k}({n}={bad!r})")
        return {k, n}
    est = cls()
    before = est.get_params()
    ch = {n: bad}
    if c["how"] == "both changed":
        others = [x for x in ok if x != n]
        if others:
            o = others[c["good"] % len(others)]
            ch = {o: ok[o][c["good"] % len(ok[o])], n: bad}
    raises(lambda: est.set_params(**ch), ERR, f"{k}().set_params({', '.join(f'{a}={v!r}' for a, v in ch.items())})")
    if k != "HonestDiD":
        after = est.get_params()
        check(all(after[a] is v or after[a] == v for a, v in before.items()), f"{k}: a refused set_params changed the estimator: {before} -> {after}")
    # every documented value stays accepted
    for v in ok[n]:
        got = est.set_params(**{n: v}).get_params()[n]
        check(got == v, f"{k}: set_params({n}={v!r}) leaves {got!r}")
        check(cls(**{n: v}).get_params()[n] == v, f"{k}({n}={v!r})")
    return {k, n, c["how"]}


@facet(P, "unknown-parameters", st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(CHOICES)), name=st.sampled_from(["alpah", "n_boot", "clusters", "Alpha", "foo", "robust_", "controlgroup"]), seed=seeds)), quick=60, thorough=400, rule="a parameter name the estimator does not have")
def unknown_parameters(c):
    cls = getattr(dd, c["kind"])
    raises(lambda: cls(**{c["name"]: 1}), ERR, f"{c['kind']}({c['name']}=1)")
    raises(lambda: cls().set_params(**{c["name"]: 1}), ERR, f"{c['kind']}().set_params({c['name']}=1)")
    return {c["kind"]}


def tools(c, r):
    """(name, call) of every utility request that must be refused"""
    from diff_diff import linalg as L, utils as U
    n, k = 12 + c["n"], 3
    X = np.column_stack([np.ones(n), r.normal(size=(n, k - 1))])
    y = r.normal(size=n)
    Xb, yb = X.copy(), y.copy()
    bad = [np.nan, np.inf, -np.inf][c["i"] % 3]
    Xb[r.integers(n), r.integers(k)] = bad
    yb[r.integers(n)] = bad
    one = np.zeros(n)
    df = pd.DataFrame(dict(u=np.repeat(np.arange(n), 2), t=np.tile([0, 1], n), y=r.normal(size=2 * n), x=r.normal(size=2 * n), g=np.repeat(r.integers(0, 2, n), 2)))
    out = [
        ("solve_ols with a non-finite regressor", lambda: L.solve_ols(Xb, y)),
        ("solve_ols with a non-finite outcome", lambda: L.solve_ols(X, yb)),
        ("solve_ols with an outcome of another length", lambda: L.solve_ols(X, y[:-1])),
        ("solve_ols with fewer rows than columns", lambda: L.solve_ols(X[: k - 1], y[: k - 1])),
        ("solve_ols with a one-dimensional design", lambda: L.solve_ols(y, y)),
        ("solve_ols with an unknown rank action", lambda: L.solve_ols(X, y, rank_deficient_action="foo")),
        ("LinearRegression with an unknown rank action", lambda: L.LinearRegression(rank_deficient_action="foo").fit(X, y)),
        ("LinearRegression: prediction before fit", lambda: L.LinearRegression().predict(X)),
        ("cluster-robust variance with one cluster", lambda: L.compute_robust_vcov(X, y, one)),
        ("wild bootstrap with one cluster", lambda: U.wild_bootstrap_se(X, y, y, one, 1, n_bootstrap=20, seed=1)),
        ("wild bootstrap with unknown weights", lambda: U.wild_bootstrap_se(X, y, y, np.arange(n), 1, n_bootstrap=20, weight_type="foo", seed=1)),
        ("validate_binary", lambda: U.validate_binary(np.array([0.0, 1.0, [0.5, 2.0, -1.0][c["i"] % 3]]), "treatment")),
        ("demeaning by an unknown column", lambda: U.demean_by_group(df, ["y"], "nope")),
        ("make_treatment_indicator for an unknown column", lambda: dd.make_treatment_indicator(df, "nope", treated_values=1)),
        ("make_treatment_indicator without a rule", lambda: dd.make_treatment_indicator(df, "g")),
        ("make_post_indicator for an unknown column", lambda: dd.make_post_indicator(df, "nope", treatment_start=1)),
        ("make_post_indicator without a rule", lambda: dd.make_post_indicator(df, "t")),
        ("balance_panel with an unknown method", lambda: dd.balance_panel(df, "u", "t", method="foo")),
        ("balance_panel with an unknown column", lambda: dd.balance_panel(df, "nope", "t")),
        ("generate_staggered_data with an impossible cohort", lambda: dd.generate_staggered_data(cohort_periods=[99], seed=1)),
        ("rank_control_units with an unknown outcome", lambda: dd.rank_control_units(df, "u", "t", "nope")),
        ("load_dataset with an unknown name", lambda: dd.load_dataset("nope")),
        ("power with an unknown alternative", lambda: dd.PowerAnalysis(alternative="foo")),
        ("power alpha", lambda: dd.PowerAnalysis(alpha=[0, 1, -0.5, 2][c["i"]])),
        ("power target", lambda: dd.PowerAnalysis(power=[0, 1, -0.5, 2][c["i"]])),
        ("honest restrictions", lambda: dd.DeltaSD(M=-0.5)),
        ("honest restrictions", lambda: dd.DeltaRM(Mbar=-0.5)),
        ("honest restrictions", lambda: dd.DeltaSDRM(M=-0.5, Mbar=1.0)),
        ("honest restrictions", lambda: dd.DeltaSDRM(M=0.5, Mbar=-1.0)),
        ("placebo test type", lambda: dd.run_placebo_test(df, "y", "g", "t", test_type="foo")),
        ("placebo permutation without a unit", lambda: dd.run_placebo_test(df, "y", "g", "t", unit=None, test_type="permutation")),
        ("placebo timing inside the treated periods", lambda: dd.placebo_timing_test(df, "y", "g", "t", fake_treatment_period=1, post_periods=[1])),
    ]
    return out


@facet(P, "tools", st.fixed_dictionaries(dict(n=st.integers(0, 20), i=st.integers(0, 3), which=st.integers(0, 31), seed=seeds)), quick=200, thorough=2500, rule="a request outside what the linear-algebra layer, wild bootstrap, preparation helpers, power, sensitivity, placebo and dataset functions accept")
def tools_facet(c):
    q = tools(c, rng_of(c, 31))
    name, fn = q[c["which"] % len(q)]
    raises(fn, (ValueError, KeyError), name)
    return {name}


paths = st.fixed_dictionaries(dict(N=st.integers(4, 8), T=st.integers(4, 8), seed=seeds, method=st.sampled_from(["twostep", "joint"]), drop=st.sampled_from([0.0, 0.0, 0.15]), shape=st.sampled_from(["end", "gap", "gap", "pulse", "random"]), frac=st.sampled_from(["int", "float", "bool"])))


@facet(P, "paths", paths, quick=160, thorough=2500, rule="TROP: any treatment path that is left again for an observed period - for good, for a gap, after a single period, across unobserved periods - is refused and names the unit")
def paths_facet(c):
    r = rng_of(c)
    N, T = c["N"], c["T"]
    D = np.zeros((N, T), int)
    for i in range(int(r.integers(1, N - 1))):
        s = T - 2 if c["method"] == "joint" else int(r.integers(1, T))
        D[i, s:] = 1
    i = int(r.integers(0, N - 1))
    a = int(r.integers(1, T - 2))
    D[i] = 0
    if c["shape"] == "end":
        D[i, a: int(r.integers(a + 1, T))] = 1
    elif c["shape"] == "gap":
        D[i, a:] = 1
        b = int(r.integers(a + 1, T - 1))
        D[i, b: int(r.integers(b + 1, T))] = 0
    elif c["shape"] == "pulse":
        D[i, a] = 1
        D[i, T - 1] = int(r.integers(0, 2)) if a < T - 2 else 0
    else:
        D[i] = r.integers(0, 2, T)
    df = pd.DataFrame([(f"u{k}", t, D[k, t], r.normal() + t) for k in range(N) for t in range(T)], columns=["u", "t", "D", "y"])
    df = df[r.random(len(df)) >= c["drop"]].reset_index(drop=True)
    left = [u for u, g in df.groupby("u") if (np.diff(g.sort_values("t")["D"]) < 0).any()]
    assume(left and df["t"].nunique() == T)
    df["D"] = df["D"].astype(c["frac"])
    df = df.iloc[r.permutation(len(df))]
    est = dd.TROP(method=c["method"], lambda_time_grid=[0.1], lambda_unit_grid=[0.1], lambda_nn_grid=[1.0], n_bootstrap=2, max_loocv_samples=3, seed=1)
    try:
        est.fit(df, outcome="y", treatment="D", unit="u", time="t")
    except ValueError as e:
        check(any(u in str(e) for u in left) or "simultaneous" in str(e).lower(), f"refused without naming {left}: {e}")
        return {c["method"], c["shape"], "holes" if c["drop"] else "full"}
    fail(f"TROP ({c['method']}) accepted units that leave treatment: {left}")
