"""P23 - data generators produce the model they document."""
import math
import numpy as np
import pandas as pd
from scipy import stats
from harness.core import *
from diff_diff import prep
from diff_diff.prep import (generate_did_data, generate_staggered_data, generate_factor_data, generate_ddd_data, generate_panel_data, generate_event_study_data)

P = "P23"
GEN = dict(did=generate_did_data, stag=generate_staggered_data, factor=generate_factor_data, ddd=generate_ddd_data, panel=generate_panel_data, event=generate_event_study_data)
num = st.sampled_from([0.0, 1.0, -2.0, 0.3, 10.0])
pos = st.sampled_from([0.0, 0.5, 1.0, 3.0])
common = dict(kind=st.sampled_from(sorted(GEN)), n=st.integers(4, 40), T=st.integers(2, 11), tp=st.integers(1, 8), frac=st.sampled_from([0.5, 0.3, 0.25, 0.0, 1.0, 0.29]), te=num, fe=pos, noise=pos, trend=num, dyn=st.booleans(), growth=st.sampled_from([0.1, 0.0, 0.5]), cohorts=st.sampled_from(["default", "one", "many", "dup"]),
              nt=st.integers(1, 6), nf=st.integers(0, 3), strength=pos, shift=num, g=num, p=num, t=num, cov=st.booleans(), par=st.booleans(), viol=num, edge=st.sampled_from(["no", "no", "no", "nopost", "nopre"]), gseed=st.integers(0, 2**31 - 1))
case = st.fixed_dictionaries(common)


def kwargs(c):
    kw = kwargs0(c)
    e, T = c.get("edge"), c["T"]
    if e in ("nopost", "nopre"):  # every period before (after) the start of treatment
        if c["kind"] == "did":
            kw["treatment_period"] = T if e == "nopost" else 0
        elif "n_pre" in kw:
            kw.update(n_pre=T, n_post=0) if e == "nopost" else kw.update(n_pre=0, n_post=T)
    return kw


def kwargs0(c):
    k, n, T, tp = c["kind"], c["n"], c["T"], min(c["tp"], c["T"] - 1)
    if k == "did":
        return dict(n_units=n, n_periods=T, treatment_effect=c["te"], treatment_fraction=c["frac"], treatment_period=tp, unit_fe_sd=c["fe"], time_trend=c["trend"], noise_sd=c["noise"])
    if k == "stag":
        coh = {"default": None, "one": [tp], "many": list(range(1, T)), "dup": [1, T - 1]}[c["cohorts"]]
        return dict(n_units=n, n_periods=T, cohort_periods=coh, never_treated_frac=c["frac"], treatment_effect=c["te"], dynamic_effects=c["dyn"], effect_growth=c["growth"], unit_fe_sd=c["fe"], time_trend=c["trend"], noise_sd=c["noise"])
    if k == "factor":
        return dict(n_units=n, n_pre=tp, n_post=max(T - tp, 1), n_treated=min(c["nt"], n), n_factors=c["nf"], treatment_effect=c["te"], factor_strength=c["strength"], treated_loading_shift=c["shift"], unit_fe_sd=c["fe"], noise_sd=c["noise"])
    if k == "ddd":
        return dict(n_per_cell=n, treatment_effect=c["te"], group_effect=c["g"], partition_effect=c["p"], time_effect=c["t"], noise_sd=c["noise"], add_covariates=c["cov"])
    if k == "panel":
        return dict(n_units=n, n_periods=T, treatment_period=tp, treatment_fraction=c["frac"], treatment_effect=c["te"], parallel_trends=c["par"], trend_violation=c["viol"], unit_fe_sd=c["fe"], noise_sd=c["noise"])
    return dict(n_units=n, n_pre=tp, n_post=max(T - tp, 1), treatment_fraction=c["frac"], treatment_effect=c["te"], unit_fe_sd=c["fe"], noise_sd=c["noise"])


COLS = dict(did=["unit", "period", "treated", "post", "outcome", "true_effect"], stag=["unit", "period", "outcome", "first_treat", "treated", "treat", "true_effect"], factor=["unit", "period", "outcome", "treated", "treat", "true_effect"],
            ddd=["outcome", "group", "partition", "time", "unit_id", "true_effect"], panel=["unit", "period", "treated", "post", "outcome", "true_effect"], event=["unit", "period", "treated", "post", "outcome", "event_time", "true_effect"])


def gen(c, **over):
    return GEN[c["kind"]](**{**kwargs(c), **over}, seed=c["gseed"])


def mean_part(c, d, kw):
    """documented outcome without unit effects, factors, covariates and noise"""
    k = c["kind"]
    if k == "did":
        return 10 + kw["time_trend"] * d["period"] + d["true_effect"]
    if k == "stag":
        return 10 + kw["time_trend"] * d["period"] + d["true_effect"]
    if k == "factor":
        T = kw["n_pre"] + kw["n_post"]
        return 10 + (2 * d["period"] / (T - 1) if T > 1 else 0 * d["period"]) + d["true_effect"]
    if k == "ddd":
        G, Q, t = d["group"], d["partition"], d["time"]
        out = 50 + kw["group_effect"] * G + kw["partition_effect"] * Q + kw["time_effect"] * t + 1.5 * G * Q + 1.0 * G * t + 0.5 * Q * t + kw["treatment_effect"] * G * Q * t
        return out + (0.1 * d["age"] + 0.5 * d["education"] if kw["add_covariates"] else 0)
    if k == "panel":
        return 10 + d["period"] * (1.0 + (0 if kw["parallel_trends"] else kw["trend_violation"]) * d["treated"]) + d["true_effect"]
    return 10 + 0.5 * d["period"] + d["true_effect"]


@facet(P, "structure", case, 900, rule="six generators, any parameters: columns, complete unit-period grid (or cells), group sizes, indicators, event time, cohorts and the true effect of every row follow the parameters; equal seeds give equal data, the global generator is untouched")
def structure(c):
    kw, k = kwargs(c), c["kind"]
    np.random.seed(123)
    st0 = np.random.get_state()
    d = gen(c)
    st1 = np.random.get_state()
    check(st0[0] == st1[0] and (st0[1] == st1[1]).all() and st0[2:] == st1[2:], "the global NumPy generator was used or reseeded")
    check(d.equals(gen(c)), "the same seed gives different data")
    if c["noise"] > 0:
        check(not d["outcome"].equals(GEN[k](**kw, seed=c["gseed"] + 1)["outcome"]), "another seed gives the same outcomes")
        check(not GEN[k](**kw)["outcome"].equals(GEN[k](**kw)["outcome"]), "unseeded calls repeat themselves")
    check(list(d.columns) == COLS[k] + (["age", "education"] if k == "ddd" and c["cov"] else []), f"columns {list(d.columns)}")
    check(not d.isna().any().any(), "missing values")
    te = kw["treatment_effect"]
    if k == "ddd":
        n = kw["n_per_cell"]
        check(len(d) == 8 * n and (d.groupby(["group", "partition", "time"]).size() == n).all() and d.groupby(["group", "partition", "time"]).ngroups == 8, "cell sizes")
        check(d["unit_id"].is_unique, "unit ids repeat")
        eq_arr(d["true_effect"], te * d["group"] * d["partition"] * d["time"], "true effect", 0, 0)
        if c["cov"]:
            check(set(d["education"]) <= {12, 14, 16, 18}, "education values")
        return {k, f"cov{c['cov']}"}
    N = kw["n_units"]
    T = kw.get("n_periods") or kw["n_pre"] + kw["n_post"]
    check(list(map(tuple, d[["unit", "period"]].to_numpy())) == [(i, t) for i in range(N) for t in range(T)] or (len(d) == N * T and set(map(tuple, d[["unit", "period"]].to_numpy())) == {(i, t) for i in range(N) for t in range(T)}), "unit-period grid")
    if k == "stag":
        ft = d.groupby("unit")["first_treat"].nunique()
        check((ft == 1).all(), "first_treat varies within a unit")
        f = d.groupby("unit")["first_treat"].first()
        coh = kw["cohort_periods"]
        if coh is not None:
            check(set(f) <= set(coh) | {0}, f"cohorts {set(f)} outside {coh}")
        else:
            check(all(1 <= x < T or x == 0 for x in f) and (T != 10 or set(f) <= {0, 3, 5, 7}), f"default cohorts {set(f)} in {T} periods")
        check(abs((f == 0).sum() - N * c["frac"]) < 1, f"{(f == 0).sum()} never-treated of {N} at fraction {c['frac']}")
        on = (d["first_treat"] > 0) & (d["period"] >= d["first_treat"])
        check((d["treated"] == on).all() and (d["treat"] == (d["first_treat"] > 0)).all(), "treatment indicators")
        e = d["period"] - d["first_treat"]
        eq_arr(d["true_effect"], np.where(on, te * (1 + (kw["effect_growth"] * e if kw["dynamic_effects"] else 0)), 0.0), "true effect", 1e-12, 1e-12)
        return {k, c["cohorts"], f"frac{c['frac']}"}
    start = kw.get("treatment_period", kw.get("n_pre"))
    post = (d["period"] >= start)
    ever = d["treat"] if k == "factor" else d["treated"]
    check((ever.groupby(d["unit"]).nunique() == 1).all(), "treatment group varies within a unit")
    nt = int(ever.groupby(d["unit"]).first().sum())
    if k == "factor":
        check(nt == kw["n_treated"] and (d["treated"] == ever * post).all(), "treatment indicator")
        check(set(d.loc[ever == 1, "unit"]) == set(range(nt)), "the treated are the first units")
    else:
        check(abs(nt - N * c["frac"]) < 1, f"{nt} treated of {N} at fraction {c['frac']}")
        check((d["post"] == post).all(), "post indicator")
    if k == "event":
        check((d["event_time"] == d["period"] - start).all(), "event time")
    eq_arr(d["true_effect"], np.where(post & (ever == 1), te, 0.0), "true effect", 0, 0)
    if 0 < nt < N:
        return {k, f"frac{c['frac']}"}


@facet(P, "outcome_model", case, 900, rule="with a fixed seed the outcome is exactly the documented mean plus unit effect (constant within unit), factors of the stated rank, covariates and noise: switching each off, scaling it or changing the effect moves the outcome exactly as documented")
def outcome_model(c):
    kw, k = kwargs(c), c["kind"]
    d = gen(c)
    tol = dict(rtol=1e-9, atol=1e-9)
    m = mean_part(c, d, kw)
    quiet = gen(c, noise_sd=0.0)
    y0 = quiet["outcome"].to_numpy()
    r = y0 - mean_part(c, quiet, kw).to_numpy()
    if k == "ddd":
        eq_arr(r, np.zeros(len(r)), "noise-free outcome minus the documented model", **tol)
    else:
        N = kw["n_units"]
        T = len(d) // N
        R = quiet.assign(r=r).pivot(index="unit", columns="period", values="r").to_numpy()
        if k == "factor":
            none = gen(c, noise_sd=0.0, factor_strength=0.0)
            A = none.assign(r=none["outcome"] - mean_part(c, none, kw)).pivot(index="unit", columns="period", values="r").to_numpy()
            check(np.abs(A - A[:, :1]).max() < 1e-9, "unit effect varies over time")
            L = R - A
            sv = np.linalg.svd(L, compute_uv=False)
            check((sv[kw["n_factors"]:] < 1e-9 * (1 + (sv[0] if len(sv) else 0))).all(), f"interactive part has rank above {kw['n_factors']}: {sv}")
            one = gen(c, noise_sd=0.0, factor_strength=1.0)
            L1 = (one["outcome"] - none["outcome"]).to_numpy().reshape(N, T)
            eq_arr(L, kw["factor_strength"] * L1, "interactive part is not proportional to its strength", **tol)
            base = gen(c, noise_sd=0.0, factor_strength=1.0, treated_loading_shift=0.0)
            D = (one["outcome"] - base["outcome"]).to_numpy().reshape(N, T)
            check(np.abs(D[kw["n_treated"]:]).max(initial=0) < 1e-9 and np.abs(D[: kw["n_treated"]] - D[0]).max() < 1e-9, "the loading shift must move all treated units alike and no control")
            a0 = gen(c, noise_sd=0.0, factor_strength=0.0, unit_fe_sd=0.0)
            a0 = (a0["outcome"] - mean_part(c, a0, kw)).to_numpy().reshape(N, T)[:, 0]
            eq_arr(a0, (np.arange(N) < kw["n_treated"]) * 1.0, "baseline difference of treated units", **tol)
            if kw["unit_fe_sd"] > 0:
                dbl = gen(c, noise_sd=0.0, factor_strength=0.0, unit_fe_sd=2 * kw["unit_fe_sd"])
                u2 = (dbl["outcome"] - mean_part(c, dbl, kw)).to_numpy().reshape(N, T)[:, 0] - a0
                eq_arr(u2, 2 * (A[:, 0] - a0), "unit effects are not proportional to their spread", **tol)
        else:
            check(np.abs(R - R[:, :1]).max() < 1e-9, "noise-free outcome is not documented mean plus unit effect")
            flat = gen(c, noise_sd=0.0, unit_fe_sd=0.0)
            eq_arr(flat["outcome"], mean_part(c, flat, kw), "outcome without unit effects and noise", **tol)
            if kw["unit_fe_sd"] > 0:
                dbl = gen(c, noise_sd=0.0, unit_fe_sd=2 * kw["unit_fe_sd"])
                eq_arr(dbl["outcome"] - flat["outcome"], 2 * (quiet["outcome"] - flat["outcome"]), "unit effects are not proportional to their spread", **tol)
                check(np.abs(R[:, 0]).max() > 1e-6, "no unit effects")
    # noise
    e = (d["outcome"] - quiet["outcome"]).to_numpy()
    e2 = (gen(c, noise_sd=2 * kw["noise_sd"])["outcome"] - quiet["outcome"]).to_numpy()
    eq_arr(e2, 2 * e, "noise is not proportional to its spread", **tol)
    if kw["noise_sd"] > 0:
        check((np.abs(e) > 0).mean() > 0.99, "some rows have no noise")
    # effect
    o = gen(c, treatment_effect=kw["treatment_effect"] + 2.0)
    eq_arr(o["outcome"] - d["outcome"], o["true_effect"] - d["true_effect"], "the outcome does not move with the effect", **tol)
    if (o["true_effect"] != d["true_effect"]).any():
        return {k, f"te{c['te']}", f"fe{c['fe']}", f"noise{c['noise']}"}


dist = st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(GEN)), noise=st.sampled_from([0.5, 2.0]), fe=st.sampled_from([0.5, 3.0]), gseed=st.integers(0, 2**31 - 1)))


def moments(x, sd, what):
    n = len(x)
    check(abs(x.mean()) < 6 * sd / math.sqrt(n), f"{what}: mean {x.mean()} with sd {sd} and n={n}")
    v = np.mean(x ** 2) / sd ** 2
    check(abs(v - 1) < 6 * math.sqrt(2 / n) + 36 / n, f"{what}: mean square {v} of the nominal variance, n={n}")
    p = stats.kstest(x / sd, "norm").pvalue
    check(p > 1e-8, f"{what}: not normal (KS p={p})")


@facet(P, "distribution", dist, 60, rule="larger samples: recovered noise and unit effects are centred normal with the stated spread, uncorrelated within units and with treatment, cohorts are drawn uniformly, covariates have the stated distribution (6-sigma bounds)")
def distribution(c):
    k = c["kind"]
    base = dict(did=dict(n_units=300, n_periods=6), stag=dict(n_units=300, n_periods=8, cohort_periods=[2, 4, 5]), factor=dict(n_units=200, n_pre=4, n_post=4, n_treated=60), ddd=dict(n_per_cell=200, add_covariates=True), panel=dict(n_units=300, n_periods=6), event=dict(n_units=300, n_pre=3, n_post=3))[k]
    if k != "ddd":
        base["unit_fe_sd"] = c["fe"]
    f = lambda **o: GEN[k](**{**base, "noise_sd": c["noise"], **o}, seed=c["gseed"])
    d, q = f(), f(noise_sd=0.0)
    e = (d["outcome"] - q["outcome"]).to_numpy()
    moments(e, c["noise"], "noise")
    ac = np.mean(e[1:] * e[:-1]) / c["noise"] ** 2
    check(abs(ac) < 6 / math.sqrt(len(e)), f"successive noise terms are correlated: {ac}")
    tr = d["treat"] if "treat" in d else d["group"] if k == "ddd" else d["treated"]
    n1 = tr.sum()
    check(abs(e[tr == 1].mean() - e[tr == 0].mean()) < 6 * c["noise"] * math.sqrt(1 / n1 + 1 / (len(e) - n1)), "noise differs between the groups")
    if k == "ddd":
        moments((d["age"].to_numpy() - 40) / 10, 1.0, "age")
        n = d["education"].value_counts()
        for v, p in ((12, 0.3), (14, 0.3), (16, 0.25), (18, 0.15)):
            check(abs(n.get(v, 0) - len(d) * p) < 6 * math.sqrt(len(d) * p * (1 - p)), f"education {v}: {n.get(v, 0)} of {len(d)}")
    else:
        z = f(noise_sd=0.0, unit_fe_sd=0.0)
        u = (q["outcome"] - z["outcome"]).groupby(d["unit"]).first().to_numpy()
        moments(u, c["fe"], "unit effects")
    if k == "stag":
        n = d.groupby("unit")["first_treat"].first().value_counts()
        m = 210
        for g in (2, 4, 5):
            check(abs(n.get(g, 0) - m / 3) < 6 * math.sqrt(m * 2 / 9), f"cohort {g} has {n.get(g, 0)} of {m} treated units")
    return {k}


bad = st.fixed_dictionaries(dict(which=st.integers(0, 12), T=st.integers(1, 8)))


@facet(P, "arguments", bad, 300, rule="impossible designs raise: cohorts outside the panel, no or too many treated units, treatment outside the periods; default cohorts exist for every panel with at least two periods; names re-exported by prep and the package are the same functions")
def arguments(c):
    w, T = c["which"], c["T"]
    import diff_diff
    for n, f in GEN.items():
        check(getattr(prep, f.__name__) is f and getattr(diff_diff, f.__name__, f) is f, f"{f.__name__} differs between modules")
    if w == 0:
        return raises(lambda: generate_staggered_data(n_units=5, n_periods=T, cohort_periods=[T]), what="cohort after the panel") and {"raise"}
    if w == 1:
        return raises(lambda: generate_staggered_data(n_units=5, n_periods=T, cohort_periods=[0]), what="cohort 0") and {"raise"}
    if w == 2:
        return raises(lambda: generate_factor_data(n_units=5, n_treated=6), what="more treated than units") and {"raise"}
    if w == 3:
        return raises(lambda: generate_factor_data(n_units=5, n_treated=0), what="no treated units") and {"raise"}
    if w == 4:
        return raises(lambda: generate_panel_data(n_units=5, n_periods=T, treatment_period=T), what="treatment after the panel") and {"raise"}
    if w == 5:
        return raises(lambda: generate_panel_data(n_units=5, n_periods=T, treatment_period=0), what="treatment in the first period") and {"raise"}
    if T >= 2:
        d = generate_staggered_data(n_units=6, n_periods=T, never_treated_frac=0.0, seed=1)
        check(d["first_treat"].between(1, T - 1).all(), f"default cohorts {sorted(d['first_treat'].unique())} in {T} periods")
        return {f"T{T}"}
