"""P03 - MultiPeriodDiD equals the documented period-interacted regression."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref
from diff_diff import MultiPeriodDiD

P = "P03"
case_st = st.fixed_dictionaries(dict(
    T=mostly(2, 7, 13), per=st.lists(st.integers(1, 6), min_size=14, max_size=14), ncov=st.integers(0, 2),
    labels=st.sampled_from(["range", "years", "gaps", "neg", "str", "float", "date"]),
    post=st.sampled_from(["default", "tail", "tail", "subset", "reversed"]), refp=st.sampled_from(["default", "default", "pre", "post"]),
    cut=st.integers(0, 20), bits=st.integers(0, 2**13 - 1), rr=st.integers(0, 20),
    dupcov=st.sampled_from(["", "", "", "scale", "const"]), fe=st.sampled_from(["none", "none", "fe", "absorb"]), G=st.integers(2, 5), noise=gen.noise,
    se=st.sampled_from(["hc1", "classical", "cluster", "cluster"]), alpha=gen.alphas, pres=gen.presentation,
    dtype=st.sampled_from(["int", "float", "bool"]), seed=seeds))


def labels(kind, T, r):
    if kind == "years":
        return list(range(2001, 2001 + T))
    if kind == "gaps":
        return sorted(int(v) for v in r.choice(60, T, replace=False))
    if kind == "neg":
        return list(range(-(T // 2), T - T // 2))
    if kind == "str":
        return [f"q{i:02d}" for i in range(T)]
    if kind == "float":
        return [i + 0.5 for i in range(T)]
    if kind == "date":
        return list(pd.date_range("2020-01-01", periods=T, freq="QS"))
    return list(range(T))


def build(c):
    r = rng_of(c)
    T = c["T"]
    labs = labels(c["labels"], T, r)
    D, t = [], []
    for k in range(T):
        for d in (0, 1):
            m = c["per"][(2 * k + d) % len(c["per"])]
            D += [d] * m
            t += [k] * m
    D, t = np.array(D), np.array(t)
    n = len(D)
    idx = list(range(T))
    if c["post"] == "default":
        post_idx = idx[T // 2:]
    elif c["post"] in ("tail", "reversed"):
        post_idx = idx[1 + c["cut"] % (T - 1):]
        if c["post"] == "reversed":
            post_idx = post_idx[::-1]
    else:
        post_idx = [k for k in idx if c["bits"] >> k & 1] or [T - 1]
        if len(post_idx) == T:
            post_idx = post_idx[1:]
    pre_idx = [k for k in idx if k not in post_idx]
    ri = pre_idx[0]
    if c["refp"] == "pre":
        ri = pre_idx[c["rr"] % len(pre_idx)]
    elif c["refp"] == "post":
        ri = idx[c["rr"] % T]
    g = r.integers(0, c["G"], n)
    eff = r.normal(size=T) * 2
    y = 3 + 1.5 * D + 0.8 * t + D * np.isin(t, post_idx) * eff[t] + 0.6 * g + gen.shock(c["noise"], r, n)
    df = pd.DataFrame(dict(d=D, p=[labs[k] for k in t], g=[f"s{v}" for v in g]))
    for j in range(c["ncov"]):
        df[f"x{j}"] = r.normal(size=n) + 0.3 * D
        y = y + (j + 1) * df[f"x{j}"].to_numpy()
    df["y"] = y
    Gc = min(n, 6)
    cl = np.concatenate([np.arange(Gc), r.integers(0, Gc, n - Gc)])
    r.shuffle(cl)
    df["cl"] = cl
    df["d"] = df["d"].astype({"int": int, "float": float, "bool": bool}[c["dtype"]])
    return gen.present(df, c["pres"], r), labs, pre_idx, post_idx, ri


@facet(P, "regression", case_st, 2400, rule="2-7 periods with arbitrary labels, any post set/order and reference, unbalanced "
       "cells, covariates, dummy or absorbed fixed effects, SE kinds; every period effect, average, CI, counts vs reference")
def regression(c):
    df, labs, pre_idx, post_idx, ri = build(c)
    n, T = len(df), c["T"]
    d, y = df["d"].to_numpy(float), df["y"].to_numpy(float)
    pos = {l: k for k, l in enumerate(labs)}
    t = np.array([pos[v] for v in df["p"]])
    covs = [f"x{j}" for j in range(c["ncov"])]
    names = ["const", "d"] + [f"period_{labs[k]}" for k in range(T) if k != ri]
    cols = [np.ones(n), d] + [(t == k).astype(float) for k in range(T) if k != ri]
    first = len(cols)
    order = list(post_idx)
    cols += [d * (t == k) for k in order]
    names += [f"d:period_{labs[k]}" for k in order]
    cols += [df[x].to_numpy(float) for x in covs]
    names += covs
    F = ref.dummies(df["g"].tolist())
    if c["fe"] == "fe":
        cols += list(F.T)
    X = np.column_stack(cols)
    full = X if c["fe"] != "absorb" else np.column_stack([X, F])
    keep, _ = ref.indep_columns(full)
    k = len(keep)
    assume(n > k + 1 and k == full.shape[1])
    yr, Xr = y, X
    n_abs = 0
    if c["fe"] == "absorb":
        n_abs = df["g"].nunique() - 1
        Z = np.column_stack([np.ones(n), F])
        _, Q = ref.indep_columns(Z)
        pr = lambda v: v - Q @ (Q.T @ v)
        yr, Xr = pr(y), np.column_stack([np.ones(n), pr(X[:, 1:])])
    R = ref.reg(Xr, yr, "cluster" if c["se"] == "cluster" else c["se"], df["cl"].tolist())
    assume(R["k_eff"] == X.shape[1] and n - R["k_eff"] - n_abs > 0)
    est = MultiPeriodDiD(**doc(c, robust=c["se"] != "classical", cluster="cl" if c["se"] == "cluster" else None, alpha=c["alpha"]))
    if c["dupcov"]:  # a covariate that adds nothing: the period effects and their inference must not move
        df["xdup"] = 3.0 if c["dupcov"] == "const" or not covs else 2 * df["x0"] - 1
        est.rank_deficient_action = "silent"
    kw = dict(covariates=(covs + (["xdup"] if c["dupcov"] else [])) or None)
    if c["fe"] != "none":
        kw["fixed_effects" if c["fe"] == "fe" else "absorb"] = ["g"]
    if c["post"] != "default":
        kw["post_periods"] = [labs[i] for i in order]
    if c["refp"] != "default":
        kw["reference_period"] = labs[ri]
    res = est.fit(df, outcome="y", treatment="d", time="p", **kw)
    dof = n - R["k_eff"] - n_abs
    sc = np.max(np.abs(R["resid"])) + np.max(np.abs(R["coef"][1:]))
    check(list(res.post_periods) == [labs[i] for i in order], "post_periods")
    check(list(res.pre_periods) == [labs[i] for i in pre_idx], "pre_periods")
    check(set(res.period_effects) == {labs[i] for i in order}, "period_effects keys")
    idx = []
    for j, i in enumerate(order):
        a = first + j
        idx.append(a)
        e = res.get_effect(labs[i])
        b, s = R["coef"][a], np.sqrt(R["vcov"][a, a])
        eq(e.effect, b, f"effect {i}", 1e-7, 1e-7 * sc)
        check(e.period == labs[i], "period label")
        if s > 1e-6 * sc:
            eq(e.se, s, f"SE {i}", 1e-6)
            eq(e.t_stat, b / s, f"t {i}", 1e-5, 1e-6)
            eq(e.p_value, ref.pval(b / s, dof), f"p {i}", 1e-4, 1e-9)
            h = ref.crit(c["alpha"], dof) * s
            eq_arr(e.conf_int, [b - h, b + h], f"CI {i}", 1e-6, 1e-7 * sc)
    m = len(idx)
    b = R["coef"][idx].mean()
    eq(res.avg_att, b, "avg ATT", 1e-7, 1e-7 * sc)
    v = R["vcov"][np.ix_(idx, idx)].sum() / m ** 2
    if v > (1e-6 * sc) ** 2:
        s = np.sqrt(v)
        eq(res.avg_se, s, "avg SE", 1e-6)
        eq(res.avg_t_stat, b / s, "avg t", 1e-5, 1e-6)
        eq(res.avg_p_value, ref.pval(b / s, dof), "avg p", 1e-4, 1e-9)
        h = ref.crit(c["alpha"], dof) * s
        eq_arr(res.avg_conf_int, [b - h, b + h], "avg CI", 1e-6, 1e-7 * sc)
        check(res.is_significant == (res.avg_p_value < c["alpha"]), "is_significant")
    check(res.n_obs == n and res.n_treated == int(d.sum()) and res.n_control == n - int(d.sum()), "counts")
    check(res.alpha == c["alpha"], "alpha")
    ysc = np.max(np.abs(y))
    Rf = ref.reg(full, y, "hc1")
    eq_arr(res.residuals, Rf["resid"], "residuals", atol=1e-7 * ysc)
    if c["fe"] == "absorb":
        pass
    else:
        eq_arr(res.fitted_values, R["fitted"], "fitted", atol=1e-7 * ysc)
        for nm, bb in zip(names, R["coef"]) if not c["dupcov"] else ():
            eq(res.coefficients[nm], bb, f"coefficient {nm}", 1e-6, 1e-7 * ysc)
        sst = ((y - y.mean()) ** 2).sum()
        if sst > 0:
            eq(res.r_squared, 1 - R["resid"] @ R["resid"] / sst, "R2", atol=1e-7)
    if not covs and c["fe"] == "none":
        # interaction coefficients are double differences against pooled pre-periods
        pre = np.isin(t, pre_idx)
        if len(pre_idx) == 1:
            for j, i in enumerate(order):
                mm = lambda a, w: y[(d == a) & w].mean()
                dd = mm(1, t == i) - mm(1, pre) - mm(0, t == i) + mm(0, pre)
                eq(res.get_effect(labs[i]).effect, dd, "double difference", 1e-6, 1e-7 * ysc)
    return [c["se"], c["fe"], c["post"], c["labels"], f"cov{c['ncov']}", "dup" + c["dupcov"]]


@facet(P, "unidentified", st.tuples(seeds, st.integers(3, 6), st.sampled_from(["treated", "control"])).map(list), 120,
       rule="one post period has no treated (or no control) rows: effects that are not identified are NaN and poison the average; others stay correct")
def unidentified(a):
    seed, T, side = a
    r = np.random.default_rng(seed)
    D, t = [], []
    bad = T - 1
    for k in range(T):
        for d in (0, 1):
            if k == bad and d == (1 if side == "treated" else 0):
                continue
            m = int(r.integers(2, 6))
            D += [d] * m
            t += [k] * m
    df = pd.DataFrame(dict(d=D, t=t, y=r.normal(size=len(D)) * 2 + np.array(t)))
    post = list(range(max(1, T // 2), T))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = MultiPeriodDiD(rank_deficient_action="silent").fit(df, "y", "d", "t", post_periods=post)
    e = res.get_effect(bad)
    check(all(isnan(v) for v in (res.avg_att, res.avg_se, res.avg_t_stat, res.avg_p_value)),
          f"average defined although period {bad} is not: {res.avg_att}")
    check(isnan(e.effect), f"effect without {side} rows: {e}")
    check(isnan(e.se) and isnan(e.p_value) and isnan(e.t_stat), "inference for an unidentified effect")
    # the remaining interactions equal the regression without the bad period
    ok = df[df.t != bad]
    if len(post) > 1:
        r2 = MultiPeriodDiD().fit(ok, "y", "d", "t", post_periods=post[:-1])
        for p in post[:-1]:
            eq(res.get_effect(p).effect, r2.get_effect(p).effect, f"effect {p}", atol=1e-7)
    return [side, f"post{len(post)}"]
