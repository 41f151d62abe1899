"""P12 - Triple difference."""
import itertools
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref
from harness.csref import logit_mle
from diff_diff import TripleDifference, triple_difference

P = "P12"
base = dict(cells=st.lists(st.integers(1, 9), min_size=8, max_size=8), extra=mostly(0, 40, 300), noise=gen.noise, pres=gen.presentation, alpha=gen.alphas,
            method=st.sampled_from(["reg", "ipw", "dr"]), cl=st.sampled_from(["no", "no", "yes"]), G=mostly(2, 9, 40), robust=st.sampled_from([True, True, False]),
            dtype=st.sampled_from(["int", "float", "bool"]), helper=st.booleans(), seed=seeds)


def build(c, ncov=0, minc=1, linear=False):
    r = rng_of(c)
    L = []
    for k, (g, p, t) in enumerate(itertools.product([0, 1], repeat=3)):
        L += [(g, p, t)] * max(minc, c["cells"][k])
    for _ in range(c["extra"]):
        L.append((int(r.random() < .4), int(r.random() < .6), int(r.random() < .5)))
    A = np.array(L)
    g, p, t = A.T
    n = len(A)
    df = pd.DataFrame(dict(g=g, p=p, t=t))
    y = 3 + g - p + .5 * t + g * p + .3 * g * t - .7 * p * t + 2 * g * p * t
    for j in range(ncov):
        x = r.normal(size=n) + .4 * g - .3 * p + .2 * t
        y = y + x * (j + 1) * (1 if linear else 1 + .5 * np.sin(x))
        df[f"x{j}"] = x * c.get("xs", 1.0) + c.get("xl", 0.0)
    cl = np.concatenate([np.arange(min(c["G"], n)), r.integers(0, c["G"], n)])[:n]
    r.shuffle(cl)
    df["cl"] = [f"c{v}" for v in cl] if c["seed"] % 2 else cl * 7 - 3
    e = gen.shock(c["noise"], r, n)
    df["y"] = (y if not linear else 0) + e + r.normal(size=c["G"] + 1)[cl]
    df[["g", "p", "t"]] = df[["g", "p", "t"]].astype({"int": int, "float": float, "bool": bool}[c["dtype"]])
    return gen.present(df, c["pres"], r)


def fit(c, df, covs=None, **kw):
    kw = dict(dict(estimation_method=c["method"], robust=c["robust"], cluster="cl" if c["cl"] == "yes" else None, alpha=c["alpha"]), **kw)
    if c["helper"] and "pscore_trim" not in kw:
        kw = doc(c, **kw)
        return triple_difference(df, "y", "g", "p", "t", covariates=covs, **kw)
    return TripleDifference(**doc(c, **kw)).fit(df, "y", "g", "p", "t", covariates=covs)


CELLS = [(1, 1, 1.0), (1, 0, -1.0), (0, 1, -1.0), (0, 0, 1.0)]


def weighted(z, w, G, Pp, T, cl):
    """signed sum of weighted cell means of z and its influence-function SE"""
    n, att, inf = len(z), 0.0, np.zeros(len(z))
    for g, p, s in CELLS:
        for t in (0, 1):
            m = (G == g) & (Pp == p) & (T == t)
            h = w[g, p][m] / w[g, p][m].sum()
            mu = h @ z[m]
            sg = s * (1 if t else -1)
            att += sg * mu
            inf[m] = sg * h * (z[m] - mu)
    if cl is not None:
        s = pd.Series(inf).groupby(pd.Series(cl)).sum().values
        return att, np.sqrt(len(s) / (len(s) - 1) * (s ** 2).sum())
    return att, np.sqrt(n / (n - 1) * (inf ** 2).sum())


def verify(res, c, df, covs, att, se, sc, tol=1e-7):
    n = len(df)
    eq(res.att, att, "ATT", tol, tol * sc)
    g, p, t = (df[k].to_numpy(float) for k in "gpt")
    y = df["y"].to_numpy(float)
    check(res.n_obs == n and res.estimation_method == c["method"], "metadata")
    check((res.n_treated_eligible, res.n_treated_ineligible, res.n_control_eligible, res.n_control_ineligible) == tuple(int(((g == a) & (p == b)).sum()) for a, b, _ in CELLS), "cell counts")
    for a, an in ((1, "Treated"), (0, "Control")):
        for b, bn in ((1, "Eligible"), (0, "Ineligible")):
            for k, tn in ((0, "Pre"), (1, "Post")):
                eq(res.group_means[f"{an}, {bn}, {tn}"], y[(g == a) & (p == b) & (t == k)].mean(), "cell mean", 1e-9, 1e-9)
    check(res.n_clusters == (df["cl"].nunique() if c["cl"] == "yes" else None), "number of clusters")
    if se is None or isnan(se):
        for v in (res.t_stat, res.p_value, *res.conf_int):
            check(isnan(v), "inference must be NaN when the standard error is undefined")
    elif se > 1e-6 * sc:
        eq(res.se, se, "SE", max(tol * 10, 1e-6), 1e-9 * sc)
        d = max(n - 8 - len(covs or []), 1)
        eq(res.t_stat, res.att / res.se, "t", 1e-9)
        eq(res.p_value, ref.pval(res.att / res.se, d), "p", 1e-6, 1e-12)
        h = ref.crit(c["alpha"], d) * res.se
        eq_arr(res.conf_int, [res.att - h, res.att + h], "CI", 1e-7, 1e-9 * sc)


def full_design(df, covs):
    g, p, t = (df[k].to_numpy(float) for k in "gpt")
    return np.column_stack([np.ones(len(df)), g, p, t, g * p, g * t, p * t, g * p * t] + [df[x].to_numpy(float) for x in covs])


def reg_oracle(c, df, covs):
    y = df["y"].to_numpy(float)
    cl = c["cl"] == "yes"
    R = ref.reg(full_design(df, covs), y, "cluster" if cl else ("hc1" if c["robust"] else "classical"), df["cl"].tolist() if cl else None)
    se = np.sqrt(R["vcov"][7, 7])
    if not isnan(se) and np.max(np.abs(R["resid"])) < 1e-8 * np.ptp(y):
        return R["coef"][7], 0.0, R
    return R["coef"][7], se, R


@facet(P, "cells", st.fixed_dictionaries(base), 900, rule="no covariates, arbitrary cell sizes: every method is exactly the eight-cell contrast; SE of each method, cluster sums, df, cell means and counts recomputed")
def cells(c):
    df = build(c)
    res = fit(c, df)
    y = df["y"].to_numpy(float)
    g, p, t = (df[k].to_numpy(float) for k in "gpt")
    one = {k[:2]: np.ones(len(df)) for k in CELLS}
    cl = df["cl"].values if c["cl"] == "yes" else None
    att, se = weighted(y, one, g, p, t, cl)
    if c["method"] == "reg":
        a2, se, R = reg_oracle(c, df, [])
        check(abs(a2 - att) < 1e-6 * (np.ptp(y) + 1), "oracle")
        if se > 0:
            eq(res.r_squared, 1 - (R["resid"] ** 2).sum() / ((y - y.mean()) ** 2).sum(), "R2", 1e-6, 1e-9)
    verify(res, c, df, None, att, se, np.abs(y).max() if c["noise"] != "big" else np.abs(y).max())
    return [c["method"], "cl" + c["cl"]]


cov = dict(base, cells=st.lists(st.integers(1, 12), min_size=8, max_size=8), ncov=st.integers(1, 2), xs=st.sampled_from([1.0, 1.0, 0.01, 500.0]), xl=st.sampled_from([0.0, 0.0, 30.0]),
           trim=st.sampled_from([.01, .01, .1, .3]), coll=st.sampled_from([False, False, True]), minc=st.sampled_from([6, 6, 1]), noise=st.sampled_from(["gauss", "int", "heavy", "hetero", "shift"]))


def pscores(df, covs, trim):
    X = df[covs].to_numpy(float)
    g, p = df["g"].to_numpy(float), df["p"].to_numpy(float)
    pg, pp = logit_mle(X, g), logit_mle(X, p)
    assume(pg is not None and pp is not None)
    pg, pp = np.clip(pg, trim, 1 - trim), np.clip(pp, trim, 1 - trim)
    cell = {(1, 1): pg * pp, (1, 0): pg * (1 - pp), (0, 1): (1 - pg) * pp, (0, 0): (1 - pg) * (1 - pp)}
    cell = {k: np.clip(v, trim, 1 - trim) for k, v in cell.items()}
    return {k: cell[1, 1] / cell[k] if k != (1, 1) else np.ones(len(df)) for k in cell}, pg, pp


@facet(P, "covariates", st.fixed_dictionaries(cov), 600, rule="covariates (rescaled, shifted, possibly collinear), trimming: regression, weighting and augmented estimators recomputed independently")
def covariates(c):
    df = build(c, c["ncov"], c["minc"])
    covs = [f"x{j}" for j in range(c["ncov"])]
    ind = list(covs)
    if c["coll"]:
        df["xc"] = df["x0"] * 2 + 1
        covs = covs + ["xc"]
    y = df["y"].to_numpy(float)
    sc = np.abs(y).max()
    g, p, t = (df[k].to_numpy(float) for k in "gpt")
    res = fit(c, df, covs, pscore_trim=c["trim"])
    cl = df["cl"].values if c["cl"] == "yes" else None
    if c["method"] == "reg":
        att, se, R = reg_oracle(c, df, covs)
        verify(res, c, df, covs, att, se, sc, 1e-6)
        return [c["method"], f"coll{c['coll']}"]
    w, pg, pp = pscores(df, ind, c["trim"])
    z = y.copy()
    if c["method"] == "dr":
        X1 = np.column_stack([np.ones(len(df)), df[ind].to_numpy(float)])
        mu = {}
        for a, b, _ in CELLS:
            for k in (0, 1):
                m = (g == a) & (p == b) & (t == k)
                if m.sum() < X1.shape[1] + c["coll"]:  # fewer observations than parameters: the cell mean
                    mu[a, b, k] = np.full(len(y), y[m].mean())
                    continue
                Z = np.column_stack([np.ones(m.sum()), (df[ind].to_numpy(float)[m] - c["xl"]) / c["xs"]])
                assume(np.linalg.cond(Z) < 200)
                mu[a, b, k] = X1 @ ref.ols(X1[m], y[m])
        tt = t.astype(int)
        at = lambda a, b: np.where(tt == 1, mu[a, b, 1], mu[a, b, 0])
        for a, b, _ in CELLS:
            m = (g == a) & (p == b)
            z[m] = (y - (at(1, 0) + at(0, 1) - at(0, 0) if (a, b) == (1, 1) else at(a, b)))[m]
    att, se = weighted(z, w, g, p, t, cl)
    verify(res, c, df, covs, att, se, sc, 2e-4)
    eq(res.pscore_stats["P(G=1) mean"], pg.mean(), "pscore mean", 1e-4, 1e-5)
    eq(res.pscore_stats["P(P=1) std"], pp.std(), "pscore sd", 1e-3, 1e-4)
    return [c["method"], f"coll{c['coll']}", f"trim{c['trim']}", f"xs{c['xs']}", "cl" + c["cl"]]


@facet(P, "robust_to_one_model", st.fixed_dictionaries(dict(cov, method=st.just("dr"), tau=st.sampled_from([-2.0, 0.0, 1.5]))), 200,
       rule="outcome exactly linear in covariates with slopes differing by cell and period, arbitrary selection: doubly robust returns the average effect exactly")
def robust_to_one_model(c):
    df = build(dict(c, xs=1.0, xl=0.0, noise="gauss"), c["ncov"], max(c["minc"], c["ncov"] + 1))
    r = rng_of(c, 9)
    for _, d in df.groupby(["g", "p", "t"]):
        assume(np.linalg.cond(np.column_stack([np.ones(len(d)), d[[f"x{j}" for j in range(c["ncov"])]].to_numpy(float)])) < 1e4)
    X = df[[f"x{j}" for j in range(c["ncov"])]].to_numpy(float)
    g, p, t = (df[k].to_numpy(int) for k in "gpt")
    B = r.normal(size=(2, 2, 2, c["ncov"] + 1))
    # counterfactual of the treated cell is the sum of the other three models
    for k in (0, 1):
        B[1, 1, k] = B[1, 0, k] + B[0, 1, k] - B[0, 0, k]
    B[1, 1, 1, 0] += c["tau"]
    X1 = np.column_stack([np.ones(len(df)), X])
    df["y"] = (X1 * B[g, p, t]).sum(1)
    res = fit(dict(c, cl="no"), df, [f"x{j}" for j in range(c["ncov"])])
    eq(res.att, c["tau"], "average effect", 1e-6, 1e-6 * np.abs(df["y"]).max())
    return [f"ncov{c['ncov']}"]


@facet(P, "rejects", st.fixed_dictionaries(dict(base, what=st.sampled_from(["cell", "nonbinary", "missing", "covnan", "onlyone", "cluster"]))), 60, rule="an empty cell, a non-binary or constant indicator, missing values and an unknown cluster column raise ValueError")
def rejects(c):
    df = build(dict(c, dtype="float"), 1)
    covs = None
    r = rng_of(c, 3)
    w = c["what"]
    col = "gpt"[int(r.integers(3))]
    df = df.reset_index(drop=True)
    kw = {}
    if w == "cell":
        a, b, k = r.integers(0, 2, 3)
        df = df[~((df.g == a) & (df.p == b) & (df.t == k))]
    elif w == "nonbinary":
        df.loc[int(r.integers(len(df))), col] = 2.0
    elif w == "missing":
        df.loc[int(r.integers(len(df))), "ygpt"[int(r.integers(4))]] = np.nan
    elif w == "covnan":
        covs = ["x0"]
        df.loc[int(r.integers(len(df))), "x0"] = np.nan
    elif w == "onlyone":
        df = df[df[col] == 1]
    else:
        kw["cluster"] = "no_such_column"
    raises(lambda: fit(c, df, covs, **kw), (ValueError,), w)
    return [w]
