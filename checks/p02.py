"""P02 - basic 2x2 DiD equals the interacted regression it documents."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref
from diff_diff import DifferenceInDifferences

P = "P02"
case_st = st.fixed_dictionaries(dict(
    n=mostly(5, 60, 400), cells=st.lists(st.integers(1, 6), min_size=4, max_size=4), ncov=st.integers(0, 2),
    fe=st.sampled_from(["none", "none", "one", "two"]), G=mostly(2, 6, 30), noise=gen.noise,
    se=st.sampled_from(["hc1", "classical", "cluster", "cluster_classical"]), alpha=gen.alphas,
    pres=gen.presentation, dtype=st.sampled_from(["int", "float", "bool", "npint8"]),
    call=st.sampled_from(["args", "star", "colon", "positional"]), clt=st.sampled_from(["int", "str"]), clash=st.sampled_from([False, False, True]), dupcov=st.sampled_from(["", "", "", "scale", "const"]),
    ys=st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e5]), xn=st.sampled_from(["plain", "plain", "part", "part2", "super"]),
    names=st.sampled_from([["y", "d", "t"], ["out", "treated", "post"], ["wage", "tr", "po"], ["out come", "treated", "post"], ["Y", "treat.ed", "after"]]), seed=seeds))


def build(c):
    r = rng_of(c)
    D, T = [], []
    for k, (d, t) in enumerate([(0, 0), (0, 1), (1, 0), (1, 1)]):
        D += [d] * c["cells"][k]
        T += [t] * c["cells"][k]
    extra = max(0, c["n"] - len(D))
    D = np.array(D + list(r.integers(0, 2, extra)))
    T = np.array(T + list(r.integers(0, 2, extra)))
    n = len(D)
    df = pd.DataFrame(dict(d=D, t=T))
    y = 1.0 + 2 * D - T + 1.5 * D * T + gen.shock(c["noise"], r, n)
    for j in range(c["ncov"]):
        df[f"x{j}"] = r.normal(size=n) + 0.5 * D * (j + 1)
        y = y + df[f"x{j}"].to_numpy() * (j + 1)
    if c["dupcov"]:
        df["xdup"] = 3.0 if c["dupcov"] == "const" or not c["ncov"] else 2 * df["x0"] - 1
    G = c["G"]
    g1 = r.integers(0, G, n)
    df["g1"] = [f"s{v}" for v in g1] if c["clt"] == "str" else g1 * 3 + 1
    df["g2"] = r.integers(0, 3, n)
    df["y"] = (y + 0.7 * g1) * c["ys"]
    cl = np.concatenate([np.arange(min(n, G)), r.integers(0, G, max(0, n - G))])
    r.shuffle(cl)
    df["cl"] = [f"c{v}" for v in cl] if c["clt"] == "str" else cl
    dt = {"int": int, "float": float, "bool": bool, "npint8": np.int8}[c["dtype"]]
    df["d"], df["t"] = df["d"].astype(dt), df["t"].astype(dt)
    yn, dn, tn = c["names"]
    df = df.rename(columns=dict(y=yn, d=dn, t=tn))
    if c["clash"] and c["call"] in ("args", "positional") and c["ncov"]:
        lv = sorted(df["g1"].unique())
        df = df.rename(columns={"x0": f"g1_{lv[c['seed'] % len(lv)]}"})
        # (the other covariates keep the names drawn for them)
    df = df.rename(columns={f"x{j}": n for j, n in enumerate(covnames(c)) if f"x{j}" in df})
    return gen.present(df, c["pres"], r)


def covnames(c):
    """names of the covariates, some of them parts or extensions of the names of the other variables"""
    yn, dn, tn = c["names"]
    taken = set(c["names"]) | {"g1", "g2", "cl", "xdup", "const"}
    out = []
    for j in range(c["ncov"]):
        cand = {"plain": [], "part": [tn[:-1], tn[:1], dn[1:]], "part2": [dn[:2], dn[:-1], tn[1:], yn[:-1]], "super": [dn + "_" + tn, tn + dn, yn + "2", dn + "0"]}[c["xn"]]
        cand = [a for a in cand if a.isidentifier() and a not in taken and a not in out]
        out.append(cand[(c["seed"] + j) % len(cand)] if cand else f"x{j}")
    return out


def xnames(df, c):
    """the covariates; with ``clash``, the first is named like a dummy of the first fixed effect"""
    names = covnames(c)
    return [[x for x in df.columns if x == names[0] or x.startswith("g1_")][0] if j == 0 else names[j] for j in range(c["ncov"])]


def design(df, c, fes):
    yn, dn, tn = c["names"]
    d, t = df[dn].to_numpy(float), df[tn].to_numpy(float)
    covs = xnames(df, c)
    cols = [np.ones(len(df)), d, t, d * t] + [df[x].to_numpy(float) for x in covs]
    for fe in fes:
        cols += list(ref.dummies(df[fe].tolist()).T)
    return np.column_stack(cols), df[yn].to_numpy(float), covs


def compare(res, R, idx, alpha, df_, what=""):
    b, se = R["coef"][idx], np.sqrt(R["vcov"][idx, idx])
    sc = np.max(np.abs(R["resid"])) + abs(b)
    eq(res.att, b, what + "ATT", 1e-7, 1e-8 * sc)
    if se > 1e-6 * sc:
        eq(res.se, se, what + "SE", 1e-6)
        eq(res.t_stat, b / se, what + "t", 1e-5, 1e-6)
        eq(res.p_value, ref.pval(b / se, df_), what + "p", 1e-4, 1e-9)
        h = ref.crit(alpha, df_) * se
        eq_arr(res.conf_int, [b - h, b + h], what + "CI", 1e-6, 1e-8 * sc)
        check(res.is_significant == (res.p_value < alpha), "is_significant")


@facet(P, "regression", case_st, 1200, rule="random 2x2 cell sizes, covariates, dummy fixed effects, SE type, dtypes, index "
       "and call style; ATT, SE, t, p, CI, coefficients, R2, fitted, counts vs reference interacted regression")
def regression(c):
    df = build(c)
    yn, dn, tn = c["names"]
    fes = {"none": [], "one": ["g1"], "two": ["g1", "g2"]}[c["fe"]]
    X, y, covs = design(df, c, fes)
    keep, _ = ref.indep_columns(X)
    n, k = len(y), len(keep)
    assume(n > k + 1 and 3 in keep and n > X.shape[1] + bool(c["dupcov"]))
    # interaction must not be explained by the FE dummies either
    rest, _ = ref.indep_columns(np.delete(X, 3, 1))
    assume(len(rest) == k - 1)
    kind = "cluster" if c["se"].startswith("cluster") else c["se"]
    est = DifferenceInDifferences(**doc(c, robust=c["se"] in ("hc1", "cluster"), cluster="cl" if kind == "cluster" else None,
                                  alpha=c["alpha"], rank_deficient_action="silent"))
    fit = covs + (["xdup"] if c["dupcov"] else [])  # a covariate that adds nothing
    kw = dict(covariates=fit or None, fixed_effects=fes or None)
    if c["call"] == "args":
        res = est.fit(df, outcome=yn, treatment=dn, time=tn, **kw)
    elif c["call"] == "positional":
        res = est.fit(df, yn, dn, tn, **kw)
    else:
        kw.pop("covariates")
        tail = "".join(f" + {x}" for x in fit)
        f = f"{yn} ~ {dn} * {tn}{tail}" if c["call"] == "star" else f"{yn} ~ {dn} + {tn} + {dn}:{tn}{tail}"
        res = est.fit(df, formula=f, **kw)
    R = ref.reg(X, y, kind, df["cl"].tolist())
    compare(res, R, 3, c["alpha"], n - k)
    check(res.n_obs == n and res.n_treated == int(df[dn].sum()) and res.n_control == n - int(df[dn].sum()), "counts")
    check(res.alpha == c["alpha"], "alpha")
    sst = ((y - y.mean()) ** 2).sum()
    if sst > 0:
        eq(res.r_squared, 1 - (R["resid"] @ R["resid"]) / sst, "R2", atol=1e-7)
    ysc = np.max(np.abs(y))
    eq_arr(res.fitted_values, R["fitted"], "fitted values", atol=1e-7 * ysc)
    eq_arr(res.residuals, R["resid"], "residuals", atol=1e-7 * ysc)
    if k == X.shape[1] and not c["dupcov"] and not (fes and c["ncov"] and covs[0] != covnames(c)[0]):
        names = ["const", dn, tn, f"{dn}:{tn}"] + covs
        for i, nm in enumerate(names):
            eq(res.coefficients[nm], R["coef"][i], f"coefficient {nm}", atol=1e-7 * ysc)
        check(len(res.coefficients) == X.shape[1], "number of coefficients")
    if not covs and not fes:
        d, t = df[dn].to_numpy(float), df[tn].to_numpy(float)
        m = lambda a, b: y[(d == a) & (t == b)].mean()
        eq(res.att, m(1, 1) - m(1, 0) - m(0, 1) + m(0, 0), "ATT vs cell means", 1e-7, 1e-7 * ysc)
    check(est.results_ is res and est.is_fitted_, "results_ / is_fitted_")
    return [c["se"], c["fe"], f"cov{c['ncov']}", c["call"]] + (["clash"] if covs and fes and covs[0] != covnames(c)[0] else []) + ([c["xn"]] if covs and c["xn"] != "plain" else [])


@facet(P, "absorb", case_st.filter(lambda c: c["call"] == "args"), 600,
       rule="absorbed fixed effects (1-2 columns, unbalanced) give the same ATT, df and fit as the equivalent dummies; "
       "SE equals the sandwich of the within-transformed regression")
def absorb(c):
    c = dict(c, fe=c["fe"] if c["fe"] != "none" else "one")
    df = build(c)
    yn, dn, tn = c["names"]
    fes = {"one": ["g1"], "two": ["g1", "g2"]}[c["fe"]]
    X, y, covs = design(df, c, fes)
    n = len(y)
    k = len(ref.indep_columns(X)[0])
    rest, _ = ref.indep_columns(np.delete(X, 3, 1))
    assume(n > k + 1 and len(rest) == k - 1 and n > X.shape[1] + bool(c["dupcov"]))
    kind = "cluster" if c["se"].startswith("cluster") else c["se"]
    est = DifferenceInDifferences(**doc(c, robust=c["se"] in ("hc1", "cluster"), cluster="cl" if kind == "cluster" else None,
                                  alpha=c["alpha"], rank_deficient_action="silent"))
    res = est.fit(df, outcome=yn, treatment=dn, time=tn, covariates=covs + (["xdup"] if c["dupcov"] else []) or None, absorb=fes)
    R = ref.reg(X, y, "hc1")
    # within-transformed regression by explicit projection on all dummies
    F = np.column_stack([np.ones(n)] + [ref.dummies(df[fe].tolist()) for fe in fes])
    _, Q = ref.indep_columns(F)
    base = X[:, :4 + len(covs)]
    pr = lambda v: v - Q @ (Q.T @ v)
    Xw, yw = pr(base[:, 1:]), pr(y)
    nrm = np.linalg.norm(base[:, 1:], axis=0)
    Xw[:, np.linalg.norm(Xw, axis=0) < 1e-8 * nrm] = 0
    Xw = np.column_stack([np.ones(n), Xw])
    Rw = ref.reg(Xw, yw, kind, df["cl"].tolist())
    eq(res.att, R["coef"][3], "absorb ATT vs dummies", 1e-6, 1e-6 * (np.max(np.abs(R["resid"])) + abs(R["coef"][3])))
    n_abs = sum(df[fe].nunique() - 1 for fe in fes)
    assume(Rw["n"] - Rw["k_eff"] - n_abs > 0)
    compare(res, Rw, 3, c["alpha"], n - Rw["k_eff"] - n_abs, "absorb ")
    eq_arr(res.residuals, R["resid"], "absorb residuals vs dummies", atol=1e-6 * np.max(np.abs(y)))
    check(res.n_obs == n, "n_obs")
    return [c["se"], c["fe"], f"cov{c['ncov']}"]


@facet(P, "saturated", st.tuples(seeds, st.booleans()).map(list), 60,
       rule="one observation per cell: exact double difference, undefined inference")
def saturated(a):
    r = np.random.default_rng(a[0])
    y = r.normal(size=4) * 10
    df = pd.DataFrame(dict(y=y, d=[0, 0, 1, 1], t=[0, 1, 0, 1])).sample(frac=1, random_state=int(a[0] % 2**31))
    res = DifferenceInDifferences(robust=a[1]).fit(df, "y", "d", "t")
    eq(res.att, y[3] - y[2] - y[1] + y[0], "ATT", atol=1e-8)
    check(all(isnan(v) for v in (res.se, res.t_stat, res.p_value, *res.conf_int)), f"inference defined: {res}")
    return True


@facet(P, "unidentified", st.tuples(case_st, st.integers(0, 3), st.sampled_from(["plain", "fe", "absorb"]), st.booleans()).map(list), 300,
       rule="one of the four cells is empty: whatever the cell sizes, covariates, fixed effects and covariance, no effect and no inference is reported, and the fit is refused when rank deficiency is an error; the fit itself is unaffected")
def unidentified(a):
    c, cell, how, warned = a
    c = dict(c, call="args", fe="none" if how == "plain" else c["fe"] if c["fe"] != "none" else "one")
    df = build(c)
    yn, dn, tn = c["names"]
    df = df[~((df[dn].astype(int) == cell // 2) & (df[tn].astype(int) == cell % 2))]
    fes = {"none": [], "one": ["g1"], "two": ["g1", "g2"]}[c["fe"]]
    X, y, covs = design(df, c, fes)
    keep, Q = ref.indep_columns(X)
    assume(len(y) > len(keep) + 1 and df[dn].nunique() == 2 and df[tn].nunique() == 2 and df["cl"].nunique() > 1)
    assume(len(y) > X.shape[1])
    kind = "cluster" if c["se"].startswith("cluster") else c["se"]
    kw = dict(covariates=covs or None, **({"absorb": fes} if how == "absorb" else {"fixed_effects": fes or None}))
    mk = lambda action: DifferenceInDifferences(**doc(c, robust=c["se"] in ("hc1", "cluster"), cluster="cl" if kind == "cluster" else None, alpha=c["alpha"], rank_deficient_action=action))
    res = mk("warn" if warned else "silent").fit(df, outcome=yn, treatment=dn, time=tn, **kw)
    check(all(isnan(v) for v in (res.att, res.se, res.t_stat, res.p_value, *res.conf_int)), lambda: f"cell {cell} is empty, but the effect is {res.att} (SE {res.se})")
    check(not res.is_significant, "an unidentified effect is significant")
    ysc = np.max(np.abs(y))
    eq_arr(res.residuals, y - Q @ (Q.T @ y), "residuals", atol=1e-6 * ysc)
    raises(lambda: mk("error").fit(df, outcome=yn, treatment=dn, time=tn, **kw), (ValueError,), "empty cell with rank_deficient_action='error'")
    return [how, f"cell{cell}", c["se"]]
