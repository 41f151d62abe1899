"""P10 - Synthetic difference-in-differences: weights and point estimate."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref
from diff_diff import SyntheticDiD

P = "P10"
panel = dict(npre=mostly(1, 8, 14), npost=st.integers(1, 4), nc=mostly(1, 9, 24), ntr=st.integers(1, 4), fe=st.sampled_from([0.3, 1.0, 5.0, 20.0]),
             level=st.sampled_from([0.0, 0.0, 10.0, 1000.0]), far=st.sampled_from([0.0, 0.0, 4.0]), noise=gen.noise, ulab=gen.ulab,
             plab=st.sampled_from(["int", "year", "gap", "str"]), pres=gen.presentation, seed=seeds)


def build(c, r, ncov=0, const_cov=False):
    T, n = c["npre"] + c["npost"], c["nc"] + c["ntr"]
    plab = {"int": list(range(T)), "year": list(range(1995, 1995 + T)), "gap": [3 * k * k - 5 for k in range(T)],
            "str": [f"q{k:02d}" for k in range(T)]}[c["plab"]]
    ul = list(gen.unit_labels(c["ulab"], n, r))
    tr = set(r.permutation(n)[:c["ntr"]].tolist())
    fe = r.normal(size=n) * c["fe"]
    sl = r.normal(size=n) * .3
    tf = np.cumsum(r.normal(size=T))
    e = gen.shock(c["noise"], r, n * T).reshape(n, T)
    sd = {"tiny": 1e-3, "big": 1e3}.get(c["noise"], 1.0)
    rows = []
    for i in range(n):
        for t in range(T):
            x = list(r.normal(size=ncov) + (.5 * t if ncov else 0))
            y = c["level"] * sd + sd * (fe[i] + sl[i] * t + tf[t] + (1.5 if i in tr and t >= c["npre"] else 0) + (c["far"] if i in tr else 0)) + e[i, t]
            y += sum(x) * .7 * sd
            rows.append([ul[i], plab[t], int(i in tr), y] + x)
    df = pd.DataFrame(rows, columns=["u", "t", "d", "y"] + [f"x{j}" for j in range(ncov)])
    return gen.present(df, c["pres"], r), plab


def wide(df, plab, col="y"):
    w = df.pivot(index="t", columns="u", values=col).loc[plab]
    g = df.groupby("u")["d"].first()
    return w, [u for u in w.columns if g[u] == 1], [u for u in w.columns if g[u] == 0]


def time_weights(Yc, ytr, zeta):
    d = np.abs(ytr - Yc.mean(1))
    if len(d) == 1:
        return np.ones(1)
    v = 1 / (d + zeta * d.std() + 1e-10)
    return v / v.sum()


def gap_of(Yc, b, lam, w):
    """Frank-Wolfe duality gap: an upper bound on how far w is from optimal; and the natural scale of the objective"""
    A = Yc - Yc.mean(1, keepdims=True)
    b = b - Yc.mean(1)
    g = 2 * A.T @ (A @ w - b) + 2 * lam * (w - 1 / len(w))
    return g @ w - g.min(), (A ** 2).sum() + (b ** 2).sum() * 1e-3 + lam


def verify(res, c, df, plab, post, lam, zeta, w, trs, cos):
    pre = [p for p in plab if p not in post]
    W = w.astype(float)
    Yc0, Yc1 = W.loc[pre, cos].values, W.loc[post, cos].values
    t0, t1 = W.loc[pre, trs].values.mean(1), W.loc[post, trs].values.mean(1)
    sc = np.abs(W.values - W.values.mean()).max() + 1e-12
    check(list(res.pre_periods) == pre and sorted(map(str, res.post_periods)) == sorted(map(str, post)), "pre/post periods")
    check((res.n_obs, res.n_treated, res.n_control) == (len(df), len(trs), len(cos)), "counts")
    check(set(res.unit_weights) == set(cos), "weights are attached to the control units")
    om = np.array([res.unit_weights[u] for u in cos], float)
    check((om >= 0).all() and abs(om.sum() - 1) < 1e-9, lambda: f"unit weights not on the simplex {om}")
    gap, scale = gap_of(Yc0, t0, lam, om)
    check(gap <= 3e-5 * scale + 1e-12 * np.abs(Yc0).max() ** 2, lambda: f"unit weights do not minimise the objective: optimality gap {gap}, scale {scale}, weights {om}")
    check(set(res.time_weights) == set(pre), "time weights attached to the pre-periods")
    la = np.array([res.time_weights[p] for p in pre], float)
    check((la >= 0).all() and abs(la.sum() - 1) < 1e-9, "time weights not on the simplex")
    d = np.abs(t0 - Yc0.mean(1))
    if len(pre) > 1 and (d + zeta * d.std()).min() > 1e-6 * sc:
        eq_arr(la, time_weights(Yc0, t0, zeta), "time weights", 1e-6, 1e-9)
    eq(res.att, (t1.mean() - la @ t0) - om @ (Yc1.mean(0) - la @ Yc0), "ATT", 1e-8, 1e-9 * (sc + np.abs(W.values).max()))
    eq(res.pre_treatment_fit, np.sqrt(np.mean((t0 - Yc0 @ om) ** 2)), "pre-treatment RMSE", 1e-6, 1e-8 * (sc + np.abs(W.values).max() * 1e-4))
    return (om > 1e-5).sum()


@facet(P, "weights", st.fixed_dictionaries(dict(panel, lam=st.sampled_from([0.0, 0.0, 0.5, 10.0]), zeta=st.sampled_from([0.0, 0.3, 1.0, 5.0]),
       post=st.sampled_from(["explicit", "default", "early", "shuffled", "middle"]))), 900, rule="unit weights certified optimal by the duality gap of the stated quadratic programme; "
       "time weights and ATT recomputed from the reported weights")
def weights(c):
    r = rng_of(c)
    df, plab = build(c, r)
    T = len(plab)
    if c["post"] == "default":
        post, arg = plab[T // 2:], None
    elif c["post"] == "early" and T > 2:
        post = arg = [plab[0], plab[-1]]
    elif c["post"] == "middle" and T > 3:  # periods before and after them compare
        post = arg = plab[T // 2 - 1:T // 2 + 1]
    else:
        post = arg = plab[c["npre"]:]
        if c["post"] == "shuffled":
            arg = list(r.permutation(len(post)))
            arg = [post[k] for k in arg]
    w, trs, cos = wide(df, plab)
    est = SyntheticDiD(**doc(c, lambda_reg=c["lam"], zeta=c["zeta"], variance_method="placebo", n_bootstrap=3, seed=1))
    res = est.fit(df, "y", "d", "u", "t", post_periods=arg)
    nz = verify(res, c, df, plab, post, c["lam"], c["zeta"], w, trs, cos)
    W = res.get_unit_weights_df()
    check(dict(zip(W["unit"], W["weight"])) == res.unit_weights and (np.diff(W["weight"].values) <= 0).all(), "unit weight table")
    Tw = res.get_time_weights_df()
    check(dict(zip(Tw["period"], Tw["weight"])) == res.time_weights, "time weight table")
    return [c["post"], f"lam{c['lam']}", f"fe{c['fe']}", f"lvl{c['level']}", f"nonzero{min(nz, 4)}"]


@facet(P, "covariates", st.fixed_dictionaries(dict(panel, nc=st.integers(3, 8), npre=st.integers(2, 6), fe=st.just(1.0), level=st.just(0.0), lam=st.sampled_from([0.0, 0.5]),
       ncov=st.integers(1, 2), const=st.booleans())), 240, rule="with covariates the same estimator runs on outcomes residualised by covariates, unit and period effects; a unit-constant covariate changes nothing else")
def covariates(c):
    r = rng_of(c)
    df, plab = build(c, r, c["ncov"])
    post = plab[c["npre"]:]
    covs = [f"x{j}" for j in range(c["ncov"])]
    D = np.column_stack([np.ones(len(df)), ref.dummies(df["u"].values), ref.dummies(df["t"].values), df[covs].values])
    y = df["y"].values
    m = df.copy()
    m["y"] = y - D @ np.linalg.lstsq(D, y, rcond=None)[0] + y.mean()
    if c["const"]:
        df["xc"] = df["u"].map({u: k * 1.7 for k, u in enumerate(sorted(df["u"].unique(), key=str))}).astype(float)
        covs = covs + ["xc"]
    w, trs, cos = wide(m, plab)
    est = SyntheticDiD(**doc(c, lambda_reg=c["lam"], variance_method="placebo", n_bootstrap=3, seed=1))
    res = est.fit(df, "y", "d", "u", "t", post_periods=post, covariates=covs)
    W = w.values
    assume(np.abs(W - W.mean()).max() > 1e-6 * np.abs(y).max())
    verify(res, c, df, plab, post, c["lam"], 1.0, w, trs, cos)
    return [f"cov{c['ncov']}", f"const{c['const']}"]


@facet(P, "exact_match", st.fixed_dictionaries(dict(nc=st.integers(2, 7), npre=st.integers(2, 8), npost=st.integers(1, 3), tau=st.sampled_from([-3.0, 0.0, 2.5]), level=st.sampled_from([0.0, 5.0, 300.0]),
       k=st.integers(1, 3), seed=seeds)), 200, rule="a treated path that is a known convex combination of controls (plus a constant effect) is recovered exactly")
def exact_match(c):
    r = rng_of(c)
    k = min(c["k"], c["nc"])
    n, T = c["nc"], c["npre"] + c["npost"]
    Y = c["level"] + r.normal(size=(T, n)) * 2 + r.normal(size=n) * 3
    om = np.zeros(n)
    om[r.permutation(n)[:k]] = r.dirichlet(np.ones(k) * 3)
    tr = Y @ om + c["tau"] * (np.arange(T) >= c["npre"])
    rows = [(j, t, 0, Y[t, j]) for j in range(n) for t in range(T)] + [(99, t, 1, tr[t]) for t in range(T)]
    df = pd.DataFrame(rows, columns=["u", "t", "d", "y"])
    assume(c["npre"] >= n)   # otherwise the weights (not the estimand) may be another exact combination
    res = SyntheticDiD(variance_method="placebo", n_bootstrap=3, seed=0).fit(df, "y", "d", "u", "t", post_periods=list(range(c["npre"], T)))
    cond = np.linalg.svd(Y[:c["npre"]] - Y[:c["npre"]].mean(1, keepdims=True), compute_uv=False)
    if n > 2:
        assume(cond[n - 2] > 0.2)
    eq(res.att, c["tau"], "effect of an exactly matched unit", 1e-3, 1e-3)
    eq_arr([res.unit_weights[j] for j in range(n)], om, "matching weights", 1e-3, 2e-3)
    eq(res.pre_treatment_fit, 0, "fit", 0, 1e-3 * np.abs(Y - Y.mean()).max())
    return [f"k{k}", f"lvl{c['level']}"]


@facet(P, "unbalanced", st.fixed_dictionaries(dict(panel, npre=st.integers(2, 4), nc=st.integers(2, 5), how=st.sampled_from(["row", "nan"]))), 30,
       rule="a panel with a missing unit-period is rejected, never silently estimated")
def unbalanced(c):
    r = rng_of(c)
    df, plab = build(c, r)
    k = int(r.integers(len(df)))
    if c["how"] == "row":
        df = df.drop(df.index[k]) if df.index.is_unique else df.reset_index(drop=True).drop(k)
    else:
        df = df.reset_index(drop=True)
        df.loc[k, "y"] = np.nan
    raises(lambda: SyntheticDiD(variance_method="placebo", n_bootstrap=5, seed=0).fit(df, "y", "d", "u", "t", post_periods=plab[c["npre"]:]), (ValueError,), "unbalanced panel")
    return [c["how"]]


@facet(P, "helpers", st.fixed_dictionaries(dict(n=st.integers(0, 7), pre=st.integers(1, 6), post=st.integers(1, 3), lam=st.sampled_from([0.0, 0.5, 10.0]), cut=st.sampled_from([1e-6, 0.05, 0.2, 0.9]), m=st.sampled_from([None, 1, 3, 20]), sd=st.sampled_from([0.2, 1.0, 5.0]), unit=st.sampled_from([1.0, 1.0, 1e-6, 1e-4, 1e5]), seed=seeds)), 250,
       rule="the weight and placebo functions themselves: optimal weights truncated at the given minimum and renormalised (uniform when nothing is left), one or no control; placebo effects leave each control out in turn")
def helpers(c):
    from diff_diff import utils as U
    r = rng_of(c)
    n = c["n"]
    A, A2 = r.normal(size=(c["pre"], n)) * c["sd"], r.normal(size=(c["post"], n))
    b = r.normal(size=c["pre"]) if r.random() < .5 or not n else A @ r.dirichlet(np.ones(n))
    A, A2, b, lam = A * c["unit"], A2 * c["unit"], b * c["unit"], c["lam"] * c["unit"] ** 2
    keep = (A.copy(), b.copy())
    w = np.asarray(U.compute_synthetic_weights(A, b, lam))
    t = np.asarray(U.compute_synthetic_weights(A, b, lam, min_weight=c["cut"]))
    check(np.array_equal(A, keep[0]) and np.array_equal(b, keep[1]), "inputs changed")
    check(w.shape == t.shape == (n,), "one weight per control")
    if n == 0:
        return ["none"]
    check((w >= 0).all() and abs(w.sum() - 1) < 1e-9 and (t >= 0).all() and abs(t.sum() - 1) < 1e-9, lambda: f"not on the simplex: {w} {t}")
    gap, scale = gap_of(A, b, lam, w)
    check(n == 1 or gap <= 3e-5 * scale, lambda: f"weights do not minimise the objective: gap {gap}")
    assume(np.abs(w - c["cut"]).min() > 1e-4)
    cutw = np.where(w < c["cut"], 0, w)
    eq_arr(t, cutw / cutw.sum() if cutw.sum() > 0 else np.ones(n) / n, "truncated weights", 1e-5, 1e-5)
    la = r.dirichlet(np.ones(c["pre"]))
    got = U.compute_placebo_effects(A, A2, b, w, la, list(range(n)), n_placebo=c["m"])
    want = []
    for j in range(min(n, c["m"] or n)) if n > 1 else []:
        rest = [i for i in range(n) if i != j]
        om = np.asarray(U.compute_synthetic_weights(A[:, rest], A[:, j]))
        want.append((A2[:, j].mean() - la @ A[:, j]) - om @ (A2[:, rest].mean(0) - la @ A[:, rest]))
    eq_arr(np.asarray(got, float), np.array(want, float), "placebo effects", 1e-9, 1e-9 * c["unit"])
    return [f"n{min(n, 3)}", f"cut{c['cut']}", "uniform" if cutw.sum() == 0 else "cut" if (cutw != w).any() else "plain"]
