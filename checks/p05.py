"""P05 - wild cluster bootstrap: every draw, the p-value, SE and CI against exact enumeration."""
import itertools
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref
from diff_diff import DifferenceInDifferences, TwoWayFixedEffects
from diff_diff.utils import wild_bootstrap_se

P = "P05"
S5 = np.sqrt(5)
ATOMS = {
    "rademacher": ([-1.0, 1.0], [0.5, 0.5]),
    "mammen": ([-(S5 - 1) / 2, (S5 + 1) / 2], [(S5 + 1) / (2 * S5), (S5 - 1) / (2 * S5)]),
    "webb": ([-np.sqrt(1.5), -1.0, -np.sqrt(.5), np.sqrt(.5), 1.0, np.sqrt(1.5)], [1 / 6] * 6),
}


def setup(X, y, cl, j, h0):
    """beta*, t* as functions of the cluster weight vector"""
    n, k = X.shape
    labs = sorted(set(cl), key=str)
    G = len(labs)
    member = np.array([[1.0 if c == l else 0.0 for l in labs] for c in cl])
    B = ref.bread(X)
    A = B @ X.T
    H = X @ A
    Xr = np.delete(X, j, 1)
    yr = y - h0 * X[:, j]
    br = ref.ols(Xr, yr) if Xr.shape[1] else np.zeros(0)
    ur = yr - (Xr @ br if Xr.shape[1] else 0)
    base = y - ur
    adj = G / (G - 1) * (n - 1) / (n - k)

    def stats_of(W):
        """W: (m, G) weights -> beta, t, |se| of the bootstrap samples"""
        Y = base[:, None] + ur[:, None] * (member @ W.T)
        beta = A[j] @ Y
        U = Y - H @ Y
        q = X @ B[:, j]
        sc = member.T @ (q[:, None] * U)
        se = np.sqrt(adj * (sc ** 2).sum(0))
        return beta, (beta - h0) / np.where(se > 0, se, np.inf), se

    b0 = A[j] @ y
    u0 = y - H @ y
    s0 = member.T @ ((X @ B[:, j]) * u0)
    se0 = np.sqrt(adj * (s0 ** 2).sum())
    return labs, G, b0, (b0 - h0) / se0, se0, stats_of


case_st = st.fixed_dictionaries(dict(
    n=st.integers(16, 60), G=st.integers(2, 7), k=st.integers(0, 3), j=st.integers(0, 5), B=st.integers(20, 120),
    wt=st.sampled_from(["rademacher", "webb", "mammen"]), h0=st.sampled_from([0.0, 0.0, 0.7, -1.0]), noise=gen.noise,
    alpha=gen.alphas, clt=st.sampled_from(["int", "str"]), effect=st.sampled_from([0.0, 0.5, 3.0]), bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)), seed=seeds))


def build(c):
    r = rng_of(c)
    n = c["n"]
    G = min(c["G"], 4) if c["wt"] == "webb" else c["G"]
    cl = np.concatenate([np.arange(G), r.integers(0, G, n - G)])
    d, t = r.integers(0, 2, n), r.integers(0, 2, n)
    d[:4], t[:4] = [0, 0, 1, 1], [0, 1, 0, 1]
    X = np.column_stack([np.ones(n), d, t, d * t] + [r.normal(size=n) for _ in range(c["k"])])
    y = X @ np.array([1.0, 2, -1, c["effect"]] + [0.5] * c["k"]) + r.normal(size=G)[cl] * 0.5 + gen.shock(c["noise"], r, n)
    labs = np.array([f"c{v}" for v in cl], dtype=object) if c["clt"] == "str" else cl * 5 - 3
    return X, y, labs, G


@facet(P, "draws", case_st, 480, rule="few clusters, all weight types, nonzero nulls: each bootstrap coefficient is one of the enumerated "
       "restricted-residual draws; p-value, SE, percentile CI recomputed from the matched draws; original cluster t")
def draws(c):
    X, y, labs, G = build(c)
    n, k = X.shape
    j = c["j"] % k
    assume(len(ref.indep_columns(X)[0]) == k)
    L, G, b0, t0, se0, f = setup(X, y, list(labs), j, c["h0"])
    resid = y - X @ ref.ols(X, y)
    assume(se0 > 1e-6 * np.std(resid) and np.std(resid) > 0)
    res = wild_bootstrap_se(X, y, resid, labs, j, n_bootstrap=c["B"], weight_type=c["wt"], null_hypothesis=c["h0"],
                            alpha=c["alpha"], seed=c["bseed"], return_distribution=True)
    eq(res.t_stat_original, t0, "t_stat_original", 1e-6)
    check(res.n_clusters == G and res.n_bootstrap == c["B"] and res.weight_type == c["wt"] and res.alpha == c["alpha"], "metadata")
    vals, _ = ATOMS[c["wt"]]
    W = np.array(list(itertools.product(vals, repeat=G)))
    beta, t, se = f(W)
    beta = beta + b0 - c["h0"]
    dist = np.asarray(res.bootstrap_distribution, float)
    check(dist.shape == (c["B"],), "distribution size")
    order = np.argsort(beta)
    sb = beta[order]
    tol = 1e-7 * (np.max(np.abs(beta)) + np.max(np.abs(beta - b0))) + 1e-12
    lo = hi = 0
    band = 1e-6
    for v in dist:
        a, z = np.searchsorted(sb, v - tol), np.searchsorted(sb, v + tol)
        check(z > a, lambda: f"draw {v} is not a restricted-residual wild draw (nearest {sb[min(a, len(sb)-1)]})")
        m = order[a:z]
        ok = se[m] > 1e-7 * np.max(se)   # a draw with a degenerate SE has no defined t
        ab = np.abs(t[m])
        lo += bool(ok.all() and (ab >= abs(t0) * (1 + band)).all())
        hi += bool((~ok).any() or (ab >= abs(t0) * (1 - band)).any())
    B = c["B"]
    plo, phi = max(lo / B, 1 / (B + 1)), max(hi / B, 1 / (B + 1))
    check(plo - 1e-12 <= res.p_value <= phi + 1e-12 or
          (lo / B - 1e-12 <= res.p_value <= phi + 1e-12 and res.p_value >= 1 / (B + 1) - 1e-12),
          f"p-value {res.p_value} outside [{plo},{phi}]")
    # ties are counted: the draw with all weights +1/-1 reproduces |t0|
    exact_hi = np.array([np.any((np.abs(beta - v) <= tol) & (np.abs(np.abs(t) - abs(t0)) <= 1e-9 * abs(t0))) for v in dist]).sum()
    if c["wt"] == "rademacher" and G > 2:
        amb = any(np.any((np.abs(beta - v) <= tol) & ~(np.abs(t) >= abs(t0) * (1 - 1e-9))) and
                  np.any((np.abs(beta - v) <= tol) & (np.abs(t) >= abs(t0) * (1 - 1e-9))) for v in dist)
        if not amb:
            cnt = sum(bool(np.any((np.abs(beta - v) <= tol) & (np.abs(t) >= abs(t0) * (1 - 1e-8)))) for v in dist)
            check(abs(res.p_value - max(cnt / B, 1 / (B + 1))) < 1e-12 or (se <= 1e-3 * se.max()).any() or se0 <= 1e-3 * se.max(),
                  f"p-value {res.p_value}: {cnt}/{B} draws have |t*| >= |t|")
    eq(res.se, np.std(dist, ddof=1), "SE", 1e-8)
    eq_arr([res.ci_lower, res.ci_upper], np.percentile(dist, [100 * c["alpha"] / 2, 100 * (1 - c["alpha"] / 2)]), "CI", 1e-8)
    again = wild_bootstrap_se(X, y, resid, labs, j, n_bootstrap=B, weight_type=c["wt"], null_hypothesis=c["h0"],
                              alpha=c["alpha"], seed=c["bseed"], return_distribution=True)
    eq_arr(again.bootstrap_distribution, dist, "same seed, same draws", 0, 0)
    return [c["wt"], f"G{G}", "null" if c["h0"] else "zero", "tie" if exact_hi else "notie"]


@facet(P, "frequencies", case_st.map(lambda c: dict(c, B=1500, n=min(c["n"], 30), noise="gauss", h0=0.0)), 48,
       rule="1500 draws: p-value, SE and CI agree with exact enumeration of the weight distribution within 6 Monte-Carlo standard deviations")
def frequencies(c):
    X, y, labs, G = build(c)
    k = X.shape[1]
    j = 3
    assume(len(ref.indep_columns(X)[0]) == k)
    L, G, b0, t0, se0, f = setup(X, y, list(labs), j, 0.0)
    # a cluster variance that nearly cancels is known to few digits: ties of t statistics are then decided by rounding
    scale = np.sqrt(((y - X @ ref.ols(X, y)) ** 2).mean() * ref.bread(X)[j, j])
    assume(se0 > 1e-2 * scale)
    vals, pr = ATOMS[c["wt"]]
    W = np.array(list(itertools.product(range(len(vals)), repeat=G)))
    prob = np.prod(np.array(pr)[W], axis=1)
    beta, t, se = f(np.array(vals)[W])
    assume(se.min() > 1e-2 * min(se.max(), scale))
    B = c["B"]
    resid = y - X @ ref.ols(X, y)
    res = wild_bootstrap_se(X, y, resid, labs, j, n_bootstrap=B, weight_type=c["wt"], alpha=c["alpha"], seed=c["bseed"])
    p = prob[np.abs(t) >= abs(t0) * (1 - 1e-8)].sum()
    tol = 6 * np.sqrt(max(p * (1 - p), 1.0 / B) / B) + 2 / B
    check(abs(res.p_value - p) <= tol, f"p-value {res.p_value}, enumeration {p} (tol {tol})")
    mu = prob @ beta
    var = prob @ (beta - mu) ** 2
    kurt = prob @ (beta - mu) ** 4 / var ** 2
    rel = 6 * np.sqrt(max(kurt - 1, 0.02) / (4 * B)) + 0.01
    check(abs(res.se / np.sqrt(var) - 1) <= rel, f"SE {res.se}, enumeration {np.sqrt(var)} (rel {rel})")
    x = beta + b0
    for v, q in ((res.ci_lower, c["alpha"] / 2), (res.ci_upper, 1 - c["alpha"] / 2)):
        e = 1e-9 * (np.abs(x).max() + 1)
        tq = 6 * np.sqrt(q * (1 - q) / B) + 2 / B
        below, upto = prob[x < v - e].sum(), prob[x <= v + e].sum()
        check(below <= q + tq and upto >= q - tq, f"CI bound {v}: CDF [{below},{upto}] vs {q}")
    return [c["wt"], f"G{G}"]


@facet(P, "estimators", st.fixed_dictionaries(dict(
    n=st.integers(20, 60), G=st.integers(3, 9), wt=st.sampled_from(["rademacher", "webb", "mammen"]), B=st.integers(15, 60),
    alpha=gen.alphas, twfe=st.booleans(), bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)), ncov=st.integers(0, 1), seed=seeds)), 240,
       rule="DiD/TWFE with inference='wild_bootstrap' report exactly the bootstrap of their own design (seed, weights, alpha, clusters) and the analytical ATT")
def estimators(c):
    r = rng_of(c)
    n, G = c["n"], c["G"]
    cl = np.concatenate([np.arange(G), r.integers(0, G, n - G)])
    u = np.repeat(np.arange(n // 2 + 1), 2)[:n]
    t = np.arange(n) % 2
    d = (u % 2).astype(int)
    df = pd.DataFrame(dict(u=u, cl=[f"k{v}" for v in cl], d=d, t=t))
    df["x"] = r.normal(size=n)
    df["y"] = r.normal(size=n) + d * t * 0.8 + 0.3 * df.x
    covs = ["x"] if c["ncov"] else None
    kw = dict(inference="wild_bootstrap", n_bootstrap=c["B"], bootstrap_weights=c["wt"], seed=c["bseed"], alpha=c["alpha"], cluster="cl")
    if c["twfe"]:
        assume(n % 2 == 0)
        res = TwoWayFixedEffects(**kw).fit(df, "y", "d", "t", "u", covariates=covs)
        plain = TwoWayFixedEffects(alpha=c["alpha"], cluster="cl").fit(df, "y", "d", "t", "u", covariates=covs)
        F = np.column_stack([np.ones(n), ref.dummies(u.tolist()), ref.dummies(t.tolist())])
        Q = ref.indep_columns(F)[1]
        pr = lambda v: v - Q @ (Q.T @ v)
        X = np.column_stack([np.ones(n), pr((d * t).astype(float))] + ([pr(df.x.to_numpy())] if covs else []))
        y, j = pr(df.y.to_numpy()), 1
    else:
        res = DifferenceInDifferences(**kw).fit(df, "y", "d", "t", covariates=covs)
        plain = DifferenceInDifferences(alpha=c["alpha"], cluster="cl").fit(df, "y", "d", "t", covariates=covs)
        X = np.column_stack([np.ones(n), d, t, d * t] + ([df.x] if covs else []))
        y, j = df.y.to_numpy(), 3
    w = wild_bootstrap_se(X, y, y - X @ ref.ols(X, y), df.cl.to_numpy(), j, n_bootstrap=c["B"], weight_type=c["wt"], alpha=c["alpha"], seed=c["bseed"])
    eq(res.att, plain.att, "ATT", 1e-9, 1e-10)
    check(res.inference_method == "wild_bootstrap" and res.n_bootstrap == c["B"] and res.n_clusters == G, "metadata")
    eq(res.se, w.se, "SE", 1e-6)
    eq(res.t_stat, plain.t_stat, "t", 1e-6)
    check(abs(res.p_value - w.p_value) <= 1.5 / c["B"], f"p {res.p_value} vs {w.p_value}")
    eq_arr(res.conf_int, [w.ci_lower, w.ci_upper], "CI", 1e-6)
    return ["twfe" if c["twfe"] else "did", c["wt"]]
