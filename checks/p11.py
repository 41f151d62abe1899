"""P11 - Synthetic difference-in-differences: placebo and bootstrap inference."""
import itertools
from collections import Counter
from math import comb, factorial
import numpy as np
import pandas as pd
from scipy import stats
from harness.core import *
from harness import gen
from checks.p10 import build, wide, time_weights, panel
from diff_diff import SyntheticDiD

P = "P11"


def qp(A, b, m, lam):
    """exact simplex-constrained least squares with unit multiplicities, by enumerating supports; returns total weight per distinct unit"""
    k, n = A.shape[1], m.sum()
    H0, best = A.T @ A, None
    for size in range(1, k + 1):
        for S in itertools.combinations(range(k), size):
            S = list(S)
            H = H0[np.ix_(S, S)] + np.diag(lam / m[S])
            K = np.block([[H, np.ones((size, 1))], [np.ones((1, size)), np.zeros((1, 1))]])
            rhs = np.append(A[:, S].T @ b + lam / n, 1.0)
            w = np.zeros(k)
            w[S] = np.linalg.lstsq(K, rhs, rcond=None)[0][:-1]
            if w.min() < -1e-9:
                continue
            o = ((A @ w - b) ** 2).sum() + lam * ((w ** 2 / m).sum())
            if best is None or o < best[0]:
                best = (o, w)
    w = np.clip(best[1], 0, None)
    return w / w.sum()


def sdid(Y0, Y1, t0, t1, om, la):
    return (t1.mean() - la @ t0) - om @ (Y1.mean(0) - la @ Y0)


small = dict(panel, fe=st.sampled_from([.3, 1.0]), level=st.sampled_from([0.0, 10.0]), far=st.just(0.0), noise=st.sampled_from(["gauss", "heavy", "hetero"]),
             B=st.sampled_from([40, 99, 200]), bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)), alpha=gen.alphas, zeta=st.sampled_from([.3, 1.0]), lam=st.sampled_from([0.0, 0.4, 3.0]))


def setup(c):
    r = rng_of(c)
    df, plab = build(c, r)
    w, trs, cos = wide(df, plab)
    pre, post = plab[:c["npre"]], plab[c["npre"]:]
    W = w.astype(float)
    return df, pre, post, W, trs, cos


def inference(res, alpha, se, draws, how, sc):
    eq(res.se, se, "SE", 1e-8, 1e-10 * sc)
    if res.se > 1e-7 * sc:
        eq(res.t_stat, res.att / se, "t", 1e-8)
        z = stats.norm.ppf(1 - alpha / 2)
        eq_arr(res.conf_int, [res.att - z * se, res.att + z * se], "CI", 1e-8, 1e-10 * sc)
        if how == "bootstrap":
            eq(res.p_value, 2 * stats.norm.sf(abs(res.att / se)), "p", 1e-8, 1e-12)
        elif np.min(np.abs(np.abs(draws) - abs(res.att))) > 1e-9 * sc:
            eq(res.p_value, max(np.mean(np.abs(draws) >= abs(res.att)), 1 / (len(draws) + 1)), "placebo p", 1e-12)
    check(res.variance_method == how and res.alpha == alpha, "variance method / alpha")


@facet(P, "placebo", st.fixed_dictionaries(dict(small, nc=st.integers(3, 8), ntr=st.integers(1, 3), off=st.booleans())), 420,
       rule="every placebo draw is one of the C(controls, treated) pseudo-treatment assignments with renormalised weights; SE, CI and p follow from the draws")
def placebo(c):
    assume(c["nc"] > c["ntr"])
    df, pre, post, W, trs, cos = setup(c)
    kw = dict(variance_method="bootstrap", n_bootstrap=0) if c["off"] else dict(variance_method="placebo", n_bootstrap=c["B"])
    est = SyntheticDiD(**doc(c, lambda_reg=c["lam"], zeta=c["zeta"], alpha=c["alpha"], seed=c["bseed"], **kw))
    res = est.fit(df, "y", "d", "u", "t", post_periods=post)
    om = np.array([res.unit_weights[u] for u in cos])
    la = np.array([res.time_weights[p] for p in pre])
    Y0, Y1 = W.loc[pre, cos].values, W.loc[post, cos].values
    sc = np.abs(W.values - W.values.mean()).max()
    vals = []
    for S in itertools.combinations(range(len(cos)), len(trs)):
        rest = [j for j in range(len(cos)) if j not in S]
        o = om[rest]
        o = o / o.sum() if o.sum() > 0 else np.ones(len(rest)) / len(rest)
        S = list(S)
        vals.append(sdid(Y0[:, rest], Y1[:, rest], Y0[:, S].mean(1), Y1[:, S].mean(1), o, la))
    vals = np.array(vals)
    d = np.asarray(res.placebo_effects, float)
    B = len(d)
    check(B == c["B"] or c["off"] and B > 1, f"number of placebo draws {B}")
    dist = np.abs(d[:, None] - vals[None]).min(1)
    check(dist.max() < 1e-8 * (sc + np.abs(W.values).max() * 1e-3), lambda: f"placebo draw {d[dist.argmax()]} is not a placebo estimate")
    seen = np.unique(np.abs(d[:, None] - vals[None]).argmin(1))
    K = len(vals)
    if np.ptp(vals) > 1e-6 * sc and len(np.unique(np.round(vals / sc, 7))) == K:
        # all assignments equally likely: P(some assignment unseen) <= K (1-1/K)^B
        if K * (1 - 1 / K) ** B < 1e-9:
            check(len(seen) == K, f"only {len(seen)} of {K} placebo assignments ever drawn")
        cnt = np.bincount(np.abs(d[:, None] - vals[None]).argmin(1), minlength=K)
        check((np.abs(cnt - B / K) < 7 * np.sqrt(B / K) + 8).all(), f"placebo assignments are not equally likely {cnt}")
    inference(res, c["alpha"], np.sqrt((B - 1) / B) * d.std(ddof=1), d, "placebo", sc)
    d2 = est.fit(df, "y", "d", "u", "t", post_periods=post).placebo_effects
    eq_arr(d2, d, "same seed", 0, 0)
    return [f"ntr{len(trs)}", f"K{min(K, 30)//10}", f"off{c['off']}"]


def multisets(n):
    return itertools.combinations_with_replacement(range(n), n)


@facet(P, "bootstrap", st.fixed_dictionaries(dict(small, nc=st.integers(2, 4), ntr=st.integers(1, 3), npre=st.integers(2, 6), B=st.sampled_from([30, 60]), freq=st.just(0))), 100, 900,
       rule="<=6 units: every bootstrap draw equals the estimator on one enumerated multiset of units containing both groups (weights from an exact support-enumeration QP)")
def bootstrap(c):
    assume(c["nc"] + c["ntr"] <= 6 and (c["lam"] > 0 or c["npre"] >= c["nc"]))
    df, pre, post, W, trs, cos = setup(c)
    units = list(trs) + list(cos)
    nt, n = len(trs), len(units)
    sc = np.abs(W.values - W.values.mean()).max()
    Y0, Y1 = W.loc[pre, units].values, W.loc[post, units].values
    if c["lam"] == 0:   # weights identified
        s = np.linalg.svd(Y0[:, nt:] - Y0[:, nt:].mean(1, keepdims=True), compute_uv=False)
        assume(len(cos) < 3 or s[len(cos) - 2] > 0.05 * s[0])
    est = SyntheticDiD(**doc(c, lambda_reg=c["lam"], zeta=c["zeta"], alpha=c["alpha"], seed=c["bseed"], variance_method="bootstrap", n_bootstrap=c["B"]))
    vals, prob = [], []
    for ms in multisets(n):
        k = Counter(ms)
        T = [i for i in k if i < nt]
        C = [i for i in k if i >= nt]
        if not T or not C:
            continue
        mt, mc = np.array([k[i] for i in T], float), np.array([k[i] for i in C], float)
        t0, t1 = Y0[:, T] @ mt / mt.sum(), Y1[:, T] @ mt / mt.sum()
        om = qp(Y0[:, C] - Y0.mean(1, keepdims=True), t0 - Y0.mean(1), mc, c["lam"])
        cm = Y0[:, C] @ mc / mc.sum()
        la = time_weights(cm[:, None], t0, c["zeta"])
        vals.append(sdid(Y0[:, C], Y1[:, C], t0, t1, om, la))
        p = factorial(n)
        for v in k.values():
            p //= factorial(v)
        prob.append(p)
    try:
        res = est.fit(df, "y", "d", "u", "t", post_periods=post)
    except ValueError:
        return None
    vals, prob = np.array(vals), np.array(prob) / np.sum(prob)
    d = np.asarray(res.placebo_effects, float)
    check(2 <= len(d) <= c["B"] and res.n_bootstrap == c["B"], "number of draws")
    tol = 3e-4 * sc
    dist = np.abs(d[:, None] - vals[None]).min(1)
    check(dist.max() < tol, lambda: f"bootstrap draw {d[dist.argmax()]} is not the estimator on any resample of units (off by {dist.max()}, scale {sc})")
    inference(res, c["alpha"], d.std(ddof=1), d, "bootstrap", sc)
    mu, sd = prob @ vals, np.sqrt(prob @ (vals - prob @ vals) ** 2)
    if sd > 1e-6 * sc:
        check(abs(d.mean() - mu) < 7 * sd / np.sqrt(len(d)) + tol, f"bootstrap mean {d.mean()} vs {mu} (sd {sd})")
        k4 = prob @ (vals - mu) ** 4 / sd ** 4
        check(not c["freq"] or abs(d.var(ddof=1) / sd ** 2 - 1) < 7 * np.sqrt(max(k4 - 1, .2) / len(d)) + 2 / len(d), f"bootstrap variance {d.var()} vs {sd**2}")
    return [f"nt{nt}", f"nc{len(cos)}", f"lam{c['lam']}"]


@facet(P, "bootstrap_freq", st.fixed_dictionaries(dict(small, nc=st.integers(2, 4), ntr=st.integers(1, 2), npre=st.integers(3, 5), lam=st.sampled_from([0.4, 3.0]), B=st.just(500), freq=st.just(1))), 16, 150,
       rule="500 draws: mean and variance agree with the enumerated resampling distribution (multinomial probabilities, conditional on both groups present)")
def bootstrap_freq(c):
    return bootstrap(c)


SHAPES = {"seq": lambda n: list(range(n)), "hundreds": lambda n: [100 + i for i in range(n)], "negative": lambda n: [i - n for i in range(n)],
          "fixed": lambda n: [f"u{i:03d}" for i in range(n)], "under": lambda n: sorted(("a", "a_1", "a_1_1", "a_11", "b", "b_", "1", "1_1", "11", "1_11", "_", "__")[:n] + tuple(f"z_{i}" for i in range(max(0, n - 12)))),
          "digits": lambda n: sorted(str(i) for i in range(n)), "prefix": lambda n: ["x" * (i + 1) for i in range(n)], "float": lambda n: [i / 4 for i in range(n)]}


@facet(P, "labels", st.fixed_dictionaries(dict(seed=seeds, n=st.integers(5, 24), ntr=st.integers(1, 4), T=st.integers(3, 6), a=st.sampled_from(sorted(SHAPES)), b=st.sampled_from(sorted(SHAPES)), how=st.sampled_from(["bootstrap", "bootstrap", "placebo"]),
                                              B=st.sampled_from([20, 60]), bseed=st.integers(0, 10**6))), 60,
       rule="an order-preserving renaming of the units (numbers of different length, labels that are prefixes of each other or contain underscores) leaves the estimate, the number of draws and every draw unchanged")
def labels(c):
    assume(c["a"] != c["b"] and c["n"] > 2 * c["ntr"])
    r = rng_of(c)
    n, T = c["n"], c["T"]
    tr = set(r.permutation(n)[:c["ntr"]].tolist())
    Y = r.normal(size=(n, T)) + r.normal(size=(n, 1))
    post = list(range(T - T // 2, T))
    out = []
    for k in "ab":
        lab = SHAPES[c[k]](n)
        assert len(set(lab)) == n and sorted(lab) == lab, (k, lab)
        df = pd.DataFrame([(lab[i], t, int(i in tr), Y[i, t]) for i in range(n) for t in range(T)], columns=["u", "t", "d", "y"])
        out.append(SyntheticDiD(**doc(c, variance_method=c["how"], n_bootstrap=c["B"], seed=c["bseed"], lambda_reg=0.5)).fit(df, "y", "d", "u", "t", post_periods=post))
    a, b = out
    eq(a.att, b.att, "ATT", 1e-9, 1e-9)
    da, db = np.asarray(a.placebo_effects, float), np.asarray(b.placebo_effects, float)
    check(len(da) == len(db), f"{len(da)} draws with labels {c['a']!r}, {len(db)} with labels {c['b']!r}")
    eq_arr(da, db, f"draws with labels {c['a']!r} and {c['b']!r}", 1e-7, 1e-7)
    eq_arr([a.se, a.p_value, *a.conf_int], [b.se, b.p_value, *b.conf_int], "inference", 1e-7, 1e-7)
    return [c["how"], c["a"], c["b"], "many" if n > 10 else "few"]


@facet(P, "undefined", st.fixed_dictionaries(dict(small, nc=st.integers(1, 3), ntr=st.integers(1, 4))), 40,
       rule="with as many treated as control units (or one control) placebo inference is undefined and reported as NaN, never as a test")
def undefined(c):
    assume(c["nc"] <= c["ntr"])
    df, pre, post, W, trs, cos = setup(c)
    res = SyntheticDiD(variance_method="placebo", n_bootstrap=c["B"], seed=1, alpha=c["alpha"]).fit(df, "y", "d", "u", "t", post_periods=post)
    check(np.isfinite(res.att), "point estimate remains")
    for v in (res.t_stat, res.p_value, *res.conf_int):
        check(isnan(v), f"undefined inference reported as {v}")
    check(not res.is_significant and res.significance_stars == "", "stars")
    return True
