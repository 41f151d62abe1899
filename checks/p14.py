"""P14 - TROP: bootstrap, jackknife and reported inference."""
import itertools
import numpy as np
from scipy import stats
from harness.core import *
from harness import gen, tropref as tr
from checks import p13

P = "P14"
small = dict(p13.panel, N=st.integers(4, 5), T=st.integers(4, 5), starts=st.lists(st.integers(2, 4), min_size=1, max_size=2), lt=st.sampled_from([0.0, 0.3]), lu=st.sampled_from([0.0, 0.5, 1.5]),
             ln=st.sampled_from(["inf", "inf", "inf", 1.0]), method=st.sampled_from(["twostep", "joint"]), alpha=gen.alphas, bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)))


def inference(res, D, alpha, what):
    df = max(1, int(D.sum()) - 1)
    if not res.se > 0:
        check(isnan(res.t_stat) and isnan(res.p_value) and all(isnan(v) for v in res.conf_int), lambda: f"{what}: inference without a standard error: {res.t_stat}, {res.p_value}, {res.conf_int}")
        check(not res.is_significant and res.significance_stars == "", f"{what}: significance without a standard error")
        return
    eq(res.t_stat, res.att / res.se, f"{what}: t")
    eq(res.p_value, 2 * stats.t.sf(abs(res.t_stat), df), f"{what}: p", 1e-6, 1e-12)
    q = stats.t.ppf(1 - alpha / 2, df)
    eq_arr(res.conf_int, [res.att - q * res.se, res.att + q * res.se], f"{what}: CI")
    check(res.is_significant == bool(res.p_value < alpha), f"{what}: is_significant")


def one(Y, D, lam, method, npost):
    if method == "joint":
        return tr.joint_fit(Y, D, lam, npost=npost)[0]
    return np.mean(list(tr.twostep_effects(Y, D, lam).values()))


def lib(c, df, **kw):
    m = p13.model(dict(c), method=c["method"], alpha=c["alpha"], **dict(dict(seed=c["bseed"], tol=1e-9, max_iter=1500), **kw))
    return m.fit(df, "y", "d", "unit", "time")


def enum(Y, D, c):
    """every pair of multisets (controls, treated) with its probability and estimate"""
    lam = tuple(float(c[k]) for k in ("lt", "lu", "ln"))
    tu, cu = np.where(D.any(0))[0], np.where(~D.any(0))[0]
    from math import factorial

    def ms(units):
        n = len(units)
        for m in itertools.combinations_with_replacement(units, n):
            p = factorial(n) / n ** n
            for u in set(m):
                p /= factorial(m.count(u))
            yield m, p
    npost = int(D.any(1).sum())
    for mc, pc in ms(cu):
        for mt, pt in ms(tu):
            k = list(mc) + list(mt)
            yield k, pc * pt, one(Y[:, k], D[:, k], lam, c["method"], npost)


def table(Y, D, c):
    L = list(enum(Y, D, c))
    return np.array([p for _, p, _ in L]), np.array([v for _, _, v in L])


@facet(P, "bootstrap", st.fixed_dictionaries(dict(small, B=st.sampled_from([12, 25]), drop=st.just(0.0))), 90, 900,
       rule="<=5 units: every bootstrap draw is the estimate on some multiset of as many control and as many treated units; SE is their standard deviation; t, p, CI share one t distribution")
def bootstrap(c):
    df, Y, D, u, per = p13.build(c, joint=c["method"] == "joint")
    res = lib(c, df, variance_method="bootstrap", n_bootstrap=c["B"])
    draws = np.asarray(res.bootstrap_distribution)
    check(len(draws) == c["B"], f"{len(draws)} of {c['B']} draws")
    p, v = table(Y, D, c)
    sc = max(1.0, np.std(Y))
    for d in draws:
        k = np.argmin(np.abs(v - d))
        check(abs(v[k] - d) < 5e-4 * sc, lambda: f"draw {d} is not the estimate of any resample (closest {v[k]}; {len(v)} resamples)")
    eq(res.se, np.std(draws, ddof=1), "bootstrap SE")
    inference(res, D, c["alpha"], "bootstrap")
    check(res.n_bootstrap == c["B"] and res.variance_method == "bootstrap", "bookkeeping")
    again = lib(c, df, variance_method="bootstrap", n_bootstrap=c["B"])
    eq_arr(again.bootstrap_distribution, draws, "same seed, same draws", 0, 0)
    return [c["method"], f"ln{c['ln']}"] + (["lu"] if c["lu"] else []) + (["moves"] if res.se > 1e-8 else [])


@facet(P, "bootstrap_freq", st.fixed_dictionaries(dict(small, B=st.just(250), drop=st.just(0.0), ln=st.just("inf"), N=st.just(4), T=st.just(4))), 24, 240,
       rule="250 draws: mean and variance agree with the enumerated stratified resampling distribution within 6 Monte-Carlo sd")
def bootstrap_freq(c):
    df, Y, D, u, per = p13.build(c, joint=c["method"] == "joint")
    res = lib(c, df, variance_method="bootstrap", n_bootstrap=c["B"], tol=1e-7)
    draws = np.asarray(res.bootstrap_distribution)
    p, v = table(Y, D, c)
    mu = p @ v
    m2 = p @ (v - mu) ** 2
    m4 = p @ (v - mu) ** 4
    B = len(draws)
    check(abs(draws.mean() - mu) < 6 * np.sqrt(m2 / B) + 1e-3, lambda: f"mean of draws {draws.mean()} vs {mu} (sd {np.sqrt(m2)})")
    check(abs(draws.var() - m2) < 6 * np.sqrt(max(m4 - m2 ** 2, 0) / B) + .05 * m2 + 1e-3 * np.sqrt(m2) + 1e-6, lambda: f"variance of draws {draws.var()} vs {m2}")
    return [c["method"], f"ntr{D.any(0).sum()}"]


@facet(P, "jackknife", st.fixed_dictionaries(dict(small, N=st.integers(4, 6), starts=st.lists(st.integers(2, 4), min_size=1, max_size=3))), 150, 1500,
       rule="leave-one-treated-unit-out estimates (weights of the remaining panel), SE sqrt((n-1)/n sum sq), undefined with one treated unit")
def jackknife(c):
    df, Y, D, u, per = p13.build(c, joint=c["method"] == "joint")
    res = lib(c, df, variance_method="jackknife")
    tu = np.where(D.any(0))[0]
    npost = int(D.any(1).sum())
    lam = tuple(float(c[k]) for k in ("lt", "lu", "ln"))
    inference(res, D, c["alpha"], "jackknife")
    if len(tu) == 1:
        check(not res.se > 0, f"standard error {res.se} from a single treated unit")
        return ["single"]
    want = []
    for k in tu:
        keep = [j for j in range(Y.shape[1]) if j != k]
        want.append(one(Y[:, keep], D[:, keep], lam, c["method"], npost))
    want = np.array(want)
    sc = max(1.0, np.nanstd(Y))
    eq_arr(np.sort(res.bootstrap_distribution), np.sort(want), "leave-one-out estimates", 5e-4, 5e-4 * sc)
    d = np.asarray(res.bootstrap_distribution)
    n = len(d)
    eq(res.se, np.sqrt((n - 1) / n * ((d - d.mean()) ** 2).sum()), "jackknife SE")
    return [c["method"], f"ntr{len(tu)}"] + (["lu"] if c["lu"] else []) + (["missing"] if np.isnan(Y).any() else [])
