"""P08 - Callaway-Sant'Anna multiplier bootstrap."""
import itertools
import numpy as np
from harness.core import *
from harness import gen, ref, stag
from harness.csref import CS
from checks.p05 import ATOMS
from diff_diff import CallawaySantAnna

P = "P08"


def prep(c):
    r = rng_of(c)
    df, cohort, periods = stag.build(c, r)
    assume(any(cohort.values()) and not all(cohort.values()))
    Y = {(u, t): y for u, t, y in zip(df.u, df.t, df.y)}
    R = CS(Y, cohort, periods, None, c["control"], c["method"], c["anticipation"], c["base"])
    assume(R.cells and R.w_overall())
    est = CallawaySantAnna(**doc(c, control_group=c["control"], anticipation=c["anticipation"], estimation_method=c["method"], base_period=c["base"],
                           alpha=c["alpha"], n_bootstrap=c["B"], bootstrap_weights=c["wt"], seed=c["bseed"]))
    return df, R, est


small = dict(stag.panel, nnever=st.integers(2, 3), sizes=st.lists(st.integers(1, 3), min_size=1, max_size=2), T=st.integers(3, 5),
             drop=st.sampled_from([0.0, 0.0, 0.1]), control=st.sampled_from(["never_treated", "not_yet_treated"]),
             method=st.sampled_from(["reg", "ipw", "dr"]), anticipation=st.sampled_from([0, 0, 1]), base=st.sampled_from(["varying", "universal"]),
             wt=st.sampled_from(["rademacher", "mammen", "webb"]), B=st.sampled_from([60, 99, 150]), alpha=gen.alphas, bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)),
             be=st.sampled_from([None, None, 0, 1]), noise=st.sampled_from(["gauss", "heavy", "hetero"]))


def stats_of(eff, draws, alpha):
    B = len(draws)
    p = np.mean(draws <= 0) if eff >= 0 else np.mean(draws >= 0)
    p = max(min(2 * p, 1.0), 1 / (B + 1))
    return np.std(draws, ddof=1), np.percentile(draws, [50 * alpha, 100 - 50 * alpha]), p


def cmp(d, eff, draws, alpha, what, sc):
    se, ci, p = stats_of(eff, draws, alpha)
    eq(d["effect"], eff, what + " effect", 1e-8, 1e-9 * sc)
    eq(d["se"], se, what + " SE", 1e-6, 1e-9 * sc)
    eq_arr(d["conf_int"], ci, what + " CI", 1e-6, 1e-8 * sc)
    if np.min(np.abs(draws)) > 1e-9 * sc:
        eq(d["p_value"], p, what + " p", 1e-12, 1e-12)
    check(d["p_value"] >= 1 / (len(draws) + 1) - 1e-12, what + " p floor")
    if d["se"] > 1e-9 * sc:
        eq(d["t_stat"], d["effect"] / d["se"], what + " t", 1e-9)


@facet(P, "draws", st.fixed_dictionaries(small), 420, rule="<=9 units: every overall draw is overall + sum_i w_i psi_i for enumerated unit weights; the matched "
       "weights then reproduce SE, percentile CI and p of every ATT(g,t), event-time and cohort effect")
def draws(c):
    df, R, est = prep(c)
    res = est.fit(df, "y", "u", "t", "g", aggregate="all", balance_e=c["be"])
    items = {("overall",): R.w_overall()}
    items.update({("gt",) + gt: {gt: 1.0} for gt in R.cells})
    items.update({("ev", e): w for e, w in R.w_event(c["be"]).items()})
    items.update({("gr", g): w for g, w in R.w_group().items()})
    units = sorted(R.cohort, key=str)
    M = np.array([[R.psi(w).get(u, 0.0) for u in units] for w in items.values()])
    est0 = np.array([R.value(w) for w in items.values()])
    sc = np.max(np.abs(M)) + np.max(np.abs(est0))
    live = np.where(np.abs(M).max(0) > 1e-9 * sc)[0]
    vals = ATOMS[c["wt"]][0]
    assume(len(live) and len(vals) ** len(live) <= 50000)
    W = np.array(list(itertools.product(vals, repeat=len(live)))).reshape(-1, len(live))
    F = W @ M[:, live].T + est0
    br = res.bootstrap_results
    dist = np.asarray(br.bootstrap_distribution, float)
    check(dist.shape == (c["B"],) and br.n_bootstrap == c["B"] and br.weight_type == c["wt"], "metadata")
    order = np.argsort(F[:, 0])
    s = F[order, 0]
    tol = 1e-9 * sc
    picked = np.zeros((c["B"], len(items)))
    amb = False
    for b, v in enumerate(dist):
        lo, hi = np.searchsorted(s, v - tol), np.searchsorted(s, v + tol)
        check(hi > lo, lambda: f"draw {v} is not overall + weighted unit influences (nearest {s[min(lo, len(s)-1)]})")
        m = F[order[lo:hi]]
        amb = amb or np.ptp(m, axis=0).max() > 1e-7 * sc
        picked[b] = m[0]
    eq(res.overall_se, np.std(dist, ddof=1), "overall SE", 1e-9)
    d = dict(effect=res.overall_att, se=res.overall_se, conf_int=res.overall_conf_int, p_value=res.overall_p_value, t_stat=res.overall_t_stat)
    cmp(d, est0[0], picked[:, 0], c["alpha"], "overall", sc)
    if amb:
        return ["ambiguous"]
    for j, k in enumerate(items):
        if k[0] == "gt":
            d = res.group_time_effects[k[1:]]
        elif k[0] == "ev":
            d = res.event_study_effects[k[1]]
        elif k[0] == "gr":
            d = res.group_effects[k[1]]
        else:
            continue
        cmp(d, est0[j], picked[:, j], c["alpha"], str(k), sc)
    return [c["wt"], c["method"], c["control"], f"be{c['be']}", f"units{len(live)}"]


@facet(P, "frequencies", st.fixed_dictionaries(dict(small, nnever=st.integers(4, 9), sizes=st.lists(st.integers(2, 6), min_size=1, max_size=3),
       B=st.just(4000))), 80, rule="4000 draws: mean ~ estimate, SE ~ root sum of squared influences, weight distribution's skewness carried over, within 6 MC sd")
def frequencies(c):
    df, R, est = prep(c)
    res = est.fit(df, "y", "u", "t", "g", aggregate="all")
    B = c["B"]
    vals, pr = (np.array(v) for v in ATOMS[c["wt"]])
    m3, m4 = pr @ vals ** 3, pr @ vals ** 4
    psi = np.array(list(R.psi(R.w_overall()).values()))
    s = np.sqrt((psi ** 2).sum())
    assume(s > 1e-9)
    draws = np.asarray(res.bootstrap_results.bootstrap_distribution) - res.overall_att
    check(abs(draws.mean()) < 6 * s / np.sqrt(B), f"mean of draws {draws.mean()} vs 0 (sd {s})")
    k4 = 3 + (m4 - 3) * (psi ** 4).sum() / s ** 4
    check(abs(res.overall_se / s - 1) < 6 * np.sqrt(max(k4 - 1, .05) / (4 * B)) + 1e-3, f"overall SE {res.overall_se} vs {s}")
    sk = m3 * (psi ** 3).sum() / s ** 3
    check(abs((draws ** 3).mean() / s ** 3 - sk) < 6 * np.sqrt(60 / B), "third moment")
    for gt in R.cells:
        q = np.array(list(R.psi({gt: 1.0}).values()))
        sg = np.sqrt((q ** 2).sum())
        if sg > 1e-9:
            k4 = 3 + (m4 - 3) * (q ** 4).sum() / sg ** 4
            check(abs(res.group_time_effects[gt]["se"] / sg - 1) < 6.5 * np.sqrt(max(k4 - 1, .05) / (4 * B)) + 1e-3, f"SE {gt}")
    return [c["wt"], c["control"]]


@facet(P, "seeded", st.fixed_dictionaries(small), 60, rule="same seed, same draws; another seed, other draws; set_params(bootstrap_weights=) is honoured")
def seeded(c):
    df, R, est = prep(c)
    f = lambda e: np.asarray(e.fit(df, "y", "u", "t", "g").bootstrap_results.bootstrap_distribution)
    a, b = f(est), f(est)
    eq_arr(b, a, "same seed", 0, 0)
    est2 = CallawaySantAnna(**{k: v for k, v in est.get_params().items() if k not in ("bootstrap_weight_type", "bootstrap_weights")})
    est2.set_params(bootstrap_weights=c["wt"])
    eq_arr(f(est2), a, "weights through set_params", 0, 0)
    est.set_params(seed=c["bseed"] + 1)
    x = f(est)
    check(np.ptp(a) == 0 or not np.array_equal(a, x), "another seed gives the same draws")
    return [c["wt"]]
