"""P09 - Sun-Abraham interaction-weighted event study."""
import itertools
from math import factorial
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref, stag
from diff_diff import CallawaySantAnna, SunAbraham

P = "P09"
base = dict(stag.panel, sizes=st.lists(st.integers(1, 5), min_size=1, max_size=3), drop=st.sampled_from([0.0, 0.0, 0.1]),
            anticipation=st.sampled_from([0, 0, 1]), ncov=st.integers(0, 2), cov=st.sampled_from(["vary", "unit"]),
            cl=st.booleans(), alpha=gen.alphas, control=st.sampled_from(["never_treated", "not_yet_treated"]))


def saturated(df, cohort, a, covs):
    """(keys, X, y): within-projected design of the saturated regression"""
    g = np.array([cohort[u] for u in df.u], float)
    t = df["t"].to_numpy(float)
    n = len(df)
    es = sorted({e for e in (t - g)[g > 0]} - {-1.0 - a})
    keys, cols = [], []
    for gg in sorted(set(g[g > 0])):
        for e in es:
            d = ((g == gg) & (t - g == e)).astype(float)
            if d.any():
                keys.append((gg, e))
                cols.append(d)
    F = np.column_stack([np.ones(n), ref.dummies([str(u) for u in df.u]), ref.dummies(df["t"].tolist())])
    Q = ref.indep_columns(F)[1]

    def pr(v):
        w = v - Q @ (Q.T @ v)
        return w if np.linalg.norm(w) > 1e-8 * np.linalg.norm(v) else 0 * w
    X = np.column_stack([pr(c) for c in cols] + [pr(df[x].to_numpy(float)) for x in covs]) if cols else None
    return keys, X, pr(df["y"].to_numpy(float)), g, t, F


def setup(c):
    r = rng_of(c)
    df, cohort, periods = stag.build(c, r, c["ncov"], unitcov=c["cov"] == "unit")
    lo = min(periods) + c["anticipation"]
    df = df[[cohort[u] == 0 or cohort[u] > lo for u in df.u]]
    cohort = {u: cohort[u] for u in set(df.u)}
    assume(any(cohort.values()) and not all(cohort.values()))
    df["cl"] = [f"k{sum(str(u).encode()) % 7}" for u in df.u] if c["cl"] else 0
    return df, cohort, r


@facet(P, "event_study", st.fixed_dictionaries(base), 700, rule="staggered panels, unbalanced, covariates (also absorbed ones), anticipation, unit or named clusters: "
       "cohort effects, IW weights, event-time and overall effects with delta-method cluster SEs vs explicit dummy regression")
def event_study(c):
    df, cohort, r = setup(c)
    covs = [f"x{j}" for j in range(c["ncov"])]
    keys, X, y, g, t, F = saturated(df, cohort, c["anticipation"], [] if c["cov"] == "unit" else covs)
    assume(X is not None)
    n, k = X.shape
    assume(len(ref.indep_columns(np.column_stack([F, X]), 1e-8)[0]) == len(ref.indep_columns(F)[0]) + k and n > k + 2)
    assume((np.linalg.norm(X, axis=0) > 1e-6).all())
    S = np.linalg.svd(X / np.linalg.norm(X, axis=0), compute_uv=False)
    assume(S[-1] > 1e-3 * S[0])
    cl = df["cl" if c["cl"] else "u"].tolist()
    assume(len(set(cl)) > 1)
    R = ref.reg(X, y, "cluster", cl)
    est = SunAbraham(**doc(c, control_group=c["control"], anticipation=c["anticipation"], alpha=c["alpha"], cluster="cl" if c["cl"] else None,
                     rank_deficient_action="silent"))
    res = est.fit(df, outcome="y", unit="u", time="t", first_treat="g", covariates=covs or None)
    sc = np.std(df.y) + 1e-12
    rs = np.max(np.abs(R["resid"])) if n else 0
    idx = {k: i for i, k in enumerate(keys)}
    check({(float(a), float(b)) for a, b in res.cohort_effects} == set(keys), "cohort effect keys")
    tol = 1e-6 * sc + 1e-10 * np.max(np.abs(df.y))
    for kk, i in idx.items():
        d = res.cohort_effects[kk]
        eq(d["effect"], R["coef"][i], f"delta{kk}", 1e-5, tol)
        if np.sqrt(R["vcov"][i, i]) > 1e-4 * sc:
            eq(d["se"], np.sqrt(R["vcov"][i, i]), f"SE delta{kk}", 1e-4)
    V = R["vcov"]
    dmax = np.sqrt(np.max(np.diag(V)))

    def comp(d, wv, what):
        b, s = wv @ R["coef"], np.sqrt(max(wv @ V @ wv, 0))
        eq(d["effect"], b, what, 1e-5, tol)
        if s > 1e-3 * dmax and s > 1e-4 * sc:
            eq(d["se"], s, what + " SE", 1e-4)
            eq(d["t_stat"], d["effect"] / d["se"], what + " t", 1e-8)
            eq(d["p_value"], ref.pval(d["effect"] / d["se"]), what + " p", 1e-6, 1e-12)
            h = ref.crit(c["alpha"]) * d["se"]
            eq_arr(d["conf_int"], [d["effect"] - h, d["effect"] + h], what + " CI", 1e-8)
    es = sorted({e for _, e in keys})
    check({float(e) for e in res.event_study_effects} == set(es), "event times")
    tot = np.zeros(k)
    post = {e: np.sum((t - g == e) & (g > 0)) for e in es if e >= 0}
    for e in es:
        cnt = {gg: np.sum((g == gg) & (t - g == e)) for gg, ee in keys if ee == e}
        N = sum(cnt.values())
        wv = np.zeros(k)
        cw = {float(a): b for a, b in res.cohort_weights[e].items()}
        check(set(cw) == {float(x) for x in cnt}, "weight keys")
        for gg, m in cnt.items():
            eq(cw[gg], m / N, f"weight({gg},{e})", 1e-9)
            eq(res.cohort_effects[(gg, e)]["weight"], m / N, "stored weight", 1e-9)
            wv[idx[gg, e]] = m / N
        comp(res.event_study_effects[e], wv, f"event {e}")
        check(res.event_study_effects[e]["n_groups"] == len(cnt), "n_groups")
        if e >= 0:
            tot += wv * post[e] / sum(post.values())
    d = dict(effect=res.overall_att, se=res.overall_se, t_stat=res.overall_t_stat, p_value=res.overall_p_value, conf_int=res.overall_conf_int)
    if post:
        comp(d, tot, "overall")
    else:
        check(isnan(res.overall_att) and isnan(res.overall_se) and isnan(res.overall_p_value), "overall without post periods")
    check(res.n_obs == n and res.n_treated_units == sum(v > 0 for v in cohort.values()) and
          res.n_control_units == sum(v == 0 for v in cohort.values()), "counts")
    check(sorted(float(x) for x in res.groups) == sorted({float(v) for v in cohort.values() if v}), "groups")
    return [f"cov{c['ncov']}", c["cov"] if covs else "nocov", f"a{c['anticipation']}", "cl" if c["cl"] else "unit", "unbal" if c["drop"] else "bal", c["never"]]


@facet(P, "long", st.fixed_dictionaries(dict(T=st.integers(20, 34), first=st.integers(2, 6), gap=st.integers(0, 24), anticipation=st.sampled_from([0, 0, 1]), n=st.integers(2, 3), pres=gen.presentation,
       noise=st.booleans(), seed=seeds)), 30, 300, rule="panels of 20-34 periods with effects that differ by cohort and grow with exposure: every event time is estimated, and every cohort effect is exactly the difference in differences with the never-treated")
def long(c):
    r = rng_of(c)
    g2 = min(c["first"] + c["gap"], c["T"])
    coh = [0] * c["n"] + [c["first"]] * c["n"] + [g2] * c["n"]
    assume(c["first"] > 1 + c["anticipation"])
    slope = {0: 0.0, c["first"]: 1.0, g2: -2.5}
    df = pd.DataFrame([(i, t, g, i + 0.3 * t + (slope[g] * (t - g + 1) if g and t >= g else 0.0)) for i, g in enumerate(coh) for t in range(1, c["T"] + 1)], columns=["u", "t", "g", "y"])
    if c["noise"]:
        df["y"] += r.normal(size=len(df))
    m = df.groupby(["g", "t"])["y"].mean()
    df = gen.present(df, c["pres"], r)
    res = SunAbraham(anticipation=c["anticipation"]).fit(df, "y", "u", "t", "g")
    ref_e = -1 - c["anticipation"]
    want = {(g, t - g) for g in set(coh) - {0} for t in range(1, c["T"] + 1) if t - g != ref_e}
    check({(int(a), int(b)) for a, b in res.cohort_effects} == want, lambda: f"cohort effects {sorted(want ^ {(int(a), int(b)) for a, b in res.cohort_effects})} missing or extra")
    check({int(e) for e in res.event_study_effects} == {e for _, e in want}, "event times")
    for g, e in want:
        d = m[g, g + e] - m[g, g + ref_e] - m[0, g + e] + m[0, g + ref_e]
        eq(res.cohort_effects[(g, e)]["effect"], d, f"effect of cohort {g} at {e}", 1e-6, 1e-6)
    size = {g: coh.count(g) for g in coh}
    post = [(g, e) for g, e in want if e >= 0]
    eq(res.overall_att, sum(size[g] * (m[g, g + e] - m[g, g + ref_e] - m[0, g + e] + m[0, g + ref_e]) for g, e in post) / sum(size[g] for g, _ in post), "overall", 1e-6, 1e-6)
    return [f"T{c['T'] // 5 * 5}", "beyond20" if c["T"] - c["first"] > 20 else "within20"]


@facet(P, "cs_agreement", st.fixed_dictionaries(dict(base, drop=st.just(0.0), hole=st.just(-1), ncov=st.just(0), cl=st.just(False))), 200,
       rule="balanced, no covariates: cohort effects equal Callaway-Sant'Anna universal-base never-treated ATT(g,t)")
def cs_agreement(c):
    df, cohort, r = setup(c)
    sa = SunAbraham(anticipation=c["anticipation"]).fit(df, "y", "u", "t", "g")
    cs = CallawaySantAnna(anticipation=c["anticipation"], base_period="universal").fit(df, "y", "u", "t", "g")
    sc = np.std(df.y) + 1e-12
    tol = 1e-6 * sc + 1e-10 * np.max(np.abs(df.y))
    check(len(sa.cohort_effects) == len(cs.group_time_effects), "number of effects")
    for (g, tt), d in cs.group_time_effects.items():
        eq(sa.cohort_effects[(g, tt - g)]["effect"], d["effect"], f"({g},{tt})", 1e-6, tol)
    return [f"a{c['anticipation']}"]


def overall_of(df, cohort, a):
    keys, X, y, g, t, F = saturated(df, cohort, a, [])
    if X is None:
        return None
    if len(ref.indep_columns(np.column_stack([F, X]), 1e-8)[0]) < len(ref.indep_columns(F)[0]) + X.shape[1]:
        return None
    b = ref.ols(X, y)
    w = np.array([np.sum((g == gg) & (t - g == e)) if e >= 0 else 0 for gg, e in keys], float)
    return w @ b / w.sum() if w.sum() else None


@facet(P, "bootstrap", st.fixed_dictionaries(dict(
    T=st.integers(3, 4), N=st.integers(5, 6), ntr=st.integers(2, 3), two=st.booleans(), B=st.sampled_from([20, 40]), alpha=gen.alphas, pres=gen.presentation,
    ulab=gen.ulab, drop=st.sampled_from([0.0, 0.1]), bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)), seed=seeds)), 40, 300,
    rule="5-6 units: every overall bootstrap draw is the overall ATT of some resampled multiset of whole units (enumerated); SE, percentile CI, p-value follow from the draws")
def bootstrap(c):
    r = rng_of(c)
    N, T = c["N"], c["T"]
    coh = [2] * c["ntr"] + [0] * (N - c["ntr"])
    if c["two"]:
        coh[0] = 3
    ul = gen.unit_labels(c["ulab"], N, r)
    df = pd.DataFrame([(ul[i], t, coh[i]) for i in range(N) for t in range(1, T + 1)], columns=["u", "t", "g"])
    df["y"] = r.normal(size=len(df)) * 2 + df.t
    df = gen.present(df[r.random(len(df)) >= c["drop"]], c["pres"], r)
    cohort = dict(zip(df.u, df.g))
    units = list(cohort)
    N = len(units)
    vals, pdef = [], 0.0
    parts = {u: df[(df.u == u).to_numpy()] for u in units}
    for ms in itertools.combinations_with_replacement(range(N), N):
        cnt = np.bincount(ms, minlength=N)
        pr = factorial(N) / np.prod([factorial(int(m)) for m in cnt]) / N ** N
        d = pd.concat([parts[units[i]].assign(u=j) for j, i in enumerate(ms)])
        v = overall_of(d, dict(zip(d.u, d.g)), 0)
        if v is None:
            pdef += pr
        else:
            vals.append(v)
    vals = np.sort(np.array(vals))
    assume(len(vals) > 5 and overall_of(df, cohort, 0) is not None)
    B = c["B"]
    res = SunAbraham(n_bootstrap=B, seed=c["bseed"], alpha=c["alpha"], rank_deficient_action="silent").fit(df, "y", "u", "t", "g")
    br = res.bootstrap_results
    dist = np.asarray(br.bootstrap_distribution, float)
    check(dist.shape == (B,) and br.n_bootstrap == B, "metadata")
    tol = 1e-7 * (np.std(df.y) + np.max(np.abs(vals)))
    bad = 0
    for v in dist:
        i = np.searchsorted(vals, v) if np.isfinite(v) else 0
        near = min([abs(vals[j] - v) for j in (i - 1, i) if 0 <= j < len(vals)], default=np.inf) if np.isfinite(v) else np.inf
        bad += not near <= tol
    lim = B * pdef + 6 * np.sqrt(B * pdef * (1 - pdef)) + 1
    check(bad <= lim, f"{bad}/{B} draws are not the overall ATT of any resample of whole units (expected about {B*pdef:.1f})")
    if np.isfinite(dist).all():
        eq(res.overall_se, np.std(dist, ddof=1), "SE")
        eq_arr(res.overall_conf_int, np.percentile(dist, [50 * c["alpha"], 100 - 50 * c["alpha"]]), "CI")
        p = 2 * (np.mean(dist <= 0) if res.overall_att >= 0 else np.mean(dist >= 0))
        eq(res.overall_p_value, max(min(p, 1), 1 / (B + 1)), "p")
        eq(res.overall_t_stat, res.overall_att / res.overall_se, "t")
    else:
        check(isnan(res.overall_se) and isnan(res.overall_p_value), "undefined draws but defined inference")
    ana = SunAbraham(rank_deficient_action="silent").fit(df, "y", "u", "t", "g")
    eq(res.overall_att, ana.overall_att, "point estimate changed by bootstrap", 1e-9)
    return [f"N{N}", c["pres"], "finite" if np.isfinite(dist).all() else "nan"]


@facet(P, "bootstrap_events", st.fixed_dictionaries(dict(
    T=st.integers(3, 6), N=st.integers(5, 12), ntr=st.integers(2, 4), g=st.integers(2, 6), B=st.sampled_from([15, 40]), alpha=gen.alphas, eff=st.sampled_from([0.0, 1.0, -2.0]),
    ulab=gen.ulab, bseed=st.one_of(st.just(0), st.integers(0, 10**6), st.integers(0, 10**6)), seed=seeds)), 40, 300,
    rule="balanced panels with one cohort: bootstrap SE, interval, p-value and t of each event time equal those of the overall ATT of the panel cut down to the reference period and that event time, resampled alike")
def bootstrap_events(c):
    r = rng_of(c)
    N, T = c["N"], c["T"]
    g = min(c["g"], T)
    coh = [g] * c["ntr"] + [0] * (N - c["ntr"])
    ul = gen.unit_labels(c["ulab"], N, r)
    df = pd.DataFrame([(ul[i], t, coh[i]) for i in range(N) for t in range(1, T + 1)], columns=["u", "t", "g"])
    df["y"] = r.normal(size=len(df)) * 2 + df.t + c["eff"] * ((df.g > 0) & (df.t >= df.g))
    kw = dict(n_bootstrap=c["B"], seed=c["bseed"], alpha=c["alpha"], rank_deficient_action="silent")
    res = SunAbraham(**kw).fit(df, "y", "u", "t", "g")
    es = res.event_study_effects
    check(sorted(es) == [e for e in range(1 - g, T - g + 1) if e != -1], "event times")
    br = res.bootstrap_results
    seen = set()
    for e, v in es.items():
        cut = df[(df.t == g - 1) | (df.t == g + e)].copy()
        cut.loc[cut.t == g + e, "t"] = g
        one = SunAbraham(**kw).fit(cut, "y", "u", "t", "g")
        eq(v["effect"], one.overall_att, f"effect at {e}", 1e-8, 1e-8)
        eq(v["se"], one.overall_se, f"bootstrap SE at {e}", 1e-6, 1e-8)
        eq_arr(v["conf_int"], one.overall_conf_int, f"bootstrap interval at {e}", 1e-6, 1e-7)
        eq(v["p_value"], one.overall_p_value, f"bootstrap p at {e}", 1e-9)
        eq(v["t_stat"], v["effect"] / v["se"] if v["se"] > 0 else float("nan"), f"t at {e}", 1e-9)
        eq(v["se"], br.event_study_ses[e], "stored SE", 1e-12)
        eq_arr(v["conf_int"], br.event_study_cis[e], "stored interval", 1e-12)
        eq(v["p_value"], br.event_study_p_values[e], "stored p", 1e-12)
        seen |= {"pre" if e < 0 else "post", "nan" if isnan(v["se"]) else "finite"}
    return seen
