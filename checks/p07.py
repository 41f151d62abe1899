"""P07 - Callaway-Sant'Anna aggregation and analytical inference."""
import numpy as np
from harness.core import *
from harness import gen, ref, stag
from checks.p06 import case_st, setup, scale_of
from diff_diff import CallawaySantAnna

P = "P07"


def infer(d, eff, se, alpha, what, tol=1e-6):
    eq(d["effect"], eff, what + " effect", tol, 1e-9)
    eq(d["se"], se, what + " SE", max(tol, 1e-6), 1e-10)
    own = d["se"]
    if np.isfinite(own) and own > 0:
        eq(d["t_stat"], d["effect"] / own, what + " t")
        eq(d["p_value"], ref.pval(d["effect"] / own), what + " p", 1e-6, 1e-12)
        h = ref.crit(alpha) * own
        eq_arr(d["conf_int"], [d["effect"] - h, d["effect"] + h], what + " CI")
    else:
        check(isnan(d["t_stat"]) and isnan(d["p_value"]), what + ": t/p defined although SE is not positive")


@facet(P, "inference", st.tuples(case_st, st.sampled_from([None, None, 0, 1, 2, -1])).map(list), 900,
       rule="SEs of every ATT(g,t), event-time, cohort and overall effect (with the weight-estimation term) vs unit-level influence sums; "
       "balance_e cohort restriction; normal t/p/CI at the configured alpha")
def inference(a):
    c, be = a
    df, covs, R, est = setup(c)
    kw = {} if be is None else dict(balance_e=be)
    res = est.fit(df, "y", "u", "t", "g", covariates=covs or None, aggregate="all", **kw)
    sd, mx = scale_of(df)
    assume(all(x["ok"] for x in R.cells.values()) and mx < 1e4 * sd)
    tol = 2e-3 if covs and c["method"] != "reg" else 1e-6
    floor = 1e-7 * sd
    al = c["alpha"]

    def go(d, eff, se, what):
        if se > floor:
            s = se + abs(eff) + sd
            eq(d["effect"], eff, what + " effect", tol, 1e-4 * s if tol > 1e-5 else 1e-8 * s)
            infer(d, d["effect"], se, al, what, tol)
    for gt, cell in R.cells.items():
        go(res.group_time_effects[gt], cell["att"], cell["se"], f"ATT{gt}")
    ev = R.w_event(be)
    check(set(ev) <= set(res.event_study_effects) and len(res.event_study_effects) - len(ev) <= (c["base"] == "universal"), "event times")
    for e, w in ev.items():
        go(res.event_study_effects[e], R.value(w), R.se(w), f"event {e}")
    for g, w in R.w_group().items():
        go(res.group_effects[g], R.value(w), R.se(w), f"cohort {g}")
    w = R.w_overall()
    if not w:
        check(all(isnan(v) for v in (res.overall_att, res.overall_se, res.overall_t_stat, res.overall_p_value)), "no post periods")
        return ["nopost"]
    d = dict(effect=res.overall_att, se=res.overall_se, t_stat=res.overall_t_stat, p_value=res.overall_p_value, conf_int=res.overall_conf_int)
    go(d, R.value(w), R.se_overall(), "overall")
    return ["cov" if covs else "nocov", c["method"], f"bal{be}", c["control"]]


@facet(P, "aggregate_option", st.tuples(case_st, st.sampled_from([None, "simple", "event_study", "group", "all"])).map(list), 160,
       rule="aggregate= only selects which tables are produced; numbers agree with aggregate='all'")
def aggregate_option(a):
    c, ag = a
    c = dict(c, ncov=0)
    df, covs, R, est = setup(c)
    full = est.fit(df, "y", "u", "t", "g", aggregate="all")
    res = est.fit(df, "y", "u", "t", "g", aggregate=ag)
    eq(res.overall_att, full.overall_att, "overall")
    eq(res.overall_se, full.overall_se, "overall SE")
    check((res.event_study_effects is not None) == (ag in ("event_study", "all")), "event study presence")
    check((res.group_effects is not None) == (ag in ("group", "all")), "group presence")
    for x, y in ((res.event_study_effects, full.event_study_effects), (res.group_effects, full.group_effects)):
        if x is not None:
            check(set(x) == set(y), "keys")
            for k in x:
                eq(x[k]["effect"], y[k]["effect"], str(k))
                eq(x[k]["se"], y[k]["se"], str(k))
    return [str(ag)]


@facet(P, "cluster_param", st.fixed_dictionaries(dict(seed=seeds, G=st.integers(3, 6))), 0, 0,
       rule="(known finding only) cluster= changes the standard errors when units are correlated within clusters")
def cluster_param(c):
    r = rng_of(c)
    k = dict(T=4, nnever=12, sizes=[8, 6], start=[1, 2, 0], t0=1, drop=0.0, never="zero", noise="gauss", ulab="int", pres="plain")
    df, cohort, periods = stag.build(k, r)
    df["cl"] = df["u"] % c["G"]
    df["y"] += r.normal(size=(c["G"], 10))[df.cl, df.t] * 4
    a = CallawaySantAnna().fit(df, "y", "u", "t", "g")
    b = CallawaySantAnna(cluster="cl").fit(df, "y", "u", "t", "g")
    check(abs(a.overall_se - b.overall_se) > 1e-12, "cluster= does not change any standard error")
    return True
