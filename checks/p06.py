"""P06 - Callaway-Sant'Anna group-time effects."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref, stag
from harness.csref import CS
from diff_diff import CallawaySantAnna

P = "P06"
opts = dict(stag.panel, ncov=st.sampled_from([0, 0, 1, 2]), method=st.sampled_from(["reg", "ipw", "dr"]),
            control=st.sampled_from(["never_treated", "not_yet_treated"]), anticipation=st.sampled_from([0, 0, 1, 2]),
            base=st.sampled_from(["varying", "universal"]), gap=st.sampled_from([False, False, False, True]),
            unitcov=st.booleans(), late=st.sampled_from([False, False, True]), covscale=st.sampled_from([1.0, 1.0, 100.0, 1e4]),
            alpha=gen.alphas)
case_st = st.fixed_dictionaries(opts)


def setup(c):
    r = rng_of(c)
    if c["ncov"]:
        c = dict(c, nnever=c["nnever"] + 6, sizes=[s + 3 for s in c["sizes"]])
    df, cohort, periods = stag.build(c, r, c["ncov"], c["gap"], c["unitcov"], c["late"])
    assume(any(cohort.values()) and not all(cohort.values()))
    covs = [f"x{j}" for j in range(c["ncov"])]
    for x in covs:
        df[x] = df[x] * c["covscale"] + 3 * c["covscale"]
    Y = {(u, t): y for u, t, y in zip(df.u, df.t, df.y)}
    for k in r.permutation(len(df))[:c.get("miss", 0)]:
        df.iloc[k, df.columns.get_loc(covs[k % len(covs)])] = np.nan
    X = {(u, t): list(v) for u, t, v in zip(df.u, df.t, df[covs].to_numpy())} if covs else None
    R = CS(Y, cohort, periods, X, c["control"], c["method"], c["anticipation"], c["base"])
    assume(R.cells)
    # outcome regression needs as many controls as coefficients in every cell (it refuses otherwise)
    assume(not covs or c["method"] == "ipw" or all(x["n0"] > len(covs) for x in R.cells.values()))
    est = CallawaySantAnna(**doc(c, control_group=c["control"], anticipation=c["anticipation"], estimation_method=c["method"],
                           base_period=c["base"], alpha=c["alpha"], rank_deficient_action="silent"))
    return df, covs, R, est


def scale_of(df):
    y = df["y"].to_numpy()
    return np.std(y) + 1e-12, np.max(np.abs(y))


@facet(P, "att_gt", case_st, 1100, rule="staggered panels (cohort sizes, gaps, unbalanced rows, inf/0 never coding, any labels, time-varying covariates); "
       "exact key set and every ATT(g,t), n_treated, n_control vs loop-based reference; overall/event/group points follow from them")
def att_gt(c):
    df, covs, R, est = setup(c)
    res = est.fit(df, outcome="y", unit="u", time="t", first_treat="g", covariates=covs or None, aggregate="all")
    got = res.group_time_effects
    check(set(got) == set(R.cells), lambda: f"cells: extra {sorted(set(got)-set(R.cells))}, missing {sorted(set(R.cells)-set(got))}")
    sd, mx = scale_of(df)
    tol = (1e-4 if covs and c["method"] != "reg" else 1e-7) * sd + 1e-11 * mx
    ntest = 0
    for gt, cell in R.cells.items():
        check(got[gt]["n_treated"] == cell["n1"] and got[gt]["n_control"] == cell["n0"],
              lambda: f"{gt}: sample sizes {got[gt]['n_treated']}/{got[gt]['n_control']} vs {cell['n1']}/{cell['n0']}")
        if cell["ok"]:
            eq(got[gt]["effect"], cell["att"], f"ATT{gt}", 1e-6, tol)
            ntest += 1
        cell["att"] = got[gt]["effect"]
    w = R.w_overall()
    eq(res.overall_att, R.value(w) if w else np.nan, "overall ATT", 1e-8, 1e-10 * mx)
    ev = R.w_event()
    for e, ws in ev.items():
        eq(res.event_study_effects[e]["effect"], R.value(ws), f"event {e}", 1e-8, 1e-10 * mx)
        check(res.event_study_effects[e]["n_groups"] == len(ws), "n_groups")
    extra = set(res.event_study_effects) - set(ev)
    want = {-1 - c["anticipation"]} - set(ev) if c["base"] == "universal" else set()
    check(extra == want, f"extra event times {extra}, expected {want}")
    for e in extra:
        d = res.event_study_effects[e]
        check(d["effect"] == 0 and isnan(d["se"]) and isnan(d["p_value"]) and d["n_groups"] == 0, "reference period")
    gr = R.w_group()
    check(set(res.group_effects) == set(gr), "group effects keys")
    for g, ws in gr.items():
        eq(res.group_effects[g]["effect"], R.value(ws), f"group {g}", 1e-8, 1e-10 * mx)
        check(res.group_effects[g]["n_periods"] == len(ws), "n_periods")
    check(sorted(res.groups) == R.groups and sorted(res.time_periods) == R.periods, "groups/time_periods")
    check(res.n_obs == len(df) and res.n_treated_units == sum(v > 0 for v in R.cohort.values())
          and res.n_control_units == sum(v == 0 for v in R.cohort.values()), "counts")
    return [c["method"] if covs else "nocov", c["control"], c["base"], f"a{c['anticipation']}", c["never"],
            "unbal" if c["drop"] else "bal"] if ntest else None


@facet(P, "collinear", st.fixed_dictionaries(dict(seed=seeds, method=st.sampled_from(["reg", "dr", "ipw"]), dup=st.sampled_from(["copy", "affine", "const"]))), 80,
       rule="adding a linearly dependent covariate leaves every ATT(g,t) unchanged")
def collinear(c):
    r = rng_of(c)
    k = dict(T=4, nnever=14, sizes=[7, 6], start=[1, 2, 0], t0=1, drop=0.0, never="zero", noise="gauss", ulab="int", pres="plain")
    df, cohort, periods = stag.build(k, r, 1)
    df["z"] = {"copy": df.x0, "affine": 3 * df.x0 - 2, "const": 1.5}[c["dup"]]
    f = lambda covs: CallawaySantAnna(**doc(c, estimation_method=c["method"], rank_deficient_action="silent")).fit(df, "y", "u", "t", "g", covariates=covs)
    a, b = f(["x0"]), f(["x0", "z"])
    for gt, d in a.group_time_effects.items():
        eq(b.group_time_effects[gt]["effect"], d["effect"], f"{gt} with dependent covariate", 1e-3, 1e-3)
        eq(b.group_time_effects[gt]["se"], d["se"], f"SE {gt} with dependent covariate", 1e-3, 1e-3)
    return [c["method"], c["dup"]]


@facet(P, "recovery", st.fixed_dictionaries(dict(stag.panel, control=st.sampled_from(["never_treated", "not_yet_treated"]),
       base=st.sampled_from(["varying", "universal"]), method=st.sampled_from(["reg", "ipw", "dr"]))), 250,
       rule="noise-free heterogeneous dynamic effects under parallel trends: every post ATT(g,t) is the true effect, every pre ATT is 0, "
       "whichever control group (and identical for the two control groups)")
def recovery(c):
    r = rng_of(c)
    df, cohort, periods = stag.build(dict(c, noise="gauss", drop=0.0, hole=-1), r)
    tau = {}
    ufe = {u: r.normal() * 3 for u in cohort}
    tfe = {t: r.normal() * 3 for t in periods}

    def y(u, t):
        g = cohort[u]
        if g and t >= g:
            return tau.setdefault((g, t), 1 + 5 * r.random())
        return 0.0
    df["y"] = [ufe[u] + tfe[t] + y(u, t) for u, t in zip(df.u, df.t)]
    assume(any(cohort.values()))
    est = CallawaySantAnna(**doc(c, control_group=c["control"], base_period=c["base"], estimation_method=c["method"]))
    res = est.fit(df, "y", "u", "t", "g")
    n = 0
    for (g, t), d in res.group_time_effects.items():
        if t >= g:
            eq(d["effect"], tau[g, t], f"ATT({g},{t})", 1e-9, 1e-9)
            n += 1
        elif not (c["control"] == "not_yet_treated" and c["base"] == "universal"):
            eq(d["effect"], 0.0, f"pre ATT({g},{t})", atol=1e-9)
    return [c["control"], c["base"]] if n else None


@facet(P, "missing_covariate", st.fixed_dictionaries(dict(opts, ncov=st.integers(1, 2), miss=st.integers(1, 3), drop=st.just(0.0), covscale=st.just(1.0))), 200,
       rule="missing covariate values: exactly the cells whose base-period covariates are incomplete are estimated without covariates, with a warning; every other cell is unaffected")
def missing_covariate(c):
    import warnings
    df, covs, R, est = setup(c)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        got = est.fit(df, outcome="y", unit="u", time="t", first_treat="g", covariates=covs).group_time_effects
    check(set(got) == set(R.cells), "cells")
    sd, mx = scale_of(df)
    tol = (1e-4 if c["method"] != "reg" else 1e-7) * sd + 1e-11 * mx
    fell = [gt for gt, x in R.cells.items() if x["uncond"]]
    for gt, x in R.cells.items():
        if x["ok"]:
            eq(got[gt]["effect"], x["att"], f"ATT{gt}{' (incomplete covariates)' if x['uncond'] else ''}", 1e-6, tol)
            eq(got[gt]["se"], x["se"], f"SE{gt}", 1e-4, tol)
    said = [str(w.message) for w in ws if "issing values in covariates" in str(w.message)]
    check(bool(said) == bool(fell), lambda: f"cells {fell} fell back to unconditional estimation; warnings {said}")
    return [c["method"], f"fell{min(len(fell), 3)}"] if fell and len(fell) < len(R.cells) else None
