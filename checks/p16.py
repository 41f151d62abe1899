"""P16 - HonestDiD sensitivity analysis."""
import dataclasses
import numpy as np
from scipy import stats
from harness.core import *
from harness import gen, ref, stag, zoo
from checks import p03
from diff_diff import CallawaySantAnna, HonestDiD, MultiPeriodDiD, compute_honest_did

P = "P16"
mp = dict(T=mostly(3, 6, 12), per=st.lists(st.integers(2, 6), min_size=14, max_size=14), ncov=st.integers(0, 2), labels=st.sampled_from(["range", "years", "gaps", "neg", "str", "float", "date"]),
          post=st.sampled_from(["default", "tail", "tail", "subset", "reversed"]), refp=st.just("default"), cut=st.integers(0, 20), bits=st.integers(0, 2**13 - 1), rr=st.just(0), fe=st.just("none"), G=st.just(2),
          noise=st.sampled_from(["gauss", "hetero", "int", "shift"]), se=st.sampled_from(["hc1", "classical", "cluster"]), dtype=st.just("int"), pres=gen.presentation)
cs = dict(stag.panel, T=mostly(4, 7, 13), t0=st.just(1), drop=st.just(0.0), hole=st.just(-1), sizes=st.lists(st.integers(2, 6), min_size=1, max_size=3), noise=st.just("gauss"), base=st.sampled_from(["varying", "universal"]))
common = dict(alpha=gen.alphas, M=st.sampled_from([0.0, 0.0, 0.3, 1.0, 2.5, 20.0]), lv=st.sampled_from(["uniform", "first", "random", "signed"]), seed=seeds)
src = st.one_of(st.fixed_dictionaries(dict(common, src=st.just("mp"), **mp)), st.fixed_dictionaries({**cs, **common, "src": st.just("cs")}))


def results(c):
    """(results object, post effects, covariance of the post effects, largest pre-period violation)"""
    if c["src"] == "mp":
        df, labs, pre_idx, post_idx, ri = p03.build(c)
        covs = [f"x{j}" for j in range(c["ncov"])]
        n, T = len(df), c["T"]
        kw = dict(covariates=covs or None)
        if c["post"] != "default":
            kw["post_periods"] = [labs[i] for i in post_idx]
        res = MultiPeriodDiD(robust=c["se"] != "classical", cluster="cl" if c["se"] == "cluster" else None).fit(df, outcome="y", treatment="d", time="p", **kw)
        d, y = df["d"].to_numpy(float), df["y"].to_numpy(float)
        pos = {l: k for k, l in enumerate(labs)}
        t = np.array([pos[v] for v in df["p"]])
        X = np.column_stack([np.ones(n), d] + [(t == k).astype(float) for k in range(1, T)] + [df[x].to_numpy(float) for x in covs] + [d * (t == k) for k in post_idx])
        m = len(post_idx)
        R = ref.reg(X, y, c["se"], df["cl"].tolist())
        assume(R["k_eff"] == X.shape[1] and n - X.shape[1] > 1)
        V = R["vcov"][-m:, -m:]
        assume(np.sqrt(np.diag(V)).min() > 1e-6)
        return res, R["coef"][-m:], V, res.avg_se
    r = rng_of(c)
    df, coh, per = stag.build(c, r)
    g = sorted({v for v in coh.values() if v})
    assume(g and min(g) > per[0] and sum(v == 0 for v in coh.values()) >= 2)
    res = CallawaySantAnna(base_period=c["base"]).fit(df, "y", "u", "t", "g", aggregate="event_study")
    ev = res.event_study_effects
    use = {e: v for e, v in ev.items() if v["n_groups"] > 0 and np.isfinite(v["se"])}
    post = sorted(e for e in use if e >= 0)
    assume(post and all(use[e]["se"] > 1e-6 and np.isfinite(use[e]["effect"]) for e in post))
    pre = [abs(v["effect"]) for e, v in ev.items() if e < 0 and v["n_groups"] > 0]
    assume(all(np.isfinite(pre)))
    return res, np.array([use[e]["effect"] for e in post]), np.diag([use[e]["se"] ** 2 for e in post]), max(pre) if pre else res.overall_se


def lvec(c, m):
    r = rng_of(c, 7)
    return {"uniform": np.ones(m) / m, "first": np.eye(m)[0], "random": r.dirichlet(np.ones(m)), "signed": r.normal(size=m)}[c["lv"]]


def parts(c):
    res, b, V, v = results(c)
    l = lvec(c, len(b))
    return res, l, float(l @ b), float(np.sqrt(l @ V @ l)), v


def make(c, l, method):
    return HonestDiD(**doc(c, method=method, M=c["M"], alpha=c["alpha"]), l_vec=None if c["lv"] == "uniform" else (list(l) if c["seed"] % 2 else l))


@facet(P, "relative_magnitude", src, 500, rule="event studies from MultiPeriodDiD (post-period covariance recomputed from the data) and Callaway-Sant'Anna; any weights, M, alpha: identified set is "
       "estimate +/- M x largest pre-period violation, robust CI adds z x SE; significance and widths follow")
def relative_magnitude(c):
    res, l, th, se, v = parts(c)
    if c["src"] == "mp" and c["seed"] % 7 == 3:  # saved without the covariance: standard errors only
        res = dataclasses.replace(res, vcov=None)
        h = make(c, l, "relative_magnitude").fit(res)
        sv = [res.period_effects[p].se for p in res.post_periods]
        eq(h.original_se, np.sqrt(np.sum((l * sv) ** 2)), "standard error without a covariance matrix", 1e-9)
        eq_arr([h.lb, h.ub], [th - c["M"] * v, th + c["M"] * v], "identified set", 1e-7, 1e-8 * (abs(th) + se + c["M"] * v))
        return ["no covariance"]
    h = make(c, l, "relative_magnitude").fit(res)
    sc = abs(th) + se + c["M"] * v
    eq(h.original_estimate, th, "estimate", 1e-7, 1e-8 * sc)
    eq(h.original_se, se, "standard error", 1e-6, 1e-9 * sc)
    eq_arr([h.lb, h.ub], [th - c["M"] * v, th + c["M"] * v], "identified set", 1e-7, 1e-8 * sc)
    z = stats.norm.ppf(1 - c["alpha"] / 2)
    eq_arr([h.ci_lb, h.ci_ub], [th - c["M"] * v - z * se, th + c["M"] * v + z * se], "robust CI", 1e-6, 1e-8 * sc)
    check(h.is_significant == (h.ci_lb > 0 or h.ci_ub < 0), "significance")
    eq(h.identified_set_width, h.ub - h.lb, "set width")
    eq(h.ci_width, h.ci_ub - h.ci_lb, "CI width")
    check(h.M == c["M"] and h.method == "relative_magnitude" and h.alpha == c["alpha"], "bookkeeping")
    o = HonestDiD(method="relative_magnitude", alpha=c["alpha"], l_vec=l).fit(res, M=c["M"])
    check((o.lb, o.ub, o.ci_lb, o.ci_ub) == (h.lb, h.ub, h.ci_lb, h.ci_ub) or np.allclose([o.lb, o.ub, o.ci_lb, o.ci_ub], [h.lb, h.ub, h.ci_lb, h.ci_ub], rtol=1e-12), "M given at fit time")
    if c["lv"] == "uniform":
        f = compute_honest_did(res, **doc(c, method="relative_magnitude", M=c["M"], alpha=c["alpha"]))
        eq_arr([f.lb, f.ub, f.ci_lb, f.ci_ub], [h.lb, h.ub, h.ci_lb, h.ci_ub], "convenience function", 1e-12)
        if c["src"] == "mp":
            eq(h.original_se, res.avg_se, "uniform weights: SE of the average effect", 1e-6)
            eq(h.original_estimate, res.avg_att, "uniform weights: the average effect", 1e-7, 1e-8 * sc)
    raises(lambda: HonestDiD(l_vec=np.ones(len(l) + 1)).fit(res), what="weights of the wrong length")
    return [c["src"], c["lv"], f"M{c['M']}"] + ([c["se"]] if c["src"] == "mp" else [])


@facet(P, "sensitivity", st.tuples(src, st.lists(st.sampled_from([0, 0.1, 0.25, 0.5, 1, 1.5, 2, 4, 8, 30]), min_size=1, max_size=6), st.booleans()).map(list), 300,
       rule="every grid point equals a separate fit; the breakdown value (grid and direct search) is where the robust CI first reaches zero: (|estimate| - z SE) / largest pre-period violation")
def sensitivity(a):
    c, grid, default = a
    res, l, th, se, v = parts(c)
    hd = make(c, l, "relative_magnitude")
    s = hd.sensitivity_analysis(res) if default else hd.sensitivity_analysis(res, M_grid=grid)
    Ms = list(s.M_values)
    check(default or Ms == grid, "grid")
    for M, b, ci in zip(Ms, s.bounds, s.robust_cis):
        f = hd.fit(res, M=M)
        eq_arr(list(b) + list(ci), [f.lb, f.ub, f.ci_lb, f.ci_ub], f"bounds at M={M}", 1e-9)
    eq(s.original_estimate, th, "estimate", 1e-7, 1e-8 * (abs(th) + se))
    eq(s.original_se, se, "SE", 1e-6)
    z = stats.norm.ppf(1 - c["alpha"] / 2)
    slack = abs(th) - z * se
    assume(abs(slack) > 1e-6 * (abs(th) + se) and v > 1e-9 * (abs(th) + se))
    bd = max(0.0, slack / v)
    hi = max(Ms)
    lo = 0.0
    assume(abs(hi - bd) > 1e-4 * (1 + bd))
    if bd > hi:
        check(s.breakdown_M is None, lambda: f"breakdown {s.breakdown_M}, but the CI excludes zero up to M={hi} (breakdown is {bd})")
    else:
        eq(s.breakdown_M, bd, "breakdown on the grid", 1e-4, 1e-4 * max(1.0, hi))
    check(s.has_breakdown == (s.breakdown_M is not None), "has_breakdown")
    t = s.to_dataframe()
    check(list(t["M"]) == Ms and np.allclose(t["ci_lb"], [x[0] for x in s.robust_cis]) and np.allclose(t["ub"], [x[1] for x in s.bounds]), "table")
    check(list(t["is_significant"]) == [x[0] > 0 or x[1] < 0 for x in s.robust_cis], "table significance")
    d = hd.breakdown_value(res)
    if bd < 1e8:
        check(d is not None, lambda: f"no breakdown value, but the CI reaches zero at M={bd}")
        eq(d, bd, "breakdown value", 1e-6, 0.0101)
        d = hd.breakdown_value(res, tol=1e-5)
        eq(d, bd, "breakdown value at a tighter tolerance", 1e-6, 1.1e-5)
    return [c["src"], "none" if bd > hi else "zero" if bd == 0 else "inside"] + (["big"] if bd > 10 else []) + (["unsorted"] if Ms != sorted(Ms) else [])


@facet(P, "combined", src, 200, rule="the combined restriction is the intersection of the two single restrictions, never wider than either; smoothness sets contain the estimate and grow with M")
def combined(c):
    res, l, th, se, v = parts(c)
    rm, sd, cb = (make(c, l, m).fit(res) for m in ("relative_magnitude", "smoothness", "combined"))
    sc = abs(th) + se + c["M"] * v
    eq_arr([cb.lb, cb.ub], [max(rm.lb, sd.lb), min(rm.ub, sd.ub)], "intersection", 1e-9, 1e-9 * sc)
    z = stats.norm.ppf(1 - c["alpha"] / 2)
    eq_arr([cb.ci_lb, cb.ci_ub], [cb.lb - z * se, cb.ub + z * se], "combined CI", 1e-6, 1e-8 * sc)
    if c["lv"] == "uniform":
        for m, q in (("relative_magnitude", rm), ("smoothness", sd), ("combined", cb)):
            f = compute_honest_did(res, m, c["M"], **doc(c, alpha=c["alpha"]))
            eq_arr([f.lb, f.ub, f.ci_lb, f.ci_ub], [q.lb, q.ub, q.ci_lb, q.ci_ub], f"convenience function, {m}", 1e-12)
    for m, M in (("relative_magnitude", 1.0), ("smoothness", 0.0)):
        f, q = (HonestDiD(method=m, alpha=c["alpha"], l_vec=l, **k).fit(res) for k in ({}, dict(M=M)))
        eq_arr([f.M, f.lb, f.ub, f.ci_lb, f.ci_ub], [M, q.lb, q.ub, q.ci_lb, q.ci_ub], f"default M of {m}", 1e-12)
    more = make(c, l, "smoothness").fit(res, M=c["M"] + 1)
    check(more.lb <= sd.lb + 1e-9 * sc and more.ub >= sd.ub - 1e-9 * sc and sd.lb <= th + 1e-9 * sc if c["src"] == "mp" else more.lb <= sd.lb + 1e-9 * sc, "smoothness sets are nested in M")
    return [c["src"], f"M{c['M']}"]


@facet(P, "smoothness_informative", st.fixed_dictionaries({**cs, **common, "src": st.just("cs")}), 0, 0, rule="(known finding only) with estimated pre-period effects the smoothness restriction gives a bounded set")
def smoothness_informative(c):
    res, l, th, se, v = parts(c)
    h = HonestDiD(method="smoothness", M=0.0).fit(res)
    check(np.isfinite(h.lb) and np.isfinite(h.ub), f"smoothness M=0 identified set is ({h.lb}, {h.ub})")
    return True


@facet(P, "undefined", st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from(["cs", "mp", "mp_absorb"]), npre=st.integers(2, 4), noise=st.sampled_from(["gauss", "exact"]), method=st.sampled_from(["relative_magnitude", "relative_magnitude", "combined"]), M=st.sampled_from([0.0, 0.5, 1.0]), kill=st.sampled_from(["post", "all", "none"]))), 150,
       rule="event studies whose post-treatment standard errors are undefined: the analysis refuses, or reports an undefined interval and no robustness to anything")
def undefined(c):
    s = zoo.spec(dict(c, noise="gauss", m=0, agg="event_study", antic=0))
    res = s.fit()
    if c["kind"] == "cs":
        for e, q in res.event_study_effects.items():
            if c["kill"] == "all" or c["kill"] == "post" and e >= 0:
                q["se"] = np.nan
        left = [e for e, q in res.event_study_effects.items() if e >= 0 and np.isfinite(q["se"])]
    else:
        left = [1]
        if c["kill"] != "none":
            res.vcov = np.full_like(res.vcov, np.nan)
            for p in res.period_effects.values():
                p.se = np.nan
    H = HonestDiD(method=c["method"], M=c["M"])
    if not left:
        for f in (lambda: H.fit(res), lambda: H.sensitivity_analysis(res, M_grid=[0.0, 1.0]), lambda: H.breakdown_value(res)):
            raises(f, (ValueError,), "sensitivity analysis without post-treatment effects")
        return {c["kind"], "refused"}
    r = H.fit(res)
    if c["kill"] == "none" or not isnan(r.original_se):
        return None
    check(isnan(r.ci_lb) or r.ci_lb <= 0 <= r.ci_ub, f"an interval ({r.ci_lb}, {r.ci_ub}) from an undefined standard error")
    check(r.is_significant is False and r.significance_stars == "" and "*" not in repr(r), "an undefined interval is called significant")
    check("POSITIVE" not in r.summary() and "NEGATIVE" not in r.summary(), "summary claims robustness of an undefined interval")
    g = H.sensitivity_analysis(res, M_grid=[0.0, 1.0])
    check(not g.to_dataframe()["is_significant"].any() and g.breakdown_M == 0 and H.breakdown_value(res) == 0, f"breakdown value {g.breakdown_M} from undefined intervals")
    return {c["kind"], c["method"]}
