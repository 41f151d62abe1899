"""P17 - power of pre-trends tests."""
import dataclasses
import numpy as np
from scipy import stats
from harness.core import *
from harness import gen, ref, stag
from checks import p03
from diff_diff import CallawaySantAnna, MultiPeriodDiD, PreTrendsPower, SunAbraham, compute_mdv, compute_pretrends_power

P = "P17"
mp = dict(T=mostly(3, 8, 13), per=st.lists(st.integers(2, 6), min_size=16, max_size=16), ncov=st.integers(0, 2), labels=st.sampled_from(["range", "years", "gaps", "neg", "str", "float", "date"]),
          post=st.just("default"), refp=st.just("default"), cut=st.integers(0, 20), bits=st.integers(0, 255), rr=st.just(0), fe=st.just("none"), G=st.just(2),
          noise=gen.noise, se=st.sampled_from(["hc1", "classical", "cluster"]), dtype=st.just("int"), pres=gen.presentation, tname=st.sampled_from(["treated", "d", "arm:x"]), shuf=st.booleans(), strip=st.sampled_from(["none"] * 6 + ["vcov", "coef"]))
cs = dict(stag.panel, T=mostly(4, 8, 13), t0=st.just(1), drop=st.just(0.0), hole=st.just(-1), sizes=st.lists(st.integers(2, 6), min_size=1, max_size=3), base=st.sampled_from(["varying", "universal"]))
common = dict(alpha=gen.alphas, target=st.sampled_from([0.8, 0.8, 0.5, 0.9, 0.99, 0.2, 0.05, 0.03]), vt=st.sampled_from(["linear", "constant", "last_period", "custom"]),
              rel=st.sampled_from([0.0, 0.2, 0.7, 1.0, 1.6, 4.0, -1.0]), seed=seeds)
src = st.one_of(st.fixed_dictionaries(dict(common, src=st.just("mp"), **mp)), st.fixed_dictionaries({**cs, **common, "src": st.sampled_from(["cs", "sa"])}))


def results(c):
    """(results, keyword arguments for the analysis, pre-period effects, their covariance)"""
    if c["src"] == "mp":
        df, labs, _, _, _ = p03.build(c)
        n, T = len(df), c["T"]
        k0 = c["rr"]
        npre = 2 + c["cut"] % (T - 2)  # first npre periods are pre-treatment, the first of them the reference
        post = list(range(1, T))
        if c["shuf"]:
            post = [int(v) for v in rng_of(c, 3).permutation(post)]
        covs = [f"x{j}" for j in range(c["ncov"])]
        df = df.rename(columns={"d": c["tname"]})
        res = MultiPeriodDiD(robust=c["se"] != "classical", cluster="cl" if c["se"] == "cluster" else None).fit(
            df, outcome="y", treatment=c["tname"], time="p", post_periods=[labs[i] for i in post], covariates=covs or None)
        d, y = df[c["tname"]].to_numpy(float), df["y"].to_numpy(float)
        pos = {l: k for k, l in enumerate(labs)}
        t = np.array([pos[v] for v in df["p"]])
        X = np.column_stack([np.ones(n), d] + [(t == k).astype(float) for k in range(1, T)] + [df[x].to_numpy(float) for x in covs] + [d * (t == k) for k in range(1, T)])
        R = ref.reg(X, y, c["se"], df["cl"].tolist())
        assume(R["k_eff"] == X.shape[1] and n - X.shape[1] > 1)
        s = slice(X.shape[1] - T + 1, X.shape[1] - T + npre)
        V = R["vcov"][s, s]
        assume(np.sqrt(np.diag(V)).min() > 1e-6 and np.linalg.cond(V) < 1e6)
        if c["strip"] != "none":  # a results object without its covariance (or regression): standard errors only
            V = np.diag(np.diag(V))
            res = dataclasses.replace(res, vcov=None, **(dict(coefficients={}) if c["strip"] == "coef" else {}))
        return res, dict(pre_periods=[labs[i] for i in range(npre)]), R["coef"][s], V
    r = rng_of(c)
    df, coh, per = stag.build(c, r)
    g = sorted({v for v in coh.values() if v})
    assume(g and min(g) > per[0] and sum(v == 0 for v in coh.values()) >= 2)
    if c["src"] == "cs":
        res = CallawaySantAnna(base_period=c["base"]).fit(df, "y", "u", "t", "g", aggregate="event_study")
    else:
        res = SunAbraham().fit(df, "y", "u", "t", "g")
    use = {e: v for e, v in res.event_study_effects.items() if e < 0 and v.get("n_groups", 1) > 0 and np.isfinite(v["se"])}
    if not use:
        raises(lambda: PreTrendsPower().fit(res), what="no pre-period effects")
        assume(False)
    es = sorted(use)
    assume(all(use[e]["se"] > 1e-6 and np.isfinite(use[e]["effect"]) for e in es))
    se = np.array([use[e]["se"] for e in es])
    assume(se.max() / se.min() < 1e4)
    return res, {}, np.array([use[e]["effect"] for e in es]), np.diag(se ** 2)


def weights(c, n):
    w = {"linear": np.arange(n - 1, -1, -1.0), "constant": np.ones(n), "last_period": np.eye(n)[-1], "custom": rng_of(c, 9).normal(size=n).round(2) + 0.01}[c["vt"]]
    return w, w / (np.linalg.norm(w) or 1)


def oracle(c, n, w, V):
    """power as a function of M, noncentrality function, critical value"""
    q = float(w @ np.linalg.solve(V, w))
    crit = stats.chi2.isf(c["alpha"], n)

    def power(M):
        nc = M * M * q
        return c["alpha"] if nc == 0 else float(1 - stats.ncx2.cdf(crit, n, nc)) if nc < 500 else 1.0
    return q, crit, power


@facet(P, "power", src, 900, rule="event studies from MultiPeriodDiD (covariance recomputed from the data, any treatment-column name, post order and labels), Callaway-Sant'Anna and Sun-Abraham; four violation "
       "patterns: noncentrality, critical value, power, MDV by its defining equation, defaults, convenience functions, power_at of both objects")
def power(c):
    res, kw, b, V = results(c)
    n = len(b)
    raw, w = weights(c, n)
    q, crit, pw = oracle(c, n, w, V)
    pt = PreTrendsPower(alpha=c["alpha"], power=c["target"], violation_type=c["vt"], violation_weights=(raw.tolist() if c["seed"] % 2 else raw) if c["vt"] == "custom" else None)
    f = pt.fit(res, **kw)
    sc = np.sqrt(np.diag(V).max())
    check(f.n_pre_periods == n and f.alpha == c["alpha"] and f.target_power == c["target"] and f.violation_type == c["vt"], "bookkeeping")
    eq_arr(f.pre_period_effects, b, "pre-period effects", 1e-6, 1e-7 * sc)
    eq_arr(f.pre_period_ses, np.sqrt(np.diag(V)), "pre-period standard errors", 1e-6)
    eq_arr(f.vcov, V, "covariance", 1e-5)
    eq(f.critical_value, crit, "critical value", 1e-8)
    if q == 0:  # a linear pattern over one period is identically zero
        check(f.mdv == (np.inf if c["target"] > c["alpha"] else 0) and close(f.power, c["alpha"]), "the zero pattern is never detectable")
        return [c["src"], "zero-pattern"]
    if c["target"] <= c["alpha"]:
        check(f.mdv == 0, lambda: f"MDV {f.mdv}, but the test already rejects with probability {c['alpha']} >= {c['target']} at M=0")
    else:
        eq(pw(f.mdv), c["target"], f"power at the MDV ({f.mdv})", 1e-5, 1e-7)
    check(f.violation_magnitude == f.mdv, "default magnitude is the MDV")
    eq(f.power, pw(f.mdv), "power at the default magnitude", 1e-6)
    eq(f.noncentrality, f.mdv ** 2 * q, "noncentrality", 1e-6)
    M = c["rel"] * (f.mdv or sc)
    k = pt.fit(res, M=M, **kw)
    eq(k.power, pw(M), f"power at M={M}", 1e-5, 1e-7)
    eq(k.noncentrality, M * M * q, "noncentrality", 1e-5)
    eq(k.test_statistic, n + M * M * q, "expected statistic", 1e-5)
    check(k.mdv == f.mdv and k.violation_magnitude == M, "M does not change the MDV")
    if abs(pw(M) - c["target"]) > 1e-4:
        check(k.power_adequate == (pw(M) >= c["target"]), "power_adequate")
    if abs(f.mdv / sc - 2) > 1e-4:
        check(f.is_informative == (f.mdv < 2 * sc), "is_informative")
    eq(pt.power_at(res, M, **kw), pw(M), "power_at on the analysis", 1e-5, 1e-7)
    eq(f.power_at(M), pw(M), "power_at on the results", 1e-5, 1e-7)
    check(f.power_at(1.2 * M) >= f.power_at(M) - 1e-9, "power falls when the violation grows")
    if c["vt"] != "custom":
        bare = dataclasses.replace(f, violation_weights=None)  # results saved without the pattern: rebuilt from its name
        eq(bare.power_at(M), pw(M), "power_at of results without stored weights", 1e-5, 1e-7)
        a = doc(c, alpha=c["alpha"], target_power=c["target"], violation_type=c["vt"], **kw)
        eq(compute_mdv(res, **a), f.mdv, "compute_mdv", 1e-9)
        eq(compute_pretrends_power(res, M=M, **a).power, k.power, "compute_pretrends_power", 1e-9)
    else:
        raises(lambda: PreTrendsPower(violation_type="custom", violation_weights=np.ones(n + 1)).fit(res, **kw), what="weights of the wrong length")
        s = PreTrendsPower(violation_type="custom", violation_weights=-3 * raw, alpha=c["alpha"], power=c["target"]).fit(res, **kw)
        eq(s.mdv, f.mdv, "rescaled custom weights", 1e-7)
    h = pt.sensitivity_to_honest_did(res, **kw)
    eq_arr([h["mdv"], h["max_pre_se"], h["mdv_in_ses"]], [f.mdv, sc, f.mdv / sc], "comparison with HonestDiD", 1e-6)
    return [c["src"], c["vt"], f"n{n}", f"rel{c['rel']}"] + ([c["tname"], c["labels"], c["se"]] if c["src"] == "mp" else []) + (["target<=alpha"] if c["target"] <= c["alpha"] else [])


@facet(P, "curve", st.tuples(src, st.one_of(st.none(), st.lists(st.sampled_from([0, 0.1, 0.5, 1.0, 2, 3.5]), min_size=1, max_size=6)), st.integers(2, 60)).map(list), 250,
       rule="power curves: given grids are kept in order, automatic grids run evenly from 0 to 2.5 MDV; every point is the power at that magnitude; without estimated pre-period effects an error is raised")
def curve(a):
    c, grid, k = a
    res, kw, b, V = results(c)
    n = len(b)
    raw, w = weights(c, n)
    q, crit, pw = oracle(c, n, w, V)
    assume(q > 0)
    pt = PreTrendsPower(alpha=c["alpha"], power=c["target"], violation_type=c["vt"], violation_weights=raw if c["vt"] == "custom" else None)
    mdv = pt.fit(res, **kw).mdv
    g = None if grid is None else [v * (mdv or 1) for v in grid]
    cv = pt.power_curve(res, M_grid=g, n_points=k, **kw)
    if g is None:
        eq_arr(cv.M_values, np.linspace(0, 2.5 * mdv, k), "automatic grid", 1e-9)
    else:
        eq_arr(cv.M_values, g, "given grid", 1e-12)
    eq_arr(cv.powers, [pw(M) for M in cv.M_values], "curve", 1e-5, 1e-7)
    eq(cv.mdv, mdv, "MDV", 1e-12)
    check(cv.alpha == c["alpha"] and cv.target_power == c["target"] and cv.violation_type == c["vt"], "bookkeeping")
    t = cv.to_dataframe()
    check(np.array_equal(t["M"], cv.M_values) and np.array_equal(t["power"], cv.powers), "table")
    if c["src"] == "mp":
        raises(lambda: pt.fit(res), what="default pre periods hold only the reference")
    return [c["src"], c["vt"], "auto" if g is None else "grid"]
