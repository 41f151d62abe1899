"""P32 - fallbacks and shaky grounds are announced, and only then."""
import warnings
import numpy as np
import pandas as pd
import diff_diff as dd
from diff_diff.linalg import LinearRegression, solve_ols
from harness.core import *
from harness import zoo

P = "P32"
FAIL = (ValueError, KeyError, RuntimeError, ArithmeticError, np.linalg.LinAlgError)


def heard(f):
    """(result or None, messages, error)"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r, e = f(), None
        except FAIL as x:
            r, e = None, x
    return r, [w for w in ws if issubclass(w.category, (UserWarning, RuntimeWarning, DeprecationWarning)) and "numpy" not in str(w.filename)], e


def about(ws, *words):
    return [str(w.message) for w in ws if any(x in str(w.message).lower() for x in words)]


def panel(c, r):
    N, T = c["N"], c["T"]
    rows = []
    for i in range(N):
        g = c["starts"][i % len(c["starts"])] if i < c["nt"] else None
        for t in range(T):
            on = int(g is not None and t >= g)
            rows.append((f"u{i}", 2000 + t, int(t >= T // 2), int(g is not None), on, 0 if g is None else 2000 + g, r.normal(), i % c["G"], r.normal() + on))
    return pd.DataFrame(rows, columns=["u", "t", "post", "d", "D", "g", "x", "cl", "y"])


base = dict(N=st.integers(8, 12), nt=st.integers(3, 4), T=st.integers(4, 5), starts=st.lists(st.integers(1, 3), min_size=1, max_size=3), G=st.integers(2, 8), alpha=st.sampled_from([0.05, 0.1]), seed=seeds)


@facet(P, "staggered", st.fixed_dictionaries(dict(base, drop=st.integers(0, 3))), 120, rule="TwoWayFixedEffects with treatment switched on at one or several dates (rows missing, any order): announced as staggered exactly when the first treated dates differ")
def staggered(c):
    r = rng_of(c)
    df = panel(c, r)
    for _ in range(c["drop"]):
        df = df.drop(index=r.choice(df.index))
    df = df.sample(frac=1, random_state=int(r.integers(1 << 30)))
    first = {}
    for u, t, D in zip(df["u"], df["t"], df["D"]):
        if D == 1:
            first[u] = min(first.get(u, 9999), t)
    dates = set(first.values())
    res, ws, e = heard(lambda: dd.TwoWayFixedEffects(alpha=c["alpha"]).fit(df, "y", "D", "t", "u"))
    if e is not None:
        return None
    got = about(ws, "stagger")
    check(bool(got) == (len(dates) > 1), f"first treated dates {sorted(dates)}, announced: {got}")
    return {f"dates{len(dates)}", f"drop{c['drop']}"}


@facet(P, "clusters", st.fixed_dictionaries(dict(base, how=st.sampled_from(["function", "did", "twfe", "mp"]), w=st.sampled_from(["rademacher", "webb", "mammen"]))), 120, rule="wild cluster bootstrap: announced as unreliable exactly with fewer than five clusters; MultiPeriodDiD announces that it does not bootstrap and reports its analytical numbers")
def clusters(c):
    df = panel(c, rng_of(c))
    k = dict(n_bootstrap=39, seed=1)
    if c["how"] == "mp":
        kw = dict(outcome="y", treatment="d", time="t", post_periods=sorted(df["t"].unique())[2:])
        a, ws, e = heard(lambda: dd.MultiPeriodDiD(inference="wild_bootstrap", cluster="cl", **k).fit(df, **kw))
        b, ws2, e2 = heard(lambda: dd.MultiPeriodDiD(cluster="cl").fit(df, **kw))
        check(e is None and e2 is None, f"{e} {e2}")
        check(about(ws, "wild bootstrap") and not about(ws2, "wild bootstrap"), "bootstrap request that is not honoured is not announced")
        d = zoo.differ(zoo.flat(b), zoo.flat(a))
        check(d is None, f"MultiPeriodDiD with the bootstrap request differs from the analytical fit: {d}")
        return {"mp"}
    G = df["cl"].nunique()
    if c["how"] == "function":
        X = np.column_stack([np.ones(len(df)), df["d"], df["post"], df["d"] * df["post"]]).astype(float)
        y = df["y"].to_numpy(float)
        f = lambda: dd.wild_bootstrap_se(X, y, solve_ols(X, y)[1], df["cl"].to_numpy(), 3, n_bootstrap=39, seed=1, weight_type=c["w"])
    elif c["how"] == "did":
        f = lambda: dd.DifferenceInDifferences(cluster="cl", inference="wild_bootstrap", bootstrap_weights=c["w"], **k).fit(df, "y", "d", "post")
    else:
        f = lambda: dd.TwoWayFixedEffects(cluster="cl", inference="wild_bootstrap", bootstrap_weights=c["w"], **k).fit(df, "y", "d", "post", "u")
    res, ws, e = heard(f)
    check(e is None, f"{c['how']}: {e!r}")
    got = about(ws, "cluster")
    check(bool(got) == (G < 5), f"{c['how']} with {G} clusters, announced: {got}")
    if got:
        check(str(G) in got[0], f"{G} clusters, announced: {got[0]}")
    return {c["how"], f"G{G}"}


cov = dict(base, starts=st.lists(st.integers(2, 4), min_size=1, max_size=3), T=st.integers(4, 6), N=st.integers(12, 16), nt=st.integers(4, 6), base=st.sampled_from(["varying", "universal"]), cg=st.sampled_from(["never_treated", "not_yet_treated"]), method=st.sampled_from(["reg", "dr", "ipw"]), n=st.integers(0, 2))


@facet(P, "covariates", st.fixed_dictionaries(cov), 160, rule="CallawaySantAnna with covariate values missing for a few unit-periods: a group-time effect whose comparison uses a missing base-period value is the unconditional one and is announced; every other cell is the conditional one")
def covariates(c):
    r = rng_of(c)
    df = panel(c, r)
    fit = lambda d, cv: dd.CallawaySantAnna(alpha=c["alpha"], base_period=c["base"], control_group=c["cg"], estimation_method=c["method"]).fit(d, "y", "u", "t", "g", **(dict(covariates=["x"]) if cv else {}))
    (full, w0, e0), (plain, w1, e1) = heard(lambda: fit(df, True)), heard(lambda: fit(df, False))
    if e0 is not None or e1 is not None:
        return None
    holes = [df.index[k] for k in r.permutation(len(df))[:c["n"]]]
    bad = df.copy()
    bad.loc[holes, "x"] = np.nan
    res, ws, e = heard(lambda: fit(bad, True))
    check(e is None, f"missing covariate values: {e!r}")
    check(set(res.group_time_effects) == set(full.group_time_effects) == set(plain.group_time_effects), "different cells")
    g_of = df.groupby("u")["g"].first()
    told = about(ws, "missing")
    fallen = 0
    for (g, t), v in res.group_time_effects.items():
        b = t - 1 if c["base"] == "varying" and t < g else g - 1
        ctl = [u for u in g_of.index if g_of[u] == 0 or (c["cg"] == "not_yet_treated" and g_of[u] > t and g_of[u] != g)]
        used = set(g_of.index[g_of == g]) | set(ctl)
        gone = any(df.at[h, "t"] == b and df.at[h, "u"] in used for h in holes)
        want = (plain if gone else full).group_time_effects[(g, t)]
        for q in ("effect", "se"):
            eq(v[q], want[q], f"({g},{t}) {q}: {'missing' if gone else 'complete'} covariates at base {b}", rtol=1e-8, atol=1e-9)
        named = any(str(g) in m and str(t) in m for m in told)
        check(named == gone or (not gone and any(str(g) in m for m in told)), f"({g},{t}) {'falls back silently' if gone else 'announced without cause'}: {told}")
        fallen += gone
    check(bool(told) == bool(fallen), f"{fallen} cells fall back, announced: {told}")
    return {c["method"], c["base"], f"fell{min(fallen, 3)}"}


@facet(P, "draws", st.fixed_dictionaries(dict(base, starts=st.lists(st.integers(2, 3), min_size=1, max_size=2), how=st.sampled_from(["cs", "sa", "trop", "trop_joint"]), B=st.sampled_from([5, 9, 10, 12, 30, 49, 50, 51, 60]))), 60, rule="bootstraps with few draws: CallawaySantAnna and SunAbraham announce fewer than 50, TROP fewer than 10 successful ones, and none of them a sufficient number")
def draws(c):
    r = rng_of(c)
    c = dict(c, starts=c["starts"][:1] if c["how"] == "trop_joint" else c["starts"], N=12)
    df = panel(c, r)
    B = c["B"]
    if c["how"].startswith("trop"):
        if B > 30:
            return None
        m = dict(method="joint") if c["how"] == "trop_joint" else {}
        res, ws, e = heard(lambda: dd.TROP(lambda_time_grid=[0.1], lambda_unit_grid=[0.1], lambda_nn_grid=[np.inf], n_bootstrap=B, max_loocv_samples=5, seed=3, **m).fit(df, "y", "D", "u", "t"))
        low = lambda: len(res.bootstrap_distribution) < 10
    else:
        cls = dd.CallawaySantAnna if c["how"] == "cs" else dd.SunAbraham
        res, ws, e = heard(lambda: cls(n_bootstrap=B, seed=3).fit(df, "y", "u", "t", "g"))
        low = lambda: B < 50
    if e is not None:
        return None
    got = about(ws, "bootstrap iterations", "n_bootstrap")
    check(bool(got) == low(), f"{c['how']} with {B} draws, announced: {got}")
    return {c["how"], f"B{B}"}


@facet(P, "placebo", st.fixed_dictionaries(dict(base, N=st.integers(4, 9), nt=st.integers(1, 5), B=st.sampled_from([1, 2, 20]), how=st.sampled_from(["placebo", "bootstrap"]), lam=st.sampled_from([0.0, 0.5, 3.0]))), 120, rule="SyntheticDiD: too few controls for placebo groups, or fewer than two replications, is announced and no inference is reported; otherwise nothing is announced and the inference is complete")
def placebo(c):
    if c["nt"] >= c["N"]:
        return None
    df = panel(dict(c, T=5), rng_of(c))
    nc = c["N"] - c["nt"]
    res, ws, e = heard(lambda: dd.SyntheticDiD(variance_method=c["how"], n_bootstrap=c["B"], lambda_reg=c["lam"], seed=2).fit(df, "y", "d", "u", "t", post_periods=[2003, 2004]))
    if e is not None:
        check(c["how"] == "bootstrap", f"placebo: {e!r}")
        return None
    n = len(res.placebo_effects) if res.placebo_effects is not None else 0
    bare = (c["how"] == "placebo" and nc <= c["nt"]) or n < 2
    if c["how"] == "placebo":
        check(n == (0 if nc <= c["nt"] else c["B"]), f"{n} placebo estimates from {c['B']} replications, {nc} controls, {c['nt']} treated")
    few = bare or (c["how"] == "bootstrap" and 1 - n / c["B"] > 0.05)
    got = about(ws, "placebo", "bootstrap", "replication")
    check(bool(got) == few, f"{c['how']}: {n} of {c['B']} replications, {nc} controls, {c['nt']} treated; announced: {got}")
    if bare:
        check(not res.se > 0 and isnan(res.p_value) and isnan(res.t_stat) and isnan(res.conf_int[0]) and isnan(res.conf_int[1]), f"inference without replications: {res.se}, {res.p_value}, {res.conf_int}")
    elif res.se > 0:
        check(not isnan(res.p_value) and not isnan(res.conf_int[0]), "no inference")
    eq(res.lambda_reg, c["lam"], "reported regularization")
    return {c["how"], "bare" if bare else "fine"}


@facet(P, "failures", st.fixed_dictionaries(dict(base, nt=st.integers(2, 4), keep=st.lists(st.integers(0, 3), min_size=4, max_size=4))), 120, rule="leave-one-out with treated units that lack one side of the treatment date: exactly the units whose removal leaves the treated group without a side are announced as failed, the others' effects are the plain estimates without them")
def failures(c):
    r = rng_of(c)
    df = panel(c, r)
    for i in range(c["nt"]):  # 0 both sides, 1 only before, 2 only after
        k = c["keep"][i]
        if k in (1, 2):
            df = df[~((df["u"] == f"u{i}") & (df["post"] == (1 if k == 1 else 0)))]
    tr = df[df["d"] == 1]
    sides = lambda d: set(d["post"])
    if sides(tr) != {0, 1}:
        return None
    units = list(tr["u"].unique())
    bad = [u for u in units if sides(tr[tr["u"] != u]) != {0, 1}]
    res, ws, e = heard(lambda: dd.leave_one_out_test(df, "y", "d", "post", "u"))
    if len(bad) == len(units):
        check(isinstance(e, RuntimeError), f"every removal fails: {res if e is None else e!r}")
        return {"all"}
    check(e is None, f"{e!r}")
    got = about(ws, "leave-one-out")
    check(bool(got) == bool(bad), f"failing removals {bad}, announced: {got}")
    if bad:
        check(all(repr(u) in got[0] or f"{u}" in got[0] for u in bad) and not any(f"'{u}'" in got[0] for u in units if u not in bad), f"failing removals {bad}, announced: {got[0]}")
    for u in units:
        v = res.leave_one_out_effects[u]
        if u in bad:
            check(isnan(v), f"effect {v} without {u}")
        else:
            q = df[df["u"] != u]
            m = q.groupby(["d", "post"])["y"].mean()
            eq(v, (m[1, 1] - m[1, 0]) - (m[0, 1] - m[0, 0]), f"effect without {u}", rtol=1e-8, atol=1e-9)
    good = [res.leave_one_out_effects[u] for u in units if u not in bad]
    eq(res.placebo_effect, np.mean(good), "mean of the effects", rtol=1e-9, atol=1e-10)
    return {f"bad{len(bad)}"}


@facet(P, "permutations", st.fixed_dictionaries(dict(base, N=st.integers(6, 9), nt=st.integers(1, 2), miss=st.integers(0, 6))), 50, rule="permutation test on a panel where some units lack post-treatment rows: never announced when every assignment can be estimated; announced, with the count that enters the p-value, when more than a tenth cannot")
def permutations(c):
    r = rng_of(c)
    df = panel(c, r)
    ctl = [f"u{i}" for i in range(c["nt"], c["N"])]
    gone = [ctl[k] for k in r.permutation(len(ctl))[:min(c["miss"], len(ctl) - 1)]]
    df = df[~(df["u"].isin(gone) & (df["post"] == 1))]
    B = 30
    res, ws, e = heard(lambda: dd.permutation_test(df, "y", "d", "post", "u", n_permutations=B, seed=5))
    check(e is None or isinstance(e, RuntimeError), f"{e!r}")
    if e is not None:
        check(len(gone) > 0, f"{e!r}")
        return None
    got = about(ws, "permutations")
    dist = np.asarray(res.permutation_distribution, float)
    failed = B - len(dist[~np.isnan(dist)])
    if len(gone) < c["nt"]:
        check(failed == 0, f"{failed} assignments failed although every one has both sides")
    check(bool(got) == (failed / B > 0.1), f"{failed} of {B} failed, announced: {got}")
    if got:
        check(str(failed) in got[0] and str(B) in got[0], f"{failed} of {B} failed, announced: {got[0]}")
    ok = dist[~np.isnan(dist)]
    eq(res.p_value, max(np.mean(np.abs(ok) >= np.abs(res.original_effect)), 1 / (len(ok) + 1)), "p-value from the successful permutations", rtol=1e-9, atol=1e-12)
    return {f"gone{min(len(gone), 4)}", "told" if got else "quiet"}


@facet(P, "regression", st.fixed_dictionaries(dict(n=st.integers(2, 6), k=st.integers(1, 3), fit=st.sampled_from(["noise", "exact"]), df=st.sampled_from([None, -1, 0, 1, 3]), alpha=st.sampled_from([0.05, 0.1]), seed=seeds)), 150, rule="LinearRegression inference: a non-positive number of degrees of freedom is announced and the normal distribution is used; a positive one is not announced and gives the t distribution")
def regression(c):
    from scipy import stats
    if c["n"] < c["k"]:
        return None
    r = rng_of(c)
    X = np.column_stack([np.ones(c["n"])] + [r.normal(size=c["n"]) for _ in range(c["k"] - 1)])
    y = r.normal(size=c["n"])
    m = LinearRegression(include_intercept=False, robust=False, alpha=c["alpha"])
    _, _, e = heard(lambda: m.fit(X, y))
    if e is not None or m.vcov_ is None or not np.all(np.isfinite(np.diag(m.vcov_))) or np.any(np.diag(m.vcov_) <= 1e-12):
        return None
    inf, ws, e = heard(lambda: m.get_inference(0, df=c["df"]))
    check(e is None, f"{e!r}")
    d = c["df"] if c["df"] is not None else c["n"] - c["k"]
    got = about(ws, "degrees of freedom")
    check(bool(got) == (d <= 0), f"{d} degrees of freedom, announced: {got}")
    dist = stats.norm if d <= 0 else stats.t(d)
    eq(inf.p_value, 2 * dist.sf(abs(inf.t_stat)), "p-value", rtol=1e-7, atol=1e-12)
    eq(inf.conf_int[1] - inf.conf_int[0], 2 * inf.se * dist.ppf(1 - c["alpha"] / 2), "width", rtol=1e-7, atol=1e-12)
    return {f"df{d}"}


@facet(P, "deprecated", st.fixed_dictionaries(dict(base, starts=st.lists(st.integers(2, 3), min_size=1, max_size=2), w=st.sampled_from(["rademacher", "webb", "mammen"]), how=st.sampled_from(["constructor", "set_params", "both", "round"]))), 40, rule="the deprecated name of the bootstrap weights parameter: announced in the constructor, and the same numbers as the current name; parameters copied from one estimator to another keep the weights")
def deprecated(c):
    df = panel(dict(c, N=12), rng_of(c))
    k = dict(n_bootstrap=60, seed=4)
    fit = lambda est: est.fit(df, "y", "u", "t", "g")
    want, _, e0 = heard(lambda: fit(dd.CallawaySantAnna(bootstrap_weights=c["w"], **k)))
    if e0 is not None:
        return None
    if c["how"] == "constructor":
        est, ws, e = heard(lambda: dd.CallawaySantAnna(bootstrap_weight_type=c["w"], **k))
        check(e is None and any(issubclass(w.category, DeprecationWarning) for w in ws), f"deprecated name not announced: {e!r}")
    elif c["how"] == "set_params":
        est, ws, e = heard(lambda: dd.CallawaySantAnna(**k).set_params(bootstrap_weight_type=c["w"]))
    elif c["how"] == "both":
        est, ws, e = heard(lambda: dd.CallawaySantAnna(bootstrap_weights="webb", **k).set_params(bootstrap_weights=c["w"]))
    else:
        src = dd.CallawaySantAnna(bootstrap_weights=c["w"], **k)
        est, ws, e = heard(lambda: dd.CallawaySantAnna().set_params(**src.get_params()))
    check(e is None, f"{e!r}")
    d = zoo.differ(zoo.flat(want), zoo.flat(fit(est)))
    check(d is None, f"weights {c['w']} through {c['how']}: {d}")
    return {c["how"], c["w"]}


CALM = [k for k in zoo.KINDS if k not in ("trop", "trop_jack", "trop_joint", "sa_boot", "sdid_boot")]


@facet(P, "quiet", st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from(CALM), nt=st.integers(3, 4), nc=st.integers(6, 9), B=st.integers(60, 70), antic=st.just(0))), 300, rule="ordinary requests on complete balanced panels of every estimator: no warning from the package unless one of the stated conditions (dependent columns, staggered timing, fewer than five clusters, no post-treatment cell, unusable draws) holds")
def quiet(c):
    s = zoo.spec(c)
    res, ws, e = heard(s.fit)
    if e is not None:
        return None
    left = [str(w.message) for w in ws if "diff_diff" in str(w.filename) or issubclass(w.category, UserWarning)]
    left = [m for m in left if not any(x in m.lower() for x in ("rank-deficient", "collinear", "multicollinear"))]
    df = s.df
    if c["kind"].startswith(("cs", "sa")):
        post = [(g, t) for g in df["g"].unique() if g > 0 for t in df["t"].unique() if t >= g]
        if not post or c["kind"].endswith(("nyt", "boot")):
            left = []
    if c["kind"].endswith("_boot") and c["kind"].startswith("did") or c["kind"] == "twfe_boot":
        left = [m for m in left if "clusters" not in m or df["u"].nunique() >= 5]
    check(not left, f"{c['kind']}: {left}")
    return {c["kind"]}
