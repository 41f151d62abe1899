"""P01 - the regression engine is exact least squares with textbook sandwich errors."""
import warnings
import numpy as np
from harness.core import *
from harness import ref
from diff_diff.linalg import LinearRegression, compute_r_squared, compute_robust_vcov, solve_ols

P = "P01"

_col = st.sampled_from(["gauss", "binary", "int", "skew", "trend", "shifted"])
design = st.fixed_dictionaries(dict(
    n=st.integers(6, 40), cols=st.lists(_col, min_size=1, max_size=4), icpt=st.booleans(),
    y=st.sampled_from(["gauss", "int", "heavy", "hetero", "shift", "binary"]),
    scale=st.lists(st.sampled_from([0, 0, 0, 1, -2, 3, 6, -6, 9, -9]), min_size=4, max_size=4),
    cl=st.sampled_from(["none", "int", "str", "unbal", "single", "float", "big", "huge", "close", "date", "text", "text"]), G=st.integers(2, 9), seed=seeds))


def build(c):
    r = rng_of(c)
    n = c["n"]
    cols = []
    for i, kind in enumerate(c["cols"]):
        if kind == "gauss":
            v = r.normal(size=n)
        elif kind == "binary":
            v = (r.random(n) < 0.5).astype(float)
        elif kind == "int":
            v = r.integers(-3, 4, n).astype(float)
        elif kind == "skew":
            v = np.exp(r.normal(size=n))
        elif kind == "trend":
            v = np.arange(n) % 7 + r.normal(size=n) * 0.3
        else:
            v = 5 + r.normal(size=n)
        cols.append(v * 10.0 ** c["scale"][i])
    X = np.column_stack(cols)
    if c["icpt"]:
        X = np.column_stack([np.ones(n), X])
    z = X / np.maximum(np.linalg.norm(X, axis=0), 1e-300) * np.sqrt(n)
    mu = z @ r.normal(size=X.shape[1])
    e = r.normal(size=n)
    y = {"gauss": mu + e, "int": np.round(mu + e), "heavy": mu + r.standard_t(2, n),
         "hetero": mu + e * np.abs(mu), "shift": mu + e + 100, "binary": (mu + e > 0).astype(float)}[c["y"]]
    ids = clusters(c, r)
    return X, y, ids


def clusters(c, r):
    n, G = c["n"], c["G"]
    if c["cl"] == "none":
        return None
    if c["cl"] == "single":
        return np.arange(n)[::-1].copy()
    base = np.concatenate([np.arange(G), r.integers(0, G, max(0, n - G))])[:n]
    if c["cl"] == "unbal":
        base = np.where(r.random(n) < 0.5, 0, base)
        base[0], base[1] = 0, 1
    r.shuffle(base)
    if c["cl"] == "str":
        return np.array([f"state_{b * 7 % 10}{b}" for b in base], dtype=object)
    if c["cl"] == "big":
        return base + 4_000_000_000
    if c["cl"] == "huge":
        return base + 2**60
    if c["cl"] == "close":
        return 1.0 + base * 1e-12
    if c["cl"] == "text":  # labels that differ in case, blanks, accents, leading zeros or in a late character only
        pool = ["a", "A", "a ", " a", "\u00e0", "01", "1", "1.0", "0" * 40 + "1", "0" * 40 + "2", "a_b", "ab"]
        pool = np.array([pool[i] for i in r.permutation(len(pool))][:G], dtype=[object, str][int(r.integers(0, 2))])
        return pool[base]
    if c["cl"] == "date":
        return np.datetime64("2020-01-01") + base.astype("timedelta64[D]")
    if c["cl"] == "float":
        return base * 0.5 - 1
    return base * 13 - 4


def floor(X, u):
    return np.sqrt(np.diag(ref.bread(X)) * (u @ u) / len(u))


def cond_ok(X, lim=1e4):
    s = np.linalg.norm(X, axis=0)
    if (s == 0).any():
        return False
    sv = np.linalg.svd(X / s, compute_uv=False)
    return sv[-1] > 1 / lim


def cmp_vcov(got, want, what, fl=0.0):
    """compare entrywise relative to the diagonal scale (columns may differ in units); ``fl`` is a
    noise floor for the diagonal (the residual-based sandwich can be exactly zero)"""
    d = np.sqrt(np.maximum(np.diag(want), 0))
    check(got.shape == want.shape, f"{what}: shape {got.shape}")
    sc = np.outer(d, d) + 1e-4 * np.outer(fl, fl) * np.ones_like(want)
    nan = np.isnan(want)
    check((np.isnan(got) == nan).all(), lambda: f"{what}: NaN pattern {got} vs {want}")
    bad = np.abs(got - want)[~nan] > 1e-5 * sc[~nan]
    if bad.any():
        # a numerically zero residual vector makes the sandwich pure rounding noise
        fail(f"{what}: got {got.tolist()}, expected {want.tolist()}")


@facet(P, "full_rank", design, 900, rule="design has full column rank, n>k; coefficients, residuals, fitted values and "
       "HC1/cluster/classical covariance compared with explicit-sum formulas; labels give error type, column kinds")
def full_rank(c):
    X, y, ids = build(c)
    n, k = X.shape
    assume(n > k + 1 and cond_ok(X))
    want = ref.ols(X, y)
    u = y - X @ want
    assume(np.linalg.norm(u) > 1e-6 * (np.linalg.norm(y) + 1e-9))
    s = np.linalg.norm(X, axis=0)
    coef, res, fit, V = solve_ols(X, y, cluster_ids=ids, return_fitted=True)
    eq_arr(coef * s, want * s, "coefficients (scaled)")
    eq_arr(res, u, "residuals", atol=1e-7 * np.abs(y).max())
    eq_arr(fit, X @ want, "fitted", atol=1e-7 * np.abs(y).max())
    kind = "cluster" if ids is not None else "hc1"
    wantV = ref.vcov(X, u, kind, ids)
    fl = floor(X, u)
    cmp_vcov(V, wantV, f"{kind} vcov", fl)
    cmp_vcov(compute_robust_vcov(X, u, ids), wantV, f"compute_robust_vcov {kind}", fl)
    co2 = solve_ols(X, y, cluster_ids=ids, return_vcov=False)
    eq_arr(co2[0] * s, want * s, "coefficients without vcov")
    check(co2[2] is None, "vcov returned although not requested")
    co3 = solve_ols(X, y, cluster_ids=ids, skip_rank_check=True)
    eq_arr(co3[0] * s, want * s, "coefficients skip_rank_check")
    cmp_vcov(co3[2], wantV, "vcov skip_rank_check", fl)
    sst = ((y - y.mean()) ** 2).sum()
    if sst > 0:
        eq(compute_r_squared(y, u), 1 - u @ u / sst, "R2")
        eq(compute_r_squared(y, u, adjusted=True, n_params=k), 1 - (u @ u / (n - k)) / (sst / (n - 1)), "adj R2")
    return [kind, c["cl"]] + [f"scale{abs(x)}" for x in c["scale"][: len(c["cols"])] if abs(x) > 3]


@facet(P, "linear_regression", st.tuples(design, st.sampled_from(["hc1", "classical", "cluster", "cluster_fit"]),
       st.sampled_from([0.01, 0.05, 0.1, 0.32]), st.integers(0, 3)).map(list), 500,
       rule="LinearRegression wrapper: coefficient inference vs t/normal reference with n-k-adjustment df")
def linreg(a):
    c, mode, alpha, adj = a
    c = dict(c, cl=c["cl"] if c["cl"] != "none" else "int", scale=[0, 0, 0, 0])
    X, y, ids = build(c)
    Xf = np.column_stack([np.ones(len(y)), X]) if not c["icpt"] else X
    n, k = Xf.shape
    assume(n > k + adj + 1 and cond_ok(Xf))
    kw = dict(include_intercept=not c["icpt"], alpha=alpha)
    if mode == "hc1":
        m = LinearRegression(**kw).fit(X, y, df_adjustment=adj)
    elif mode == "classical":
        m = LinearRegression(robust=False, **kw).fit(X, y, df_adjustment=adj)
    elif mode == "cluster":
        m = LinearRegression(cluster_ids=ids, **kw).fit(X, y, df_adjustment=adj)
    else:
        m = LinearRegression(robust=False, **kw).fit(X, y, cluster_ids=ids, df_adjustment=adj)
    R = ref.reg(Xf, y, "cluster" if mode.startswith("cluster") else mode, ids)
    assume(np.linalg.norm(R["resid"]) > 1e-6 * (np.linalg.norm(y) + 1e-9))
    eq_arr(m.coefficients_, R["coef"], "coefficients_")
    cmp_vcov(m.vcov_, R["vcov"], "vcov_", floor(Xf, R["resid"]))
    df = n - k - adj
    check(m.df_ == df and m.n_obs_ == n and m.n_params_ == k and m.n_params_effective_ == k, "dimensions/df")
    eq_arr(m.predict(X), R["fitted"], "predict")
    infs = m.get_all_inference()
    check(len(infs) == k, "get_all_inference length")
    for j, inf in enumerate(infs):
        se = np.sqrt(R["vcov"][j, j])
        if not se > 1e-5 * np.sqrt(ref.bread(Xf)[j, j] * (R["resid"] @ R["resid"]) / n):
            continue
        t = R["coef"][j] / se
        for i2 in (inf, m.get_inference(j), m.get_inference_batch([j])[j]):
            eq(i2.coefficient, R["coef"][j], "coef", atol=1e-7)
            eq(i2.se, se, "se")
            eq(i2.t_stat, t, "t", 1e-5, 1e-6)
            eq(i2.p_value, ref.pval(t, df), "p", 1e-4, 1e-9)
            h = ref.crit(alpha, df) * se
            eq_arr(i2.conf_int, [R["coef"][j] - h, R["coef"][j] + h], "ci")
            check(i2.is_significant() == (i2.p_value < alpha), "is_significant")
            st_ = "***" if i2.p_value < .001 else "**" if i2.p_value < .01 else "*" if i2.p_value < .05 else \
                "." if i2.p_value < .1 else ""
            check(i2.significance_stars() == st_, "stars")
        for i3 in (m.get_inference(j, alpha=0.2, df=3), m.get_inference_batch([j, 0], alpha=0.2, df=3)[j], m.get_inference_batch([j], alpha=0.2, df=3)[j], m.get_all_inference(alpha=0.2, df=3)[j]):
            h = ref.crit(0.2, 3) * se
            eq_arr(i3.conf_int, [R["coef"][j] - h, R["coef"][j] + h], "ci alpha/df override")
            eq(i3.p_value, ref.pval(t, 3), "p df override", 1e-4, 1e-9)
            check(i3.is_significant() == (i3.p_value < 0.2), "significance at the overriding level")
    sst = ((y - y.mean()) ** 2).sum()
    if sst > 0:
        ssr = R["resid"] @ R["resid"]
        eq(m.r_squared(), 1 - ssr / sst, "r2", atol=1e-7)
        eq(m.r_squared(adjusted=True), 1 - (ssr / (n - k)) / (sst / (n - 1)), "adj r2", atol=1e-7)
        u = 10.0 ** [-9, -7, 6, 9][c["seed"] % 4]    # the same outcome in other units
        kf = dict(cluster_ids=ids) if mode == "cluster_fit" else {}
        m2 = LinearRegression(robust=mode in ("hc1", "cluster"), cluster_ids=ids if mode == "cluster" else None, **kw).fit(X, y * u, df_adjustment=adj, **kf)
        eq_arr(m2.coefficients_ / u, R["coef"], f"coefficients with the outcome times {u}", atol=1e-7)
        cmp_vcov(m2.vcov_ / u ** 2, R["vcov"], f"covariance with the outcome times {u}", floor(Xf, R["resid"]))
        eq_arr([m2.r_squared(), m2.r_squared(adjusted=True)], [1 - ssr / sst, 1 - (ssr / (n - k)) / (sst / (n - 1))], f"R2 with the outcome times {u}", 1e-5, 1e-6)
    return [mode, f"adj{adj}"]


dep = st.lists(st.tuples(st.sampled_from(["dup", "sum", "neg", "zero", "const", "comb", "scaled"]), st.integers(0, 9),
                         st.integers(0, 9), st.integers(0, 9)).map(list), min_size=1, max_size=3)
dep = st.one_of(dep, dep, st.lists(st.tuples(st.sampled_from(["dup", "sum", "neg", "zero", "comb", "scaled"]), st.integers(0, 9), st.integers(0, 9), st.integers(0, 9)).map(list), min_size=6, max_size=9))


@facet(P, "rank_deficient", st.tuples(design, dep, st.sampled_from(["solve", "lr", "lr_classical"])).map(list), 700,
       rule="dependent columns inserted at arbitrary positions; exactly k-rank NaN coefficients, fitted values equal the "
       "projection on the full column space, kept columns' coefficients/covariance equal those of the reduced regression")
def rankdef(a):
    c, deps, mode = a
    c = dict(c, scale=[0, 0, 0, 0])
    X, y, ids = build(c)
    assume(cond_ok(X))
    for kind, i, j, pos in deps:
        p = X.shape[1]
        a_, b_ = X[:, i % p], X[:, j % p]
        v = {"dup": a_, "sum": a_ + b_, "neg": -a_, "zero": 0 * a_, "const": 0 * a_ + 1.0,
             "comb": 2 * a_ - 3 * b_, "scaled": 7.5 * a_}[kind]
        X = np.insert(X, pos % (p + 1), v, axis=1)
    n, k = X.shape
    keep, Q = ref.indep_columns(X)
    rank = len(keep)
    assume(n > k + 1 and rank < k and rank >= 1 and cond_ok(X[:, keep]))
    fit = Q @ (Q.T @ y)
    u = y - fit
    assume(np.linalg.norm(u) > 1e-6 * (np.linalg.norm(y) + 1e-9))
    kind = "cluster" if ids is not None else "hc1"
    if mode == "solve":
        coef, res, f2, V = solve_ols(X, y, cluster_ids=ids, return_fitted=True, rank_deficient_action="silent")
        raises(lambda: solve_ols(X, y, cluster_ids=ids, rank_deficient_action="error"), what="rank-deficient error mode")
        names = [f"<{j}>" for j in rng_of(c, 5).permutation(k)]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            coefw = solve_ols(X, y, cluster_ids=ids, rank_deficient_action="warn", column_names=names)[0]
        eq_arr(coefw, coef, "warn vs silent")
        text = " ".join(str(w.message) for w in ws if issubclass(w.category, UserWarning))
        gone = [names[j] for j in range(k) if np.isnan(coef[j])]
        check({q for q in names if q in text} == set(gone[:5]), lambda: f"dropped {gone}, warned: {text}")
        check(len(gone) <= 5 or str(len(gone) - 5) + " more" in text, lambda: f"dropped {gone}, warned: {text}")
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            solve_ols(X, y, cluster_ids=ids, rank_deficient_action="silent")
        check(not [w for w in ws if issubclass(w.category, UserWarning)], "a warning although silence was asked for")
    else:
        rob = mode == "lr"
        m = LinearRegression(include_intercept=False, robust=rob, cluster_ids=ids, rank_deficient_action="silent").fit(X, y)
        coef, res, f2, V = m.coefficients_, m.residuals_, m.fitted_values_, m.vcov_
        if not rob and ids is None:
            kind = "classical"
        check(m.df_ == n - rank and m.n_params_effective_ == rank, f"df {m.df_} vs {n - rank}")
        eq_arr(m.predict(X), fit, "predict rank-deficient", atol=1e-7 * np.abs(y).max())
        for j in range(k):
            inf = m.get_inference(j)
            if np.isnan(coef[j]):
                check(all(isnan(v) for v in (inf.coefficient, inf.se, inf.t_stat, inf.p_value, *inf.conf_int)),
                      f"inference of dropped column not NaN: {inf}")
                check(not inf.is_significant() and inf.significance_stars() == "", "dropped column significant")
    check(np.where(~np.isnan(coef))[0].tolist() == list(keep), lambda: f"kept columns {np.where(~np.isnan(coef))[0].tolist()}; those not explained by the columns before them are {list(keep)}")
    check(int(np.isnan(coef).sum()) == k - rank, lambda: f"{np.isnan(coef).sum()} NaN coefficients, expected {k - rank}")
    eq_arr(f2, fit, "fitted values", atol=1e-7 * np.abs(y).max())
    eq_arr(res, u, "residuals", atol=1e-7 * np.abs(y).max())
    kept = np.where(~np.isnan(coef))[0]
    Xr = X[:, kept]
    assume(cond_ok(Xr, 1e6))
    eq_arr(coef[kept], ref.ols(Xr, y), "kept coefficients", 1e-5)
    want = np.full((k, k), np.nan)
    want[np.ix_(kept, kept)] = ref.vcov(Xr, u, kind, ids)
    fl = np.full(k, np.nan)
    fl[kept] = floor(Xr, u)
    cmp_vcov(V, want, "vcov of rank-deficient fit", fl)
    return [kind, mode, f"def{k - rank}"]


@facet(P, "metamorphic", st.tuples(design, st.integers(-4, 4), seeds).map(list), 400,
       rule="row permutation, cluster relabelling, column rescaling and affine outcome changes act exactly as algebra says")
def metamorphic(a):
    c, e, s2 = a
    X, y, ids = build(dict(c, scale=[0, 0, 0, 0]))
    n, k = X.shape
    assume(n > k + 1 and cond_ok(X))
    r = np.random.default_rng(s2)
    b0, u0, V0 = solve_ols(X, y, cluster_ids=ids)
    assume(np.linalg.norm(u0) > 1e-6 * (np.linalg.norm(y) + 1e-9))
    fl = floor(X, u0)
    p = r.permutation(n)
    b, u, V = solve_ols(X[p], y[p], cluster_ids=None if ids is None else ids[p])
    eq_arr(b, b0, "coef after row permutation")
    cmp_vcov(V, V0, "vcov after row permutation", fl)
    eq_arr(u, u0[p], "residuals after row permutation", atol=1e-7 * np.abs(y).max())
    if ids is not None:
        m = {v: f"c{i}" for i, v in enumerate(r.permutation(np.unique(ids)))}
        _, _, V = solve_ols(X, y, cluster_ids=np.array([m[v] for v in ids], dtype=object))
        cmp_vcov(V, V0, "vcov after cluster relabelling", fl)
    q = r.permutation(k)
    b, u, V = solve_ols(X[:, q], y, cluster_ids=ids)
    eq_arr(b, b0[q], "coef after column permutation")
    cmp_vcov(V, V0[np.ix_(q, q)], "vcov after column permutation", fl[q])
    sc = np.ones(k)
    sc[r.integers(0, k)] = 10.0 ** e
    b, u, V = solve_ols(X * sc, y, cluster_ids=ids)
    eq_arr(b * sc, b0, "coef after column rescale")
    cmp_vcov(V * np.outer(sc, sc), V0, "vcov after column rescale", fl)
    d = X @ r.normal(size=k)
    a_ = 10.0 ** r.integers(-3, 4) * r.choice([-1, 1])
    b, u, V = solve_ols(X, a_ * y, cluster_ids=ids)
    eq_arr(b / a_, b0, "coef after outcome rescale")
    cmp_vcov(V / a_**2, V0, "vcov after outcome rescale", fl)
    b, u, V = solve_ols(X, y + d, cluster_ids=ids)
    eq_arr(u, u0, "residuals after adding a regressor combination", atol=1e-7 * (np.abs(y).max() + np.abs(d).max()))
    cmp_vcov(V, V0, "vcov after adding a regressor combination", fl)
    return ["cluster" if ids is not None else "hc1"]


@facet(P, "rejects", st.tuples(design, st.sampled_from(["nanX", "infX", "nany", "infy", "wide", "1d", "mismatch", "1cluster",
                                                        "badaction"])).map(list), 150,
       rule="malformed regressions raise ValueError instead of returning numbers")
def rejects(a):
    c, kind = a
    X, y, ids = build(dict(c, scale=[0, 0, 0, 0]))
    n, k = X.shape
    i, j = c["seed"] % n, c["seed"] % k
    X, y = X.copy(), y.copy()
    kw = {}
    if kind == "nanX":
        X[i, j] = np.nan
    elif kind == "infX":
        X[i, j] = -np.inf
    elif kind == "nany":
        y[i] = np.nan
    elif kind == "infy":
        y[i] = np.inf
    elif kind == "wide":
        X, y = X[: k - 1], y[: k - 1]
        assume(k > 1)
    elif kind == "1d":
        X = X[:, 0]
    elif kind == "mismatch":
        y = y[:-1]
    elif kind == "1cluster":
        kw["cluster_ids"] = np.full(n, 3)
    else:
        kw["rank_deficient_action"] = "drop"
    raises(lambda: solve_ols(X, y, **kw), what=kind)
    return [kind]


@facet(P, "nothing_identified", st.fixed_dictionaries(dict(seed=seeds, n=st.integers(3, 12), k=st.integers(1, 3), robust=st.booleans(), cl=st.booleans())), 60,
       rule="only zero columns: all coefficients and inference NaN, residuals equal the outcome, no crash")
def nothing_identified(c):
    r = rng_of(c)
    X, y = np.zeros((c["n"], c["k"])), r.normal(size=c["n"])
    cl = np.arange(c["n"]) % 2 if c["cl"] else None
    m = LinearRegression(include_intercept=False, robust=c["robust"], cluster_ids=cl, rank_deficient_action="silent").fit(X, y)
    check(np.isnan(m.coefficients_).all() and np.isnan(m.vcov_).all(), "coefficients of zero columns")
    eq_arr(m.residuals_, y, "residuals")
    return True
