"""P04 - TWFE and the within transformation equal unit + time dummies."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref
from diff_diff import TwoWayFixedEffects
from diff_diff.utils import demean_by_group, within_transform

P = "P04"
panel_st = st.fixed_dictionaries(dict(
    N=mostly(4, 14, 40), T=mostly(2, 6, 12), drop=st.sampled_from([0.0, 0.0, 0.15, 0.35]), ncov=st.integers(0, 2),
    covkind=st.sampled_from(["ordinary", "ordinary", "unitconst", "timeconst"]), noise=gen.noise, ulab=gen.ulab,
    tlab=st.sampled_from(["range", "years", "str"]), pres=gen.presentation, ntr=st.integers(1, 8),
    se=st.sampled_from(["unit", "cl"]), alpha=gen.alphas, dup=st.booleans(), seed=seeds))


def build(c, periods01=False):
    """long panel; if periods01 rows carry a 0/1 'post' with several waves per phase"""
    r = rng_of(c)
    N, T = c["N"], c["T"]
    ul = gen.unit_labels(c["ulab"], N, r)
    i, t = [a.ravel() for a in np.meshgrid(np.arange(N), np.arange(T), indexing="ij")]
    keep = r.random(N * T) >= c["drop"]
    i, t = i[keep], t[keep]
    D = (i < min(c["ntr"], N - 1)).astype(int)
    a, l = r.normal(size=N) * 3, r.normal(size=T)
    n = len(i)
    df = pd.DataFrame(dict(u=ul[i], d=D))
    tl = {"range": list(range(T)), "years": list(range(1990, 1990 + T)), "str": [f"w{k}" for k in range(T)]}[c["tlab"]]
    df["t"] = [tl[k] for k in t]
    df["post"] = (t >= max(1, T // 2)).astype(int)
    y = a[i] + l[t] + 1.7 * D * df["post"].to_numpy() + gen.shock(c["noise"], r, n)
    for j in range(c["ncov"]):
        x = r.normal(size=n)
        if j == 0 and c["covkind"] == "unitconst":
            x = r.normal(size=N)[i]
        elif j == 0 and c["covkind"] == "timeconst":
            x = df["post"].to_numpy() * 2.0 + 1
        df[f"x{j}"] = x
        y = y + (j + 1) * x
    df["y"] = y
    df["cl"] = [f"c{v % 4}" for v in i]
    return gen.present(df, c["pres"], r)


def two_way(df, u, t):
    F = np.column_stack([np.ones(len(df)), ref.dummies([str(v) for v in df[u]]), ref.dummies([str(v) for v in df[t]])])
    return ref.indep_columns(F)[1]


@facet(P, "twfe", panel_st, 900, rule="unit x (pre/post) panels, several rows per cell, unbalanced, covariates (incl. absorbed), default or named "
       "clusters; ATT/SE/t/p/CI equal the dummy-variable regression and its within-transformed sandwich")
def twfe(c):
    df = build(c)
    n = len(df)
    N, T = df["u"].nunique(), df["post"].nunique()
    assume(T == 2)
    covs = [f"x{j}" for j in range(c["ncov"])]
    Q = two_way(df, "u", "post")
    dt = (df["d"] * df["post"]).to_numpy(float)
    full = np.column_stack([Q, dt] + [df[x].to_numpy(float) for x in covs])
    keep, _ = ref.indep_columns(full, 1e-8)
    assume(Q.shape[1] in keep)
    cov_in = [x for j, x in enumerate(covs) if Q.shape[1] + 1 + j in keep]
    rest, _ = ref.indep_columns(np.delete(full, Q.shape[1], 1), 1e-8)
    assume(len(rest) == len(keep) - 1 and n > len(keep) + 1)
    pr = lambda v: v - Q @ (Q.T @ v)
    X = np.column_stack([np.ones(n), pr(dt)] + [pr(df[x].to_numpy(float)) for x in cov_in])
    y = df["y"].to_numpy(float)
    cl = df["u" if c["se"] == "unit" else "cl"].tolist()
    assume(len(set(cl)) >= 2)
    R = ref.reg(X, pr(y), "cluster", cl)
    assume(R["k_eff"] == X.shape[1])
    dof = n - X.shape[1] - (N + T - 2)
    assume(dof > 0)
    est = TwoWayFixedEffects(**doc(c, cluster=None if c["se"] == "unit" else "cl", alpha=c["alpha"], rank_deficient_action="silent"))
    res = est.fit(df, outcome="y", treatment="d", time="post", unit="u", covariates=covs or None)
    b, s = R["coef"][1], np.sqrt(R["vcov"][1, 1])
    sc = np.max(np.abs(R["resid"])) + abs(b)
    bf = ref.ols(full[:, keep], y)[keep.index(Q.shape[1])]
    eq(b, bf, "oracle self-check", 1e-5, 1e-5 * sc)
    eq(res.att, bf, "ATT vs unit+time dummies", 1e-6, 1e-6 * sc)
    if s > 1e-5 * sc:
        eq(res.se, s, "SE", 1e-5)
        eq(res.t_stat, b / s, "t", 1e-5, 1e-5)
        eq(res.p_value, ref.pval(b / s, dof), "p", 1e-4, 1e-9)
        h = ref.crit(c["alpha"], dof) * s
        eq_arr(res.conf_int, [b - h, b + h], "CI", 1e-5, 1e-6 * sc)
    nt = df.loc[df.d == 1, "u"].nunique()
    check(res.n_obs == n and res.n_treated == nt and res.n_control == N - nt, "counts")
    eq(res.coefficients["ATT"], res.att, "coefficients['ATT']")
    eq_arr(res.residuals, R["resid"], "residuals", atol=1e-6 * np.max(np.abs(y)))
    if c["drop"] == 0 and not covs and c["T"] == 2:
        w = df.pivot(index="u", columns="post", values="y")
        dd = (w[1] - w[0])
        g = df.groupby("u")["d"].first()
        eq(res.att, dd[g == 1].mean() - dd[g == 0].mean(), "two-period DiD", 1e-6, 1e-6 * sc)
    return [c["se"], f"cov{c['ncov']}", c["covkind"] if covs else "nocov", "unbal" if c["drop"] else "bal"]


@facet(P, "absorbed_treatment", st.tuples(seeds, st.sampled_from(["nocontrol", "alwayspost"])).map(list), 60,
       rule="treatment x post in the span of the fixed effects: no estimate is reported")
def absorbed_treatment(a):
    r = np.random.default_rng(a[0])
    N = int(r.integers(3, 9))
    u = np.repeat(np.arange(N), 4)
    p = np.tile([0, 0, 1, 1], N)
    d = np.ones(len(u), int) if a[1] == "nocontrol" else np.where(u < N // 2, 1, 0)
    df = pd.DataFrame(dict(u=u, post=p, d=d, y=r.normal(size=len(u)) * 5 + 100))
    if a[1] == "alwayspost":
        df = df[(df.d == 0) | (df.post == 1)]
    raises(lambda: TwoWayFixedEffects().fit(df, "y", "d", "post", "u"), (ValueError,), "absorbed treatment")
    return [a[1]]


@facet(P, "within", panel_st, 900, rule="within_transform on unbalanced panels with repeated cells equals the residual from unit+time dummies; "
       "suffix/inplace semantics; input untouched")
def within(c):
    df = build(c)
    assume(len(df) > 2)
    if c["dup"]:
        df = pd.concat([df, df.iloc[: len(df) // 3].assign(y=lambda z: z["y"] + 1.0)])
        df.index = range(len(df))
    cols = ["y"] + [f"x{j}" for j in range(c["ncov"])]
    before = df.copy(deep=True)
    Q = two_way(df, "u", "t")
    out = within_transform(df, cols, "u", "t", suffix="_dm")
    pd.testing.assert_frame_equal(df, before)
    check(list(out[df.columns].columns) == list(df.columns), "original columns kept")
    for col in cols:
        v = df[col].to_numpy(float)
        eq_arr(out[f"{col}_dm"].to_numpy(), v - Q @ (Q.T @ v), f"within {col}", atol=1e-7 * (1 + np.max(np.abs(v))))
        eq_arr(out[col].to_numpy(), v, "original column changed")
    check(list(out.index) == list(df.index), "row alignment")
    own = df.copy()
    same = within_transform(own, cols, "u", "t", inplace=True)
    check(same is own and list(own.columns) == list(before.columns), "in place: the frame itself, no new columns")
    for col in cols:
        eq_arr(own[col].to_numpy(), out[f"{col}_dm"].to_numpy(), f"in place {col}", 1e-9, 1e-9 * (1 + np.max(np.abs(df[col].to_numpy(float)))))
    for col in set(before.columns) - set(cols):
        check(own[col].equals(before[col]), f"in place: {col} changed")
    return ["dup" if c["dup"] else "nodup", "unbal" if c["drop"] else "bal"]


@facet(P, "demean", panel_st, 500, rule="one-way demeaning equals deviation from group means; reported number of absorbed effects = groups-1")
def demean(c):
    df = build(c)
    assume(len(df) > 1)
    cols = ["y"] + [f"x{j}" for j in range(c["ncov"])]
    out, k = demean_by_group(df, cols, "u", suffix="_g")
    check(k == df["u"].nunique() - 1, f"absorbed effects {k}")
    lab = df["u"].to_numpy()
    for col in cols:
        v = df[col].to_numpy(float)
        m = np.array([v[lab == l].mean() for l in lab])
        eq_arr(out[f"{col}_g"].to_numpy(), v - m, f"demeaned {col}", atol=1e-8 * (1 + np.max(np.abs(v))))
        eq_arr(out[col].to_numpy(), v, f"{col} beside its demeaned copy", 0, 0)
    for inplace in (False, True):
        own = df.copy()
        got, k2 = demean_by_group(own, cols, "u", inplace=inplace)
        check(k2 == k and (got is own) == inplace and list(got.columns) == list(df.columns), "without a suffix the columns are replaced")
        for col in cols:
            eq_arr(got[col].to_numpy(), out[f"{col}_g"].to_numpy(), f"replaced {col}", 1e-12, 1e-12)
            check(inplace or own[col].equals(df[col]), "input changed although inplace=False")
    return ["ok"]


@facet(P, "multivalued_time", st.fixed_dictionaries(dict(seed=seeds, T=st.integers(3, 6))), 0, 0,
       rule="(known finding only) with a numeric time column of more than two values the coefficient on treatment x time is that of the regression with unit and time dummies")
def multivalued_time(c):
    r = rng_of(c)
    N, T = 8, c["T"]
    i, t = [a.ravel() for a in np.meshgrid(np.arange(N), np.arange(T), indexing="ij")]
    d = (i < 3).astype(int)
    df = pd.DataFrame(dict(u=i, t=t, d=d, y=r.normal(size=N * T) + i + t + d * t))
    res = TwoWayFixedEffects().fit(df, outcome="y", treatment="d", time="t", unit="u")
    b = ref.ols(np.column_stack([ref.dummies(i), ref.dummies(t, True), d * t]), df.y.to_numpy())[-1]
    eq(res.att, b, "coefficient on treatment x time", 1e-7)
    return True
