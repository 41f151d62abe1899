"""P13 - TROP: point estimate and tuning."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, tropref as tr
from diff_diff import TROP, trop

P = "P13"
INF = "inf"
grid1 = lambda xs: st.sampled_from(xs)
panel = dict(N=st.integers(4, 7), T=st.integers(4, 6), starts=st.lists(st.integers(2, 5), min_size=1, max_size=3), drop=st.sampled_from([0.0, 0.0, 0.1]),
             rank=st.integers(0, 2), noise=st.sampled_from(["gauss", "int", "hetero", "shift"]), ulab=gen.ulab, t0=st.sampled_from([0, 1, 2001]), tstep=st.sampled_from([1, 1, 3]),
             pres=gen.presentation, seed=seeds)


def build(c, joint=False):
    r = rng_of(c)
    N, T = c["N"], c["T"]
    starts = [min(s, T - 1) for s in c["starts"]]
    if joint:
        starts = [starts[0]] * len(starts)
    starts = starts[: N - 2]
    D = np.zeros((T, N), int)
    pos = r.permutation(N)[: len(starts)]
    for p, s in zip(pos, starts):
        D[s:, p] = 1
    Y = r.normal(size=N)[None] * 1.5 + r.normal(size=T)[:, None]
    for _ in range(c["rank"]):
        Y = Y + np.outer(r.normal(size=T), r.normal(size=N)) * 1.5
    Y = Y + gen.shock(c["noise"], r, N * T).reshape(T, N) * 0.7 + D * 1.3
    if c["noise"] == "int":
        Y = np.round(Y)
    if c["drop"]:
        k = (r.random((T, N)) < c["drop"]) & (D == 0)
        # keep every unit with two untreated rows, every period with an untreated row of each kind
        for i in range(N):
            ok = np.where(D[:, i] == 0)[0]
            k[ok[:2] if len(ok) else [], i] = False
        k[:, [i for i in range(N) if not D[:, i].any()][:2]] = False
        Y = np.where(k, np.nan, Y)
    u = gen.unit_labels(c["ulab"], N, r)
    o = np.argsort(u.astype(str) if c["ulab"] == "str" else u, kind="stable")
    Y, D, u = Y[:, o], D[:, o], u[o]
    per = c["t0"] + c["tstep"] * np.arange(T)
    rows = [(u[i], per[t], Y[t, i], D[t, i]) for i in range(N) for t in range(T) if np.isfinite(Y[t, i])]
    df = pd.DataFrame(rows, columns=["unit", "time", "y", "d"])
    if c["ulab"] != "str":
        df["unit"] = df["unit"].astype(int)
    return gen.present(df, c["pres"], r), Y, D, u, per


def lam_of(c):
    return tuple(float(c[k]) for k in ("lt", "lu", "ln"))


def model(c, **kw):
    lt, lu, ln = lam_of(c)
    d = dict(lambda_time_grid=[lt], lambda_unit_grid=[lu], lambda_nn_grid=[ln], max_iter=4000, tol=1e-10, max_loocv_samples=1, variance_method="jackknife", seed=3)
    return TROP(**dict(d, **kw))


lams = dict(lt=st.sampled_from([0.0, 0.1, 0.5, INF]), lu=st.sampled_from([0.0, 0.3, 1.0, INF]), ln=st.sampled_from([0.3, 1.0, 4.0, INF, INF]))


@facet(P, "twostep", st.fixed_dictionaries(dict(panel, **lams)), 140, 1500, rule="staggered adoption, missing untreated rows, any labels: each treated cell's effect is its outcome minus the "
       "weighted two-way + nuclear-norm fit of the untreated cells (reference solver); ATT is their mean; reported effects, counts and rank")
def twostep(c):
    df, Y, D, u, per = build(c)
    lam = lam_of(c)
    res = model(c).fit(df, "y", "d", "unit", "time")
    want = tr.twostep_effects(Y, D, lam)
    sc = max(1.0, np.nanstd(Y))
    got = res.treatment_effects
    check(set(got) == {(u[i], per[t]) for t, i in want}, lambda: f"treated cells {set(got)}")
    for (t, i), v in want.items():
        eq(got[u[i], per[t]], v, f"effect at unit {u[i]} period {per[t]}", 2e-4, 2e-4 * sc)
    eq(res.att, np.mean([got[k] for k in got]), "ATT is the mean treated-cell effect")
    check((res.lambda_time, res.lambda_unit, res.lambda_nn) == lam, "selected parameters come from the grid")
    check((res.n_obs, res.n_treated, res.n_control, res.n_treated_obs) == (len(df), int(D.any(0).sum()), int((~D.any(0)).sum()), int(D.sum())), "counts")
    first = np.where(D.any(1))[0][0]
    check((res.n_pre_periods, res.n_post_periods) == (first, int(D.any(1).sum())), "period counts")
    s = np.linalg.svd(res.factor_matrix, compute_uv=False)
    eq(res.effective_rank, s.sum() / s[0] if s[0] > 0 else 0.0, "effective rank", 1e-6, 1e-9)
    if np.isinf(lam[2]):
        check(np.abs(res.factor_matrix).max() == 0, "no factor component when the factor model is disabled")
    if len(want) == 1:
        (t, i), = want
        eq(res.unit_effects[u[i]] + res.time_effects[per[t]] + res.factor_matrix[t, i], Y[t, i] - got[u[i], per[t]], "effects and factors add up to the counterfactual", 1e-6, 1e-6)
    return ["nn" if not np.isinf(lam[2]) else "twfe", f"ntr{D.any(0).sum()}"] + (["missing"] if np.isnan(Y).any() else []) + (["stag"] if len(set(np.argmax(D[:, D.any(0)], 0))) > 1 else [])


@facet(P, "joint", st.fixed_dictionaries(dict(panel, **lams)), 170, 1500, rule="simultaneous adoption: the effect is the treatment coefficient of the stated weighted two-way + nuclear-norm regression (reference solver)")
def joint(c):
    df, Y, D, u, per = build(c, joint=True)
    lam = lam_of(c)
    mk = lambda: model(c, method="joint").fit(df, "y", "d", "unit", "time")
    res = mk()
    tau, b, L, W = tr.joint_fit(Y, D, lam)
    sc = max(1.0, np.nanstd(Y))
    eq(res.att, tau, "joint ATT", 2e-4, 2e-4 * sc)
    check(set(res.treatment_effects) == {(u[i], per[t]) for t, i in zip(*np.where(D == 1))}, "treated cells")
    check(all(v == res.att for v in res.treatment_effects.values()), "one common effect")
    eq_arr(res.factor_matrix, L, "factor matrix", 5e-4, 5e-4 * sc)
    N, T = len(u), len(per)
    fe = np.array([[res.unit_effects[u[i]] + res.time_effects[per[t]] for i in range(N)] for t in range(T)])
    got = Y - fe - res.factor_matrix - res.att * D
    rres = Y - (tr._design(T, N, D.astype(float)) @ b).reshape(T, N) - L
    m = np.isfinite(Y) & (W > 0)
    k = got[m] - rres[m]
    check(np.ptp(k) < 2e-3 * sc, lambda: f"unit and time effects do not reproduce the fit up to a constant (spread {np.ptp(k)})")
    return ["nn" if not np.isinf(lam[2]) else "wls", f"post{int(D.any(1).sum())}"] + (["missing"] if np.isnan(Y).any() else [])


@facet(P, "tuning", st.fixed_dictionaries(dict(panel, N=st.integers(4, 5), T=st.just(4), starts=st.lists(st.integers(2, 3), min_size=1, max_size=2), method=st.sampled_from(["twostep", "joint"]),
       gt=st.lists(st.sampled_from([0.0, 0.2, 1.0, INF]), min_size=1, max_size=2, unique=True), gu=st.lists(st.sampled_from([0.0, 0.4, 1.5, INF]), min_size=1, max_size=2, unique=True),
       gn=st.lists(st.sampled_from([0.5, 2.0, INF]), min_size=1, max_size=2, unique=True))), 48, 500,
       rule="selected parameters lie in the grids; the reported score is the sum of squared leave-one-out effects there; no other grid point (joint) / no single-parameter change (twostep) has a lower score")
def tuning(c):
    jn = c["method"] == "joint"
    c = dict(c, **{k: [float(v) for v in c[k]] for k in ("gt", "gu", "gn")})
    df, Y, D, u, per = build(c, joint=jn)
    est = TROP(method=c["method"], lambda_time_grid=c["gt"], lambda_unit_grid=c["gu"], lambda_nn_grid=c["gn"], max_iter=1500, tol=1e-8, max_loocv_samples=500, variance_method="jackknife")
    res = est.fit(df, "y", "d", "unit", "time")
    sel = (res.lambda_time, res.lambda_unit, res.lambda_nn)
    check(sel[0] in c["gt"] and sel[1] in c["gu"] and sel[2] in c["gn"], lambda: f"selected {sel} outside the grids")
    score = tr.joint_score if jn else tr.twostep_score
    q = score(Y, D, sel)
    tol = 1e-3 * q + 1e-4
    eq(res.loocv_score, q, "cross-validation score", 1e-3, 1e-4)
    n = 0
    for lt in c["gt"]:
        for lu in c["gu"]:
            for ln in c["gn"]:
                z = (lt, lu, ln)
                diff = sum(a != b for a, b in zip(z, sel))
                if diff == 0 or (diff > 1 and not jn):
                    continue
                n += 1
                check(score(Y, D, z) >= q - tol, lambda: f"parameters {z} score {score(Y, D, z)} < selected {sel} score {q}")
    # the estimate is the one at the selected parameters
    want = tr.joint_fit(Y, D, sel)[0] if jn else np.mean(list(tr.twostep_effects(Y, D, sel).values()))
    eq(res.att, want, "ATT at the selected parameters", 1e-3, 1e-3 * max(1.0, np.nanstd(Y)))
    return [c["method"], "choice" if n else "single"] + (["inf"] if np.inf in sel else [])


@facet(P, "coordinate", st.fixed_dictionaries(dict(panel, N=st.integers(6, 7), T=st.integers(6, 9), starts=st.lists(st.integers(4, 7), min_size=1, max_size=2), rank=st.integers(1, 2), big=st.sampled_from([0.4, 1.0, 2.0]),
       gt=st.lists(st.sampled_from([0.0, 0.1, 0.5, 2.0, INF]), min_size=2, max_size=3, unique=True), gu=st.lists(st.sampled_from([0.0, 0.2, 0.5, 2.0, INF]), min_size=2, max_size=4, unique=True),
       gn=st.lists(st.sampled_from([0.1, 0.5, 1.0, INF]), min_size=2, max_size=4, unique=True), mls=st.sampled_from([8, 15]))), 60, 900,
       rule="larger grids (up to 4x4x4) and panels: refitting with every parameter but one fixed at its selected value gives the same score at the selected value and no lower one elsewhere on the grid")
def coordinate(c):
    c = dict(c, **{k: [float(v) for v in c[k]] for k in ("gt", "gu", "gn")})
    df, Y, D, u, per = build(dict(c, noise="gauss"))
    df["y"] *= c["big"]
    kw = dict(n_bootstrap=2, max_loocv_samples=c["mls"], max_iter=15, seed=c["seed"] % 7)
    G = dict(lambda_time=c["gt"], lambda_unit=c["gu"], lambda_nn=c["gn"])
    fit = lambda g: TROP(**{k + "_grid": v for k, v in g.items()}, **kw).fit(df, "y", "d", "unit", "time")
    res = fit(G)
    sel = {k: getattr(res, k) for k in G}
    check(all(sel[k] in G[k] for k in G), lambda: f"selected {sel} outside the grids")
    one = fit({k: [v] for k, v in sel.items()})
    eq(one.loocv_score, res.loocv_score, "score of the selected parameters on their own", 1e-9)
    eq(one.att, res.att, "estimate with the selected parameters on their own", 1e-9)
    n = 0
    for k in G:
        for v in G[k]:
            if v != sel[k]:
                z = fit({q: [v if q == k else sel[q]] for q in G})
                n += 1
                check(z.loocv_score >= res.loocv_score * (1 - 1e-9), lambda: f"{k}={v} scores {z.loocv_score}, selected {sel} {res.loocv_score}")
    return [f"grid{max(len(G[k]) for k in G)}", f"alt{n}"]


@facet(P, "rejects", st.fixed_dictionaries(dict(panel, what=st.sampled_from(["reversal", "nopre", "nocontrol", "notreated", "staggered_joint", "column"]), method=st.sampled_from(["twostep", "joint"]))), 60,
       rule="treatment that switches off, fewer than two untreated periods, no controls, no treated, staggered timing with the joint method: ValueError")
def rejects(c):
    df, Y, D, u, per = build(c, joint=True)
    w, method = c["what"], c["method"]
    tu = [x for x, d in zip(u, D.any(0)) if d][0]
    cu = [x for x, d in zip(u, D.any(0)) if not d]
    df = df.reset_index(drop=True)
    if w == "reversal":
        t1 = per[np.where(D.any(1))[0][0]]
        df.loc[(df.unit == tu) & (df.time == per[0]), "d"] = 1
        if not ((df.unit == tu) & (df.time == per[1])).any() and not ((df.unit == tu) & (df.time == per[0])).any():
            assume(False)
    elif w == "nopre":
        df.loc[(df.unit == tu) & (df.time >= per[1]), "d"] = 1
        df.loc[(df.unit != tu) & (df.d == 1) & (df.time >= per[1]), "d"] = 1
        if method == "joint":
            for x, d in zip(u, D.any(0)):
                if d:
                    df.loc[(df.unit == x) & (df.time >= per[1]), "d"] = 1
        assume(((df.unit == tu) & (df.time == per[1])).any())
    elif w == "nocontrol":
        for x in cu:
            df.loc[(df.unit == x) & (df.time >= per[np.where(D.any(1))[0][0]]), "d"] = 1
        assume(df.groupby("unit").d.max().min() == 1)
    elif w == "notreated":
        df["d"] = 0
    elif w == "staggered_joint":
        method = "joint"
        st_ = np.where(D.any(1))[0][0]
        assume(st_ < len(per) - 1)
        x = cu[0]
        assume(len(cu) > 1)
        df.loc[(df.unit == x) & (df.time > per[st_]), "d"] = 1
    elif w == "column":
        df = df.drop(columns="y")
    est = TROP(method=method, lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[np.inf], n_bootstrap=2, max_loocv_samples=1)
    raises(lambda: est.fit(df, "y", "d", "unit", "time"), what=f"{w} ({method})")
    return [w, method]
