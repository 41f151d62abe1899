"""P15 - Goodman-Bacon decomposition."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, ref, stag
from diff_diff import BaconDecomposition, TwoWayFixedEffects, bacon_decompose

P = "P15"
base = dict(T=mostly(3, 8, 14), sizes=lists_mostly(mostly(1, 6, 15), 1, 4, 9), start=st.lists(st.integers(0, 20), min_size=9, max_size=9), nnever=mostly(0, 6, 20),
            t0=st.sampled_from([1, 1, 2000, -2]), step=st.sampled_from([1, 1, 2]), never=st.sampled_from(["zero", "inf", "mixed"]), noise=gen.noise, ulab=gen.ulab, pres=gen.presentation,
            dyn=st.sampled_from([0.0, 1.0, -2.0]), via=st.sampled_from(["class", "func", "twfe"]), weights=st.sampled_from(["exact", "exact", "approximate"]), seed=seeds)


def build(c):
    r = rng_of(c)
    per = [c["t0"] + c["step"] * k for k in range(c["T"])]
    cand = [p for p in per + [per[-1] + c["step"]] if p > 0]   # includes always-treated and treated-after-the-sample cohorts
    g = []
    for s, k in zip(c["sizes"], c["start"]):
        g += [cand[k % len(cand)]] * s
    g += [0] * c["nnever"]
    g = [g[i] for i in r.permutation(len(g))]
    u = gen.unit_labels(c["ulab"], len(g), r)
    rows = []
    for i, gi in enumerate(g):
        code = gi if gi else {"zero": 0, "inf": np.inf, "mixed": [0, np.inf][i % 2]}[c["never"]]
        a = r.normal()
        for k, p in enumerate(per):
            rows.append((u[i], p, code, a + .3 * k + (2 + c["dyn"] * (p - gi)) * (gi > 0 and p >= gi)))
    df = pd.DataFrame(rows, columns=["u", "t", "g", "y"])
    df["y"] += gen.shock(c["noise"], r, len(df))
    if np.isfinite(df.g).all():
        df["g"] = df["g"].astype(int)
    return gen.present(df, c["pres"], r), np.array(g), per


def run(c, df):
    if c["via"] == "class":
        return BaconDecomposition(weights=c["weights"]).fit(df, "y", "u", "t", "g")
    if c["via"] == "func":
        return bacon_decompose(df, "y", "u", "t", "g", weights=c["weights"])
    return TwoWayFixedEffects().decompose(df, "y", "u", "t", "g", weights=c["weights"])


def expected(df, g, per):
    """{(treated, control): (type, pre, post)} for every pair with both windows non-empty"""
    co = sorted(set(g) - {0})
    out = {}
    for k in co:
        if 0 in g:
            out[k, "never_treated"] = ("treated_vs_never", [t for t in per if t < k], [t for t in per if t >= k])
        for l in co:
            if k < l:
                out[k, l] = ("earlier_vs_later", [t for t in per if t < k], [t for t in per if k <= t < l])
            elif l < k:
                out[k, l] = ("later_vs_earlier", [t for t in per if l <= t < k], [t for t in per if t >= k])
    return {k: v for k, v in out.items() if v[1] and v[2]}


def common(c, df, g, per, res):
    coh = df["g"].replace(np.inf, 0)
    exp = expected(df, g, per)
    got = {(q.treated_group, q.control_group): q for q in res.comparisons}
    check(len(got) == len(res.comparisons) and set(got) == set(exp), lambda: f"comparisons {sorted(map(str, got))}, expected {sorted(map(str, exp))}")
    n = {k: int((g == k).sum()) for k in set(g)}
    w = {}
    for k, (ty, pre, post) in exp.items():
        ctrl = 0 if k[1] == "never_treated" else k[1]
        cell = lambda grp, ps: df.loc[(coh == grp) & df.t.isin(ps), "y"].mean()
        est = (cell(k[0], post) - cell(k[0], pre)) - (cell(ctrl, post) - cell(ctrl, pre))
        q = got[k]
        check(q.comparison_type == ty, lambda: f"{k}: type {q.comparison_type}, expected {ty}")
        eq(q.estimate, est, f"2x2 estimate {k}", 1e-7, 1e-8 * (1 + abs(df.y).max()))
        check((q.n_treated, q.n_control) == (n[k[0]], n.get(ctrl, 0)), f"{k}: group sizes")
        lo, hi = q.time_window
        if ty != "later_vs_earlier" or k[1] >= per[0]:
            check([t for t in per if lo <= t <= hi] == sorted(pre + post), lambda: f"{k}: window {q.time_window} vs periods {pre}+{post}")
        nk, nl = n[k[0]], n.get(ctrl, 0)
        s, D, h = nk / (nk + nl), len(post) / (len(pre) + len(post)), (len(pre) + len(post)) / len(per)
        w[k] = s * (1 - s) * D * (1 - D) * (h if c["weights"] == "approximate" else h ** 2 * (nk + nl) ** 2)
    tot = sum(w.values())
    for k in w:
        eq(got[k].weight, w[k] / tot, f"{c['weights']} weight of {k}", 1e-8, 1e-12)
    if w:
        eq(sum(q.weight for q in res.comparisons), 1.0, "weights sum to one")
    byt, eff = res.weight_by_type(), res.effect_by_type()
    for ty in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier"):
        ws = [(q.weight, q.estimate) for q in res.comparisons if q.comparison_type == ty]
        W = sum(a for a, _ in ws)
        eq(byt[ty], W, f"total weight {ty}", 1e-8, 1e-12)
        eq(getattr(res, "total_weight_" + ty), W, f"total weight {ty}", 1e-8, 1e-12)
        if ws:
            eq(eff[ty], sum(a * b for a, b in ws) / W, f"average effect {ty}", 1e-7, 1e-8 * (1 + abs(df.y).max()))
        else:
            check(eff[ty] is None, f"average effect {ty} without comparisons")
    tsum = sum(q.weight * q.estimate for q in res.comparisons)
    eq(res.decomposition_error, abs(res.twfe_estimate - tsum), "decomposition error", 1e-6, 1e-9 * (1 + abs(df.y).max()))
    check((res.n_timing_groups, res.n_never_treated, res.n_obs) == (len(set(g) - {0}), int((g == 0).sum()), len(df)), "counts")
    check(list(res.timing_groups) == sorted(set(g) - {0}), "timing groups")
    t = res.to_dataframe()
    check(len(t) == len(exp) and (not len(t) or np.allclose(t["weight"] * t["estimate"], [q.weight * q.estimate for q in res.comparisons])), "table")
    return exp


@facet(P, "decomposition", st.fixed_dictionaries(base), 700, rule="balanced panels, 1-4 cohorts incl. always-treated and never-within-sample, with or without never-treated: complete list of 2x2 comparisons, "
       "their estimates, windows, sizes, weights and totals; exact weights add up to the two-way fixed-effects coefficient")
def decomposition(c):
    df, g, per = build(c)
    treated = ((df.g > 0) & (df.t >= df.g) & np.isfinite(df.g)).astype(float).values
    Z = np.column_stack([np.ones(len(df)), ref.dummies(df.u), ref.dummies(df.t)])
    keep, Q = ref.indep_columns(Z)
    d = treated - Q @ (Q.T @ treated)
    assume((d ** 2).sum() > 1e-8)
    res = run(c, df)
    y = df.y.values.astype(float)
    eq(res.twfe_estimate, d @ y / (d @ d), "two-way fixed-effects estimate", 1e-6, 1e-7 * (1 + abs(y).max()))
    exp = common(c, df, g, per, res)
    if c["weights"] == "exact":
        eq(res.decomposition_error, 0.0, "decomposition error of exact weights", 0, 1e-7 * (1 + abs(y).max()))
    return [c["weights"], f"cmp{min(len(exp), 8)}"] + (["nonever"] if not (g == 0).any() else []) + (["always"] if set(g) & {per[0]} else []) + (["late"] if max(g) > per[-1] else [])


@facet(P, "approximate_clean", st.fixed_dictionaries(dict(base, sizes=st.lists(st.integers(1, 8), min_size=1, max_size=1), nnever=st.integers(1, 8), weights=st.sampled_from(["exact", "approximate"]))), 120,
       rule="a single cohort against never-treated units: one comparison with weight one, equal to the fixed-effects estimate under either weighting")
def approximate_clean(c):
    df, g, per = build(c)
    k = max(g)
    assume(per[0] < k <= per[-1])
    res = run(c, df)
    check(len(res.comparisons) == 1 and abs(res.comparisons[0].weight - 1) < 1e-12, "one comparison of weight one")
    eq(res.decomposition_error, 0.0, "decomposition error", 0, 1e-7 * (1 + abs(df.y).max()))
    return [c["weights"]]


@facet(P, "unbalanced", st.fixed_dictionaries(dict(base, drop=st.integers(1, 6))), 150,
       rule="panels with missing unit-periods: announced by a warning; the two-way coefficient is still that of unit and period dummies, the 2x2 estimates still cell-mean differences, weights add to one, totals and error follow")
def unbalanced(c):
    import warnings
    df, g, per = build(c)
    coh_of = dict(zip(df.u, df.g.replace(np.inf, 0)))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        full = run(c, df)
    check(not any("nbalanced" in str(w.message) for w in ws), "a balanced panel is called unbalanced")
    r = rng_of(c, 4)
    df = df.reset_index(drop=True)
    df = df.drop(index=r.permutation(len(df))[:c["drop"]]).reset_index(drop=True)
    n = df.groupby("u").size()
    assume(n.nunique() > 1 and set(df.t) == set(per) and set(df.u) == set(coh_of))
    treated = ((df.g > 0) & (df.t >= df.g) & np.isfinite(df.g)).astype(float).values
    keep, Q = ref.indep_columns(np.column_stack([np.ones(len(df)), ref.dummies(df.u), ref.dummies(df.t)]))
    d = treated - Q @ (Q.T @ treated)
    assume((d ** 2).sum() > 1e-6)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        res = run(c, df)
    check(any("nbalanced" in str(w.message) for w in ws), "no warning about the unbalanced panel")
    y = df.y.values.astype(float)
    eq(res.twfe_estimate, d @ y / (d @ d), "two-way fixed-effects estimate", 1e-6, 1e-7 * (1 + abs(y).max()))
    coh = df["g"].replace(np.inf, 0)
    mean = lambda k, ps: df.loc[(coh == k) & df.t.isin(ps), "y"].mean()
    want = {}
    for k, (ty, pre, post) in expected(df, g, per).items():
        o = 0 if k[1] == "never_treated" else k[1]
        v = (mean(k[0], post) - mean(k[0], pre)) - (mean(o, post) - mean(o, pre))
        if not np.isnan(v):
            want[k] = (ty, v)
    got = {(q.treated_group, q.control_group): q for q in res.comparisons}
    check(set(got) == set(want), lambda: f"comparisons {sorted(map(str, got))}, expected {sorted(map(str, want))}")
    for k, (ty, v) in want.items():
        check(got[k].comparison_type == ty, "type")
        eq(got[k].estimate, v, f"2x2 estimate {k}", 1e-7, 1e-8 * (1 + abs(y).max()))
        check(got[k].weight >= 0, "negative weight")
    if want:
        eq(sum(q.weight for q in res.comparisons), 1.0, "weights add to one")
    eq(res.decomposition_error, abs(res.twfe_estimate - sum(q.weight * q.estimate for q in res.comparisons)), "decomposition error", 1e-6, 1e-9 * (1 + abs(y).max()))
    check(res.n_obs == len(df) and res.n_never_treated == int((g == 0).sum()), "counts")
    return [c["weights"], f"lost{c['drop']}"]
