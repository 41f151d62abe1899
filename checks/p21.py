"""P21 - placebo diagnostics."""
import itertools
import math
import numpy as np
import pandas as pd
from scipy import stats
from harness.core import *
from harness import gen
from diff_diff import DifferenceInDifferences, leave_one_out_test, permutation_test, placebo_group_test, placebo_timing_test, run_all_placebo_tests, run_placebo_test

P = "P21"
fields = dict(T=mostly(3, 7, 12), nt=mostly(2, 5, 14), nc=mostly(2, 6, 14), t0=st.sampled_from([0, 1, 2001, -3]), labels=st.sampled_from(["int", "int", "str", "date"]), npost=st.integers(1, 4), k=st.integers(0, 20),
                                  noise=gen.noise, diff=st.sampled_from([0.0, 0.6]), eff=st.sampled_from([0.0, 2.0]), drop=st.sampled_from([0.0, 0.0, 0.1]), ulab=gen.ulab, pres=gen.presentation, alpha=gen.alphas,
                                  est=st.sampled_from(["default", "classical", "cluster"]), via=st.booleans(), given=st.booleans(), scatter=st.sampled_from([False, False, True]), late=st.sampled_from([None, None, 0, 1]), seed=seeds)
case = st.fixed_dictionaries(fields)
few = st.fixed_dictionaries(dict(fields, nt=st.integers(2, 5), nc=st.integers(2, 6)))


def build(c):
    r = rng_of(c)
    T = c["T"]
    lab = {"int": lambda k: c["t0"] + k, "str": lambda k: f"p{k:02d}", "date": lambda k: pd.Timestamp("2020-01-01") + pd.Timedelta(days=30 * k)}[c["labels"]]
    N = c["nt"] + c["nc"]
    u = gen.unit_labels(c["ulab"], N, r)
    D = r.permutation([1] * c["nt"] + [0] * c["nc"])
    npost = min(c["npost"], T - 2) if c["given"] else T - T // 2
    post = list(range(T - npost, T))
    if c["scatter"] and c["given"]:
        post = sorted(int(v) for v in r.choice(range(1, T), npost, replace=False))
    rows = [(u[i], lab(k), D[i], r.normal() + 0.4 * k + c["diff"] * k * D[i] + c["eff"] * D[i] * (k in post)) for i in range(N) for k in range(T)]
    df = pd.DataFrame(rows, columns=["u", "t", "d", "y"])
    df["y"] += gen.shock(c["noise"], r, len(df))
    if c["drop"]:
        df = df[r.random(len(df)) >= c["drop"]].reset_index(drop=True)
        assume(df["t"].nunique() == T and df["u"].nunique() == N)
    return gen.present(df, c["pres"], r), [lab(k) for k in range(T)], [lab(k) for k in post]


class NONE:
    att = float("nan")


def kwargs(c):
    return {"default": {}, "classical": dict(robust=False), "cluster": dict(cluster="u")}[c["est"]]


def did(df, d, post, c, empty=None):
    """the two-group two-period estimate of ``df``: cell means, plus the library's own inference for it"""
    d, p, y = np.asarray(d), np.asarray(post), df["y"].to_numpy(float)
    m = {}
    for a in (0, 1):
        for b in (0, 1):
            v = y[(d == a) & (p == b)]
            if not len(v) and empty is not None:
                return empty
            assume(len(v) > 0)
            m[a, b] = v.mean()
    q = DifferenceInDifferences(alpha=c["alpha"], **kwargs(c)).fit(df.assign(D_=d, P_=p), "y", "D_", "P_")
    eq(q.att, m[1, 1] - m[1, 0] - m[0, 1] + m[0, 0], "two-by-two estimate", 1e-6, 1e-7 * (1 + abs(y).max()))
    return q


def compare(got, q, c, what):
    sc = 1e-9 * (1 + abs(q.att) + (0 if isnan(q.se) else q.se))
    eq(got.placebo_effect, q.att, f"{what}: effect", 1e-7, sc)
    eq(got.se, q.se, f"{what}: SE", 1e-7, sc)
    if q.se > 1e-7 * (1 + abs(q.att)):
        eq(got.t_stat, q.t_stat, f"{what}: t", 1e-6, 1e-9)
        eq(got.p_value, q.p_value, f"{what}: p", 1e-6, 1e-12)
        check(got.is_significant == (q.p_value < c["alpha"]), f"{what}: significance")
        eq_arr(got.conf_int, q.conf_int, f"{what}: interval at level {1 - c['alpha']}", 1e-6, sc)
    check(got.n_obs == q.n_obs and got.alpha == c["alpha"], lambda: f"{what}: {got.n_obs} observations, expected {q.n_obs}")


def call(c, df, kind, **kw):
    """through the dispatcher or the specific function"""
    a = dict(alpha=c["alpha"], **kwargs(c))
    if c["via"]:
        names = {"fake_timing": {"fake_treatment_period": "fake_treatment_period"}, "fake_group": {"fake_treated_units": "fake_treatment_group"}}.get(kind, {})
        return run_placebo_test(df, "y", "d", kw.pop("time"), unit="u", test_type=kind.upper() if c["k"] % 2 else kind, **{names.get(k, k): v for k, v in kw.items()}, **a)
    if kind == "fake_timing":
        return placebo_timing_test(df, "y", "d", kw.pop("time"), **kw, **a)
    if kind == "fake_group":
        return placebo_group_test(df, "y", kw.pop("time"), "u", **kw, **a)
    f = permutation_test if kind == "permutation" else leave_one_out_test
    return f(df, "y", "d", kw.pop("time"), "u", **kw, **a)


@facet(P, "timing", case, 300, rule="fake timing: only pre-treatment rows, post = from the fake period on; estimate, inference at the requested alpha and original effect recomputed; a fake period inside the post periods raises")
def timing(c):
    df, labs, post = build(c)
    pre = [l for l in labs if l not in post]
    assume(len(pre) >= 2)
    fake = pre[1 + c["k"] % (len(pre) - 1)]
    kw = dict(post_periods=post) if c["given"] else {}
    got = call(c, df, "fake_timing", time="t", fake_treatment_period=fake, **kw)
    sub = df[df["t"].isin(pre)]
    compare(got, did(sub, sub["d"], (sub["t"] >= fake).astype(int), c), c, "fake timing")
    full = did(df, df["d"], df["t"].isin(post).astype(int), c)
    eq(got.original_effect, full.att, "original effect", 1e-7, 1e-9)
    eq(got.original_se, full.se, "original SE", 1e-7, 1e-9)
    check(got.fake_period == fake and got.test_type == "fake_timing", "bookkeeping")
    raises(lambda: call(c, df, "fake_timing", time="t", fake_treatment_period=post[0], **kw), what="a fake period after treatment")
    return [c["labels"], c["est"], "given" if c["given"] else "inferred", f"alpha{c['alpha']}"] + (["scattered"] if c["scatter"] and c["given"] else [])


@facet(P, "group", case, 250, rule="fake group: never-treated units only (truly treated rows never enter through the dispatcher), fake units against the rest; an empty fake group raises")
def group(c):
    df, labs, post = build(c)
    kw = dict(post_periods=post) if c["given"] else {}
    ctrl = df[df["d"] == 0]
    assume(ctrl["t"].nunique() == len(labs))
    ids = sorted(ctrl["u"].unique().tolist(), key=str)
    fake = ids[: 1 + c["k"] % (len(ids) - 1)]
    got = call(c, df if c["via"] else ctrl, "fake_group", time="t", fake_treated_units=fake, **kw)
    compare(got, did(ctrl, ctrl["u"].isin(fake).astype(int), ctrl["t"].isin(post).astype(int), c), c, "fake group")
    check(list(got.fake_group) == fake and got.test_type == "fake_group", "bookkeeping")
    raises(lambda: call(c, df, "fake_group", time="t", fake_treated_units=[], **kw), what="an empty fake group")
    raises(lambda: run_placebo_test(df, "y", "d", "t", unit="u", test_type="nope"), what="an unknown test")
    return ["dispatcher" if c["via"] else "direct", c["est"]]


@facet(P, "permutation", few, 120, rule="permutation: every draw is the estimate under some reassignment of as many treated units (enumerated), draws match the exact mean and spread of that set within 6 sigma, p is the share at least as extreme (floored), "
       "interval and SE are those of the draws; same seed, same draws")
def permutation(c):
    df, labs, post = build(c)
    df = df.assign(post=df["t"].isin(post).astype(int))
    n = 40 + c["k"] * 8
    g0 = np.random.get_state()[1].copy()
    got = call(c, df, "permutation", time="post", n_permutations=n, seed=c["seed"])
    check((np.random.get_state()[1] == g0).all(), "global random state changed")
    ids = list(df["u"].unique())
    w = {u: df[df["u"] == u] for u in ids}
    s = {u: np.array([[q.loc[q["post"] == b, "y"].sum(), (q["post"] == b).sum()] for b in (0, 1)], float) for u, q in w.items()}
    tot = sum(s.values())
    exact = []
    for sel in itertools.combinations(ids, c["nt"]):
        a = sum(s[u] for u in sel)
        b = tot - a
        if (a[:, 1] > 0).all() and (b[:, 1] > 0).all():
            exact.append(a[1, 0] / a[1, 1] - a[0, 0] / a[0, 1] - b[1, 0] / b[1, 1] + b[0, 0] / b[0, 1])
    exact = np.array(exact)
    sc = 1e-7 * (1 + np.abs(df["y"]).max())
    dist = np.asarray(got.permutation_distribution)
    check(len(dist) == got.n_permutations <= n and (len(dist) == n or len(exact) < math.comb(len(ids), c["nt"])), lambda: f"{len(dist)} draws of {n}")
    gap = np.abs(dist[:, None] - exact[None, :]).min(axis=1)
    check(gap.max() < sc, lambda: f"draw {dist[gap.argmax()]} is not the estimate under any reassignment (nearest differs by {gap.max()})")
    for pw in (1, 2):
        e = exact ** pw
        if e.std() > sc:
            z = abs((dist ** pw).mean() - e.mean()) / (e.std() / math.sqrt(len(dist)))
            kurt = 1 + (np.abs(e - e.mean()).max() / e.std()) / math.sqrt(len(dist))
            check(z < 6.5 * kurt, lambda: f"draws' moment {pw} is {z:.1f} sigma from that of all reassignments")
    org = did(df, df["d"], df["post"], c)
    eq(got.original_effect, org.att, "original effect", 1e-7, 1e-9)
    eq(got.original_se, org.se, "original SE", 1e-7, 1e-9)
    lo, hi = ((np.abs(dist) >= abs(org.att) + x).mean() for x in (sc, -sc))
    fl = 1 / (len(dist) + 1)
    lo = max(lo, (np.abs(dist) >= abs(got.original_effect)).mean())  # a draw that repeats the actual assignment counts
    check(max(lo, fl) - 1e-12 <= got.p_value <= max(hi, fl) + 1e-12, lambda: f"p {got.p_value}, share at least as extreme {lo}..{hi}")
    check(got.is_significant == (got.p_value < c["alpha"]), "significance")
    eq(got.placebo_effect, dist.mean(), "mean of the null", 1e-9, 1e-12)
    eq(got.se, dist.std(ddof=1), "SE", 1e-9, 1e-12)
    eq_arr(got.conf_int, [np.percentile(dist, 50 * c["alpha"]), np.percentile(dist, 100 - 50 * c["alpha"])], "interval", 1e-9, 1e-12)
    if got.se > sc:
        eq(got.t_stat, org.att / dist.std(ddof=1), "t", 1e-6, 1e-9)
    check(got.n_obs == len(df) and got.alpha == c["alpha"], "bookkeeping")
    again = call(c, df, "permutation", time="post", n_permutations=n, seed=c["seed"])
    check(np.array_equal(again.permutation_distribution, dist) and again.p_value == got.p_value, "same seed, different draws")
    return ["dispatcher" if c["via"] else "direct", c["est"], "significant" if got.is_significant else "not", "few" if len(exact) <= 20 else "many"]


@facet(P, "leave_one_out", case, 150, rule="leave-one-out: one estimate per treated unit (keyed by it) on the data without that unit; mean, spread, t with count-1 degrees of freedom, p and interval recomputed; a constant spread gives no t")
def leave_one_out(c):
    df, labs, post = build(c)
    df = df.assign(post=df["t"].isin(post).astype(int))
    tr = sorted(df.loc[df["d"] == 1, "u"].unique().tolist())
    lone = c["late"] is not None and len(tr) > 2
    if lone:  # all treated units but one are only observed before, or only after, treatment
        df = df[~(df["u"].isin([v for v in tr if v != tr[c["k"] % len(tr)]]) & (df["post"] == c["late"]))]
        assume(df.groupby(["d", "post"]).size().shape[0] == 4 and set(tr) <= set(df["u"]))
    want = {}
    for u in df.loc[df["d"] == 1, "u"].unique():
        q = df[df["u"] != u]
        want[u] = did(q, q["d"], q["post"], {**c, "est": "default"}, empty=NONE).att
    if all(isnan(w) for w in want.values()):
        raises(lambda: call(c, df, "leave_one_out", time="post"), RuntimeError, "no unit can be left out")
        return ["none"]
    got = call(c, df, "leave_one_out", time="post")
    check(set(got.leave_one_out_effects) == set(want), lambda: f"units {sorted(map(str, got.leave_one_out_effects))}, treated are {sorted(map(str, want))}")
    sc = 1e-7 * (1 + np.abs(df["y"]).max())
    for u in want:
        eq(got.leave_one_out_effects[u], want[u], f"estimate without {u}", 1e-7, sc)
    v = np.array([w for w in want.values() if not isnan(w)])
    assume(len(v) > 1)
    eq(got.placebo_effect, v.mean(), "mean", 1e-7, sc)
    sd, k = v.std(ddof=1), len(v) - 1
    eq(got.se, sd, "spread", 1e-5, sc)
    org = did(df, df["d"], df["post"], c)
    eq(got.original_effect, org.att, "original effect", 1e-7, sc)
    check(got.n_obs == len(df) and got.alpha == c["alpha"], "bookkeeping")
    if sd > 1e3 * sc:
        t = v.mean() / sd
        eq(got.t_stat, t, "t", 1e-4, 1e-4)
        eq(got.p_value, 2 * stats.t.sf(abs(t), k), "p", 1e-3, 1e-5)
        h = stats.t.isf(c["alpha"] / 2, k) * sd
        eq_arr(got.conf_int, [v.mean() - h, v.mean() + h], "interval", 1e-4, 1e-5 * h)
        check(got.is_significant == (got.p_value < c["alpha"]), "significance")
    return [c["est"], f"n{len(v)}", "lone" if lone else "all"]


@facet(P, "suite", few, 60, rule="the full suite: one fake-timing entry per pre-period but the first, plus permutation and leave-one-out on the same multi-period data, each equal to the separate test")
def suite(c):
    df, labs, post = build(c)
    pre = [l for l in labs if l not in post]
    assume(len(pre) >= 2 and not c["drop"])
    a = dict(alpha=c["alpha"], **kwargs(c))
    r = run_all_placebo_tests(df, "y", "d", "t", "u", pre_periods=pre, post_periods=post, n_permutations=25, seed=c["seed"], **a)
    check(set(r) == {f"fake_timing_{p}" for p in pre[1:]} | {"permutation", "leave_one_out"}, lambda: f"entries {sorted(r)}")
    d2 = df.assign(post=df["t"].isin(post).astype(int))
    sep = {f"fake_timing_{p}": placebo_timing_test(df, "y", "d", "t", fake_treatment_period=p, post_periods=post, **a) for p in pre[1:]}
    sep["permutation"] = permutation_test(d2, "y", "d", "post", "u", n_permutations=25, seed=c["seed"], **a)
    sep["leave_one_out"] = leave_one_out_test(d2, "y", "d", "post", "u", **a)
    for k, s in sep.items():
        check(not isinstance(r[k], dict), lambda: f"{k} failed: {r[k]}")
        for f in ("placebo_effect", "se", "p_value", "original_effect"):
            eq(getattr(r[k], f), getattr(s, f), f"{k}: {f}", 1e-6, 1e-9)
        eq_arr(r[k].conf_int, s.conf_int, f"{k}: interval", 1e-6, 1e-9)
    return [f"pre{len(pre)}", c["labels"]]
