"""P18 - analytic power, minimum detectable effect and sample size."""
import math
import numpy as np
from scipy import stats
from harness.core import *
from diff_diff import PowerAnalysis, compute_mde, compute_power, compute_sample_size

P = "P18"
design = dict(alpha=st.sampled_from([0.05, 0.01, 0.1, 0.2, 0.001]), target=st.sampled_from([0.8, 0.9, 0.5, 0.95, 0.65, 0.999]), alt=st.sampled_from(["two-sided", "greater", "less"]),
              n_pre=st.integers(1, 12), n_post=st.integers(1, 12), two=st.booleans(), rho=st.sampled_from([0.0, 0.0, 0.05, 0.3, 0.9, 1.0, "neg", "most"]),
              sigma=st.sampled_from([1.0, 0.01, 0.37, 8.0, 2500.0]))
case = st.fixed_dictionaries(dict(design, nt=st.integers(1, 3000), nc=st.integers(1, 3000), rel=st.sampled_from([0.0, 0.1, 0.5, 1.0, 1.7, 4.0, -0.5, -1.0, -3.0])))
size_case = st.fixed_dictionaries(dict(design, eff=st.sampled_from([0.05, 0.1, 0.33, 0.8, 2.0, 30.0, 1000.0, 1e-5]), sign=st.sampled_from([1, 1, -1]), frac=st.sampled_from([0.5, 0.5, 0.1, 0.29, 0.7, 0.9, 1 / 3, 0.02, 0.96, 0.58])))


def periods(c):
    return (1, 1) if c["two"] else (c["n_pre"], c["n_post"])


def settle(c):
    """negative correlations reach down to -1/(T-1), where the variance vanishes"""
    if isinstance(c["rho"], str):
        c = {**c, "rho": (-0.3 if c["rho"] == "neg" else -0.95) / (sum(periods(c)) - 1)}
    return c


def unit_var(c):
    """variance of the estimate per (1/n_treated + 1/n_control)"""
    a, b = periods(c)
    T = a + b
    return 2 * c["sigma"] ** 2 if T == 2 else c["sigma"] ** 2 * (1 + (T - 1) * c["rho"]) / T


def za(c):
    return stats.norm.isf(c["alpha"] / 2 if c["alt"] == "two-sided" else c["alpha"])


def oracle_power(c, eff, se):
    z, N = za(c), stats.norm
    if c["alt"] == "two-sided":
        return N.sf(z - eff / se) + N.cdf(-z - eff / se)
    return N.sf(z - eff / se) if c["alt"] == "greater" else N.cdf(-z - eff / se)


def pa_of(c):
    return PowerAnalysis(**doc(dict(seed=c["n_post"]), alpha=c["alpha"], power=c["target"], alternative=c["alt"]))


def books(r, c, nt, nc, what):
    a, b = periods(c)
    check((r.alpha, r.alternative, r.n_pre, r.n_post, r.sigma, r.rho, r.n_treated, r.n_control) == (c["alpha"], c["alt"], a, b, c["sigma"], c["rho"], nt, nc), f"{what}: inputs echoed")
    check(r.design == ("panel" if a + b > 2 else "basic_did"), f"{what}: design")


@facet(P, "power_mde", case, 700, rule="any group sizes, periods, ICC, alpha, target and alternative: power equals the normal rejection probability at the stated variance, the MDE is where the "
       "one-tail power equals the target, both move in the right direction with every input, curves equal pointwise power, convenience functions agree")
def power_mde(c):
    c = settle(c)
    a, b = periods(c)
    pa, se = pa_of(c), math.sqrt(unit_var(c) * (1 / c["nt"] + 1 / c["nc"]))
    kw = dict(sigma=c["sigma"], n_pre=a, n_post=b, rho=c["rho"])
    m = pa.mde(c["nt"], c["nc"], **kw)
    mde = (za(c) + stats.norm.ppf(c["target"])) * se
    books(m, c, c["nt"], c["nc"], "mde")
    eq(m.mde, mde, "MDE", 1e-9)
    check(m.power == c["target"] and m.effect_size == m.mde and m.required_n == c["nt"] + c["nc"], "MDE bookkeeping")
    eff = c["rel"] * mde
    r = pa.power(eff, c["nt"], c["nc"], **kw)
    books(r, c, c["nt"], c["nc"], "power")
    want = oracle_power(c, eff, se)
    eq(r.power, want, f"power at {eff}", 1e-9, 1e-12)
    eq(r.mde, mde, "MDE reported with the power", 1e-9)
    check(r.effect_size == eff, "effect size echoed")
    at = pa.power(-mde if c["alt"] == "less" else mde, c["nt"], c["nc"], **kw).power
    tail = stats.norm.cdf(-za(c) - mde / se) if c["alt"] == "two-sided" else 0
    eq(at, c["target"] + tail, "power at the MDE", 1e-8)
    # direction of every input
    s = -1 if c["alt"] == "less" else 1
    pw = lambda e=abs(eff) * s, nt=c["nt"], nc=c["nc"], **k: pa.power(e, nt, nc, **{**kw, **k}).power
    p0, tol = pw(), 1e-12
    check(pw(e=1.3 * abs(eff) * s) >= p0 - tol and pw(nt=c["nt"] + 5) >= p0 - tol and pw(nc=c["nc"] + 5) >= p0 - tol, "power falls with the effect or the sample")
    check(pw(sigma=1.5 * c["sigma"]) <= p0 + tol and pw(rho=min(1.0, c["rho"] + 0.2)) <= p0 + tol, "power rises with the noise or the intra-cluster correlation")
    if a + b > 2 and c["rho"] >= 0:
        check(pw(n_post=b + 1) >= p0 - tol and pw(n_pre=a + 1) >= p0 - tol, "power falls with more periods")
    grid = [0.0, 0.4 * mde, mde, -0.7 * mde, eff]
    cv = pa.power_curve(c["nt"], c["nc"], effect_sizes=grid, **kw)
    eq_arr(cv["effect_size"], grid, "curve grid", 1e-12)
    eq_arr(cv["power"], [oracle_power(c, e, se) for e in grid], "curve", 1e-9, 1e-12)
    au = pa.power_curve(c["nt"], c["nc"], **kw)
    e = au["effect_size"].to_numpy()
    check(e[0] == 0 and (np.diff(e) > 0).all() and e[-1] >= 1.99 * mde, "automatic grid starts at 0 and passes the MDE")
    eq_arr(au["power"], [oracle_power(c, x, se) for x in e], "automatic curve", 1e-9, 1e-12)
    if c["alt"] == "two-sided":
        d = doc(dict(seed=c["nt"]), alpha=c["alpha"], n_pre=a, n_post=b, rho=c["rho"])
        eq(compute_power(eff, c["nt"], c["nc"], c["sigma"], **d), want, "compute_power", 1e-9, 1e-12)
        eq(compute_mde(c["nt"], c["nc"], c["sigma"], **d, **doc(dict(seed=c["nc"]), power=c["target"])), mde, "compute_mde", 1e-9)
    return [c["alt"], "panel" if a + b > 2 else "basic", f"rel{c['rel']}"] + (["rho" if c["rho"] > 0 else "negative"] if c["rho"] and a + b > 2 else [])


def minimal(c, eff):
    a, b = periods(c)
    z = za(c) + stats.norm.ppf(c["target"])
    return z * z * unit_var(c) / (eff * eff * c["frac"] * (1 - c["frac"]))


@facet(P, "sample_size", size_case, 1000, rule="any effect, split and design: the required total is the smallest whole number whose requested split reaches the target (at least 2 in each group), the power there reaches the target up to "
       "integer rounding of the split, and with one unit less than the unrounded requirement it does not; curves equal pointwise power; a zero effect is never detectable")
def sample_size(c):
    c = settle(c)
    a, b = periods(c)
    pa, eff, f = pa_of(c), c["eff"] * c["sign"], c["frac"]
    kw = dict(n_pre=a, n_post=b, rho=c["rho"])
    need = minimal(c, eff)
    r = pa.sample_size(eff, c["sigma"], treat_frac=f, **kw)
    books(r, c, r.n_treated, r.n_control, "sample size")
    check(r.power == c["target"] and r.effect_size == eff and r.required_n == r.n_treated + r.n_control, "bookkeeping")
    se = math.sqrt(unit_var(c) * (1 / r.n_treated + 1 / r.n_control))
    eq(r.mde, (za(c) + stats.norm.ppf(c["target"])) * se, "MDE at the required sample", 1e-9)
    lab = [c["alt"], "panel" if a + b > 2 else "basic"]
    if need > 2e9:
        check(r.required_n >= 2e9 - 2, "an undetectable effect needs the largest sample")
        return lab + ["huge"]
    N = max(4, math.ceil(need))
    slack = 1 if abs(need - round(need)) < 1e-6 * (1 + need / 1e4) else 0
    check(N - slack <= r.required_n <= N + slack + 2 * (N * min(f, 1 - f) < 3), lambda: f"required total {r.required_n}, the smallest sufficient total is {N} ({need})")
    check(abs(r.n_treated - N * f) <= 1 + slack or N * min(f, 1 - f) < 3, lambda: f"{r.n_treated} of {N} treated, requested share {f}")
    got = oracle_power(c, abs(eff) * (-1 if c["alt"] == "less" else 1), se)
    # moving at most one unit between the groups is the only loss integer sizes may cause
    lo = math.sqrt(unit_var(c) / max(N * f * (1 - f) - 1, 1e-9))
    if N > 8:
        check(got >= oracle_power(c, abs(eff) * (-1 if c["alt"] == "less" else 1), lo) - 1e-9, lambda: f"power at the required sample is {got}, target {c['target']}")
    if c["alt"] == "two-sided":
        check(compute_sample_size(eff, c["sigma"], **doc(dict(seed=c["n_pre"]), power=c["target"], alpha=c["alpha"], treat_frac=f, **kw)) == r.required_n, "compute_sample_size")
    # power() reports the same requirement for the same split
    nt, nc = 100, max(1, round(100 * (1 - f) / f))
    q = pa.power(eff, nt, nc, c["sigma"], **kw).required_n
    n2 = minimal({**c, "frac": nt / (nt + nc)}, eff)
    check(abs(q - max(4, math.ceil(n2))) <= (1 if abs(n2 - round(n2)) < 1e-6 * (1 + n2 / 1e4) else 0), lambda: f"required total reported by power {q}, expected {math.ceil(n2)}")
    return lab + ["floor" if need < 4 else "large" if need > 1e5 else "mid", f"frac{f:.2f}"]


@facet(P, "curve", st.tuples(size_case, st.one_of(st.none(), st.lists(st.integers(4, 4000), min_size=1, max_size=8))).map(list), 300, rule="sample-size curves: given sizes kept in order, automatic sizes increasing and "
       "covering the requirement; each point is the power of a split within one unit of the requested share; zero effects; invalid settings raise")
def curve(a):
    c, sizes = a
    c = settle(c)
    p, q = periods(c)
    pa, eff, f = pa_of(c), c["eff"] * c["sign"], c["frac"]
    kw = dict(n_pre=p, n_post=q, rho=c["rho"])
    t = pa.sample_size_curve(eff, c["sigma"], sample_sizes=sizes, treat_frac=f, **kw)
    ns = [int(v) for v in t["sample_size"]]
    if sizes is not None:
        check(ns == sizes, "sizes kept")
    elif 40 < minimal(c, eff) < 2e9:
        N = math.ceil(minimal(c, eff))
        check(ns == sorted(set(ns)) and ns[0] <= N and ns[-1] >= 1.5 * N, lambda: f"automatic sizes {ns[0]}..{ns[-1]} do not cover the requirement {N}")
    for n, v in zip(ns, t["power"]):
        k = n * f
        cand = [oracle_power(c, eff, math.sqrt(unit_var(c) * (1 / x + 1 / y))) for x in {max(2, math.floor(k) - (abs(k - round(k)) < 1e-9)), max(2, math.floor(k)), max(2, math.ceil(k)), max(2, round(k))} for y in [max(2, n - x)]]
        check(min(cand) - 1e-9 <= v <= max(cand) + 1e-9, lambda: f"power at n={n}: {v}, expected one of {cand}")
    check(pa.sample_size(0.0, c["sigma"], treat_frac=f, **kw).required_n >= 2**31 - 1, "a zero effect needs the largest sample")
    for bad in (dict(alpha=0.0), dict(alpha=1.0), dict(alpha=-0.1), dict(power=0.0), dict(power=1.2), dict(alternative="both")):
        raises(lambda: PowerAnalysis(**bad), what=str(bad))
    return ["auto" if sizes is None else "given", c["alt"]]
