"""P19 - simulation-based power."""
import warnings
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen
from diff_diff import CallawaySantAnna, DifferenceInDifferences, MultiPeriodDiD, TwoWayFixedEffects, generate_did_data, simulate_power

P = "P19"


class Lookup:
    """A user-written estimator: reports what the data carry."""

    def fit(self, data, outcome, treatment, time, scale=1.0):
        m = data["outcome"].mean() * scale
        return type("R", (), dict(att=m, se=abs(m) / 2 + 0.1, p_value=float(data["pv"].iloc[0]), conf_int=(m - 1, m + 1)))()


case = st.fixed_dictionaries(dict(
    est=st.sampled_from(["did", "did", "twfe", "mp", "cs", "cs-staggered", "user"]), n_units=st.integers(8, 24), n_periods=st.integers(3, 6), tp=st.integers(1, 5), frac=st.sampled_from([0.5, 0.3, 0.6]),
    sigma=st.sampled_from([0.5, 1.0, 4.0]), nsim=st.integers(2, 9), alpha=st.sampled_from([0.05, 0.1, 0.5, 0.01]), eff=st.sampled_from([0.0, 1.0, 2.5, -1.0]),
    effs=st.sampled_from([None, None, [1.0], [0.0, 2.5], [2.5, 0.0, 1.0], [4.0, 3.0], [0.95, 2.45, 1.0, 2.5], [-1.02, 0.01, 0.0, -1.0, 0.999, 1.0], [2.4999, 2.5]]), gk=st.sampled_from([{}, {"time_trend": 2.0}, {"unit_fe_sd": 0.0}]), cov=st.booleans(), custom=st.booleans(),
    boom=st.sampled_from([0.0, 0.0, 0.1, 0.4]), seed=seeds))


def estimator(c):
    return {"did": lambda: DifferenceInDifferences(alpha=0.1), "twfe": TwoWayFixedEffects, "mp": MultiPeriodDiD, "cs": CallawaySantAnna, "cs-staggered": CallawaySantAnna, "user": Lookup}[c["est"]]()


@facet(P, "recount", case, 200, rule="a recording data generator; four estimators and a user-written one, estimator/generator options, effect grids, failing fits: every reported number is recomputed by fitting the same estimator to the very data sets generated")
def recount(c):
    calls = []
    tp = min(c["tp"], c["n_periods"] - 1)

    def generator(n_units, n_periods, treatment_effect, treatment_fraction, treatment_period, noise_sd, seed, **kw):
        check((n_units, n_periods, treatment_fraction, treatment_period, noise_sd) == (c["n_units"], c["n_periods"], c["frac"], tp, c["sigma"]), "generator arguments")
        check(kw == c["gk"], "generator options")
        r = np.random.default_rng(seed)
        if c["est"] == "cs-staggered":
            u, t = np.divmod(np.arange(n_units * n_periods), n_periods)
            g = np.array([0, 1, 2])[np.arange(n_units) % 3][u]
            d = pd.DataFrame(dict(unit=u, period=t, first_treat=g, outcome=r.normal(size=len(u)) * noise_sd + treatment_effect * ((g > 0) & (t >= g))))
        else:
            d = generate_did_data(n_units=n_units, n_periods=n_periods, treatment_effect=treatment_effect, treatment_fraction=treatment_fraction, treatment_period=treatment_period, noise_sd=noise_sd, seed=seed, **kw)
        d["z"] = r.normal(size=len(d))
        if r.random() < c["boom"]:
            d = d.drop(columns="outcome")
        d["pv"] = r.random() * 0.2
        calls.append((treatment_effect, d.copy(), int(seed)))
        return d

    ek = {"covariates": ["z"]} if c["cov"] and c["est"] in ("did", "twfe", "mp") else {"scale": 2.0} if c["cov"] and c["est"] == "user" else {"aggregate": "group"} if c["cov"] and c["est"] == "cs" else {}
    kw = dict(n_units=c["n_units"], n_periods=c["n_periods"], treatment_effect=c["eff"], treatment_fraction=c["frac"], treatment_period=tp, sigma=c["sigma"], n_simulations=c["nsim"],
              alpha=c["alpha"], effect_sizes=c["effs"], seed=c["seed"], data_generator_kwargs=c["gk"], estimator_kwargs=ek, progress=False)
    effs = c["effs"] or [c["eff"]]

    def refit(d):
        e = estimator(c)
        if c["est"] in ("did", "user"):
            r = e.fit(d, outcome="outcome", treatment="treated", time="post", **ek)
        elif c["est"] == "twfe":
            r = e.fit(d, outcome="outcome", treatment="treated", time="post", unit="unit", **ek)
        elif c["est"] == "mp":
            r = e.fit(d, outcome="outcome", treatment="treated", time="period", post_periods=list(range(tp, c["n_periods"])), **ek)
            return r.avg_att, r.avg_se, r.avg_p_value, r.avg_conf_int
        else:
            if c["est"] == "cs":
                d = d.assign(first_treat=np.where(d["treated"] == 1, tp, 0))
            r = e.fit(d, outcome="outcome", unit="unit", time="period", first_treat="first_treat", **ek)
            return r.overall_att, r.overall_se, r.overall_p_value, r.overall_conf_int
        return r.att, r.se, r.p_value, r.conf_int

    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            res = simulate_power(estimator(c), data_generator=generator, **kw)
            err = None
        except RuntimeError as e:
            res, err = None, e
        rate_warnings = [str(w.message) for w in ws if "simulations" in str(w.message) and "failed" in str(w.message)]
    groups, fits = [], []
    k = 0
    for e in effs:
        part = calls[k:k + c["nsim"]]
        k += c["nsim"]
        out = []
        for te, d, s in part:
            check(te == e, lambda: f"generated with effect {te}, expected {e}")
            try:
                out.append(refit(d))
            except Exception:
                pass
        fits.append(out)
        if not out:
            check(err is not None, "every simulation failed, but no error")
            return ["all-failed"]
        groups.append(len(part) - len(out))
    check(err is None, lambda: f"unexpected {err!r}")
    check(len(calls) == len(effs) * c["nsim"], lambda: f"{len(calls)} data sets for {len(effs)} x {c['nsim']} simulations")
    check(len({s for _, _, s in calls}) == len(calls), "a simulation seed is reused")
    check((len(rate_warnings) > 0) == any(g / c["nsim"] > 0.1 for g in groups), lambda: f"failures {groups} of {c['nsim']}, warnings {rate_warnings}")
    powers = [np.mean([p < c["alpha"] for _, _, p, _ in f]) for f in fits]
    check(list(res.effect_sizes) == list(effs), "effect sizes")
    eq_arr(res.powers, powers, "power per effect size", 1e-12)
    i = next((i for i, e in enumerate(effs) if np.isclose(e, c["eff"])), len(effs) - 1) if len(effs) > 1 else 0
    f, p, n = fits[i], powers[i], len(fits[i])
    a, s = np.array([x[0] for x in f]), np.array([x[1] for x in f])
    check(res.true_effect == effs[i] and res.alpha == c["alpha"] and res.n_simulations == n and res.estimator_name == type(estimator(c)).__name__, "bookkeeping")
    pse = np.sqrt(p * (1 - p) / n)
    eq_arr([res.power, res.rejection_rate, res.power_se], [p, p, pse], "power", 1e-12)
    eq_arr(res.power_ci, [max(0, p - 1.959963984540054 * pse), min(1, p + 1.959963984540054 * pse)], "power interval", 1e-9)
    eq(res.mean_estimate, a.mean(), "mean estimate", 1e-9)
    sd = a.std(ddof=1) if n > 1 else np.nan
    eq(res.std_estimate, sd, "spread of estimates", 1e-9)
    eq(res.mean_se, s.mean(), "mean SE", 1e-9)
    eq(res.coverage, np.mean([lo <= effs[i] <= hi for _, _, _, (lo, hi) in f]), "coverage", 1e-12)
    eq(res.bias, a.mean() - effs[i], "bias", 1e-9)
    eq(res.rmse, np.sqrt((a.mean() - effs[i]) ** 2 + sd ** 2), "rmse", 1e-9)
    sr = res.simulation_results
    eq_arr([x["estimate"] for x in sr], a, "recorded estimates", 1e-9)
    eq_arr([x["p_value"] for x in sr], [x[2] for x in f], "recorded p-values", 1e-9, 1e-12)
    check([bool(x["rejected"]) for x in sr] == [bool(x[2] < c["alpha"]) for x in f], "recorded rejections")
    t = res.power_curve_df()
    check(list(t["effect_size"]) == list(effs) and np.allclose(t["power"], powers), "curve table")
    return [c["est"], f"effects{len(effs)}"] + (["failures"] if any(groups) else []) + (["mixed"] if 0 < p < 1 else [])


@facet(P, "default_generator", st.fixed_dictionaries(dict(est=st.sampled_from(["did", "twfe", "mp", "cs"]), n_units=st.integers(10, 30), n_periods=st.integers(3, 5), eff=st.sampled_from([0.0, 1.0, 3.0]), frac=st.sampled_from([0.5, 0.3]), tp=st.integers(1, 2),
       sigma=st.sampled_from([1.0, 3.0]), nsim=st.integers(2, 6), seed=st.integers(0, 2**31 - 1))), 60, rule="without a generator the standard two-group data are used (same results as passing that generator); the same seed reproduces every number, another seed does not; "
       "noise-free designs recover the effect with every estimator; the global random state is untouched")
def default_generator(c):
    kw = dict(n_units=c["n_units"], n_periods=c["n_periods"], treatment_effect=c["eff"], treatment_fraction=c["frac"], treatment_period=c["tp"], sigma=c["sigma"], n_simulations=c["nsim"], progress=False)
    st0 = np.random.get_state()[1].copy()
    a = simulate_power(estimator(c), seed=c["seed"], **kw)
    b = simulate_power(estimator(c), seed=c["seed"], data_generator=generate_did_data, **kw)
    check((np.random.get_state()[1] == st0).all(), "global random state changed")
    x, y = ([s["estimate"] for s in r.simulation_results] for r in (a, b))
    check(x == y and a.to_dict() == b.to_dict(), lambda: f"same seed, different results {x} {y}")
    d = simulate_power(estimator(c), seed=c["seed"] + 1, **kw)
    check([s["estimate"] for s in d.simulation_results] != x, "another seed gives the same draws")
    check(len(set(x)) == len(x), "simulations repeat")
    z = simulate_power(estimator(c), seed=c["seed"], **{**kw, "sigma": 1e-9})
    eq(z.mean_estimate, c["eff"], "effect recovered without noise", 1e-6, 1e-6)
    eq(z.bias, 0, "bias without noise", 0, 1e-6)
    return [c["est"]]
