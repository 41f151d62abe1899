"""P25 - fitting is a function of data, parameters and seed; nothing else is read or changed."""
import copy
import inspect
import random
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, zoo
import diff_diff as dd
from diff_diff import diagnostics, utils

P = "P25"
SLOW = ("trop", "trop_jack", "sa_boot", "sdid_boot")
FAST = [k for k in zoo.KINDS if k not in SLOW]
FAIL = (ValueError, KeyError, RuntimeError, TypeError, np.linalg.LinAlgError)
base = dict(zoo.case, kind=st.sampled_from(FAST), npre=st.integers(2, 3))


def frozen(df):
    return dict(cols=list(df.columns), idx=df.index.copy(deep=True), dt=df.dtypes.to_dict(), val=df.copy(deep=True), attrs=dict(df.attrs))


def unchanged(df, f, what):
    check(list(df.columns) == f["cols"], f"{what}: columns of the input changed to {list(df.columns)}")
    check(df.index.equals(f["idx"]) and df.dtypes.to_dict() == f["dt"], f"{what}: index or types of the input changed")
    for k in f["cols"]:
        check(df[k].equals(f["val"][k]), f"{what}: input column {k} changed")


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].copy(), *s[2:], random.getstate())


def same_rng(a, b, what):
    check(a[0] == b[0] and (a[1] == b[1]).all() and a[2:] == b[2:], f"{what}: the global random state was used or reseeded")


def run(s, est=None, df=None):
    try:
        return s.fit(df=df, est=est)
    except FAIL as e:
        return type(e)


def same(a, b, what, rtol=0.0):
    if isinstance(a, type) or isinstance(b, type):
        check(a is b, f"{what}: {a} against {b}")
        return
    d = zoo.differ(zoo.flat(a), zoo.flat(b), rtol, rtol)
    check(d is None, f"{what}: {d}")


# ------------------------------------------------------------------ histories
TOGGLE = dict(inference=["analytical", "wild_bootstrap"], cluster=[None], robust=[True, False], n_bootstrap=[0, 21], control_group=["never_treated", "not_yet_treated"], base_period=["universal", "varying"], estimation_method=["dr", "reg", "ipw", "ra"],
              variance_method=["placebo", "bootstrap", "jackknife"], weights=["exact", "approximate"], anticipation=[0, 1], seed=[3, 4], zeta=[0.0, 2.0], lambda_reg=[0.0, 3.0], pscore_trim=[0.01, 0.2], rank_deficient_action=["silent", "error"], method=["twostep", "joint"])
OPS = ["fit0", "fit1", "fit2", "bad", "summary", "alpha", "toggle", "toggle", "params", "clone", "predict", "use", "mutate"]


def pinned(s):
    """constructor arguments with a seed and few draws, should a switch turn a bootstrap on"""
    have = inspect.signature(s.cls.__init__).parameters
    extra = {k: v for k, v in dict(seed=5, n_bootstrap=19).items() if k in have and (k == "seed" or s.cls.__name__ in ("DifferenceInDifferences", "TwoWayFixedEffects"))}
    return {**extra, **s.ctor}


def toggle(est, ctor, r, k=None):
    """one parameter is set; a refused value leaves the parameters alone"""
    have = sorted(k for k in TOGGLE if k in est.get_params() and (k != "n_bootstrap" or type(est).__name__ in ("CallawaySantAnna", "SunAbraham")))
    k = have[int(r.integers(len(have)))] if k is None else have[k % len(have)]
    v = TOGGLE[k][int(r.integers(len(TOGGLE[k])))]
    try:
        est.set_params(**{k: v})
    except ValueError:
        check(k in ("variance_method", "estimation_method", "method"), f"{k}={v!r} refused")
    else:
        ctor[k] = v
    return k


hist = st.fixed_dictionaries(dict(base, ops=st.lists(st.sampled_from(OPS), min_size=2, max_size=7), alpha2=st.sampled_from([0.2, 0.01])))


@facet(P, "history", hist, 500, rule="sequences of fits on different data, failing fits, summaries, set_params, predictions, edits of the caller's frame after fitting: every fit equals that of a fresh estimator with the same parameters, and earlier results never change")
def history(c):
    datas = [zoo.spec(dict(c, seed=c["seed"] + i, pres=["plain", c["pres"], "shuffled"][i])) for i in range(3)]
    ctor = pinned(datas[0])
    est = datas[0].cls(**ctor)
    kept, fits = [], 0
    dice = rng_of(c, 7)
    check(not getattr(est, "is_fitted_", False), "is_fitted_ before any fit")
    if hasattr(est, "summary"):
        raises(est.summary, (RuntimeError, ValueError), "summary before fitting")
    for op in c["ops"]:
        if op.startswith("fit"):
            s = datas[int(op[3])]
            fresh = run(zoo.Spec(s.cls, ctor, s.fitkw, s.df))
            got = run(s, est=est)
            same(got, fresh, f"{op} after {c['ops']}")
            if not isinstance(got, type):
                fits += 1
                kept.append((got, zoo.flat(got, skip=set()), op))
                check(est.is_fitted_ is True and est.results_ is got, "results_ is not the result just returned")
        elif op == "bad":
            s = datas[0]
            broken = s.df.drop(columns=["y"])
            check(isinstance(run(s, est=est, df=broken), type), "a fit without the outcome column succeeded")
        elif op == "summary" and est.is_fitted_ and hasattr(est, "summary"):
            check(est.summary() == est.results_.summary(), "estimator and result summaries differ")
        elif op == "alpha" and "alpha" in ctor:
            check(est.set_params(alpha=c["alpha2"]) is est, "set_params does not return the estimator")
            ctor["alpha"] = c["alpha2"]
        elif op == "toggle":
            toggle(est, ctor, dice)
        elif op == "params":
            p = est.get_params()
            for k, v in ctor.items():
                check(p[k] == v or p[k] is v, f"get_params()[{k!r}] is {p[k]!r}, configured {v!r}")
            raises(lambda: est.set_params(no_such_parameter=1), (ValueError,), "unknown parameter")
        elif op == "clone":
            est2 = type(est)(**{k: v for k, v in est.get_params().items() if k in inspect.signature(type(est).__init__).parameters})
            est = est2
        elif op == "predict" and est.is_fitted_ and hasattr(est, "predict"):
            try:
                est.predict(datas[0].df)
            except (NotImplementedError, *FAIL):
                pass
        elif op == "use" and kept:
            r = kept[-1][0]
            str(r), repr(r)
            for m in ("summary", "to_dict", "to_dataframe"):
                if hasattr(r, m):
                    try:
                        getattr(r, m)()
                    except ValueError:
                        pass
        elif op == "mutate" and kept:
            victim = datas[int(kept[-1][2][3])]
            y = victim.df["y"].to_numpy(float)
            victim.df.loc[:, "y"] = y * 2 + 1 + 0.1 * np.arange(len(y)) % 0.7  # the very frame that was fitted
            s = victim
            fresh = run(zoo.Spec(s.cls, ctor, s.fitkw, s.df.copy()))
            same(run(s, est=est), fresh, f"fit to an edited frame after {c['ops']}")
    for r, snap, op in kept:
        d = zoo.differ(snap, zoo.flat(r, skip=set()))
        check(d is None, f"the result of {op} changed later in {c['ops']}: {d}")
    if fits >= 2 or (fits and len(c["ops"]) > 3):
        return {c["kind"], f"fits{fits}", *c["ops"]}


switches = st.fixed_dictionaries(dict(base, kind=st.sampled_from(zoo.KINDS + ["did_boot", "twfe_boot", "did_boot", "sdid_boot", "cs_boot"]), which=st.lists(st.integers(0, 20), min_size=1, max_size=3), other=st.booleans()))


@facet(P, "switch", switches, 350, rule="fit, set some parameters, fit again (the same or other data): the second result is that of a fresh estimator with these parameters")
def switch(c):
    s0 = zoo.spec(c)
    s1 = zoo.spec(dict(c, seed=c["seed"] + 1)) if c["other"] else s0
    ctor, dice = pinned(s0), rng_of(c, 7)
    est = s0.cls(**ctor)
    first = run(s0, est=est)
    snap = None if isinstance(first, type) else zoo.flat(first, skip=set())
    for k in c["which"]:
        k = toggle(est, ctor, dice, k)
        same(run(s1, est=est), run(zoo.Spec(s1.cls, ctor, s1.fitkw, s1.df)), f"fit after setting {k} to {ctor.get(k)!r}")
    if snap:
        d = zoo.differ(snap, zoo.flat(first, skip=set()))
        check(d is None, f"the first result changed later: {d}")
        return {c["kind"], k}


# ------------------------------------------------------------------ arguments and frames
pure = st.fixed_dictionaries(dict(base, kind=st.sampled_from(zoo.KINDS), g1=st.integers(0, 2**31), g2=st.integers(0, 2**31)))


OTHER = dict(cluster="no_such_column", alpha=0.31, n_bootstrap=60, seed=99, anticipation=2, robust=False, rank_deficient_action="error", pscore_trim=0.2, max_iter=7, tol=0.5,
             zeta=3.0, lambda_reg=9.0, control_group="not_yet_treated", base_period="universal", weights="exact", lambda_time_grid=[9.0], lambda_unit_grid=[8.0], lambda_nn_grid=[7.0])


@facet(P, "estimators", pure, 400, rule="every estimator: the frame, its index and types, and every list argument are left as they were; the global random states are neither read nor moved; the same seed reproduces every number whatever the global state; parameters survive get_params/set_params")
def estimators(c):
    s = zoo.spec(c)
    kw0 = copy.deepcopy(s.fitkw)
    f = frozen(s.df)
    np.random.seed(c["g1"] % 2**32)
    random.seed(c["g1"])
    st0 = rng_state()
    est = s.make()
    p0 = repr(est.get_params())
    a = run(s, est=est)
    same_rng(st0, rng_state(), c["kind"])
    unchanged(s.df, f, c["kind"])
    check(repr(s.fitkw) == repr(kw0), f"fit arguments changed from {kw0} to {s.fitkw}")
    check(repr({k: est.get_params().get(k, v) for k, v in s.ctor.items()}) == repr(s.ctor), f"fitting changed the parameters to {est.get_params()}")
    check(repr(est.get_params()) == p0, f"fitting changed the parameters from {p0} to {est.get_params()}")
    np.random.seed(c["g2"] % 2**32)
    random.seed(c["g2"])
    same(run(s), a, "second fit with the same seed")
    # parameters
    p = est.get_params()
    sig = [k for k in inspect.signature(s.cls.__init__).parameters if k != "self"]
    dep = {"bootstrap_weight_type", "lambda_reg", "zeta"}
    check(set(sig) - dep <= set(p), f"get_params misses {set(sig) - dep - set(p)}")
    e2 = s.cls()
    e2.set_params(**{k: v for k, v in s.ctor.items()})
    same(run(s, est=e2), a, "estimator configured by set_params")
    e3 = s.cls(**{k: v for k, v in OTHER.items() if k in sig and k in p})  # whatever it was configured as before
    e3.set_params(**p)
    check(repr(e3.get_params()) == repr(p), lambda: f"set_params({p}) leaves {e3.get_params()}")
    same(run(s, est=e3), a, "estimator configured anew by set_params")
    if not isinstance(a, type):
        return {c["kind"]}


FUNCS = ["honest", "honest_grid", "breakdown", "pretrends", "pretrends_curve", "sens_plot", "event_plot", "placebo_time", "placebo_group", "perm", "loo", "all_placebo", "trends", "trends_robust", "equiv", "wild", "summ", "rank", "bacon_fn", "sim", "linreg", "decompose", "trip_fn", "trop_fn"]
funcs = st.fixed_dictionaries(dict(zoo.case, fn=st.sampled_from(FUNCS), npre=st.integers(3, 4), g1=st.integers(0, 2**31), g2=st.integers(0, 2**31), M=st.sampled_from([0.5, 1.0])))


def call(c, seed):
    """(thunk, objects that must not change)"""
    fn, al = c["fn"], c["alpha"]
    kind = "ddd" if fn == "trip_fn" else "trop" if fn == "trop_fn" else "bacon" if fn in ("bacon_fn", "decompose") else "mp"
    s = zoo.spec(dict(c, kind=kind, m=0))
    df = s.df
    per = sorted(df["t"].unique().tolist())
    pre, post = per[:c["npre"]], per[c["npre"]:]
    tr = df.loc[df["d"] == 1, "u"].unique().tolist()
    ctl = df.loc[df["d"] == 0, "u"].unique().tolist()
    grid = [2.0, 0.0, 0.5]
    if fn in ("honest", "honest_grid", "breakdown", "pretrends", "pretrends_curve", "sens_plot", "event_plot"):
        df = df.assign(g=np.where(df["d"] == 1, post[0], 0))
        res = dd.CallawaySantAnna(alpha=al, base_period="universal").fit(df, "y", "u", "t", "g", aggregate="event_study")
        l = np.ones(len([e for e in res.event_study_effects if e >= 0])) / max(1, len([e for e in res.event_study_effects if e >= 0]))
        H = dd.HonestDiD(alpha=al, M=c["M"], l_vec=l)
        Q = dd.PreTrendsPower(alpha=al)
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        def plotted(f):
            ax = f()
            plt.close("all")
            return type(ax).__name__
        t = {"honest": lambda: H.fit(res), "honest_grid": lambda: H.sensitivity_analysis(res, M_grid=grid), "breakdown": lambda: H.breakdown_value(res), "pretrends": lambda: Q.fit(res), "pretrends_curve": lambda: Q.power_curve(res, M_grid=grid),
                 "sens_plot": lambda: plotted(lambda: dd.plot_sensitivity(H.sensitivity_analysis(res, M_grid=grid), show=False)), "event_plot": lambda: plotted(lambda: dd.plot_event_study(res, show=False))}[fn]
        return t, dict(res=res, grid=grid, l=l), df
    fake, fu = pre[-1], ctl[:1]
    t = {"placebo_time": lambda: dd.placebo_timing_test(df, "y", "d", "t", fake_treatment_period=fake, post_periods=post, alpha=al),
         "placebo_group": lambda: dd.placebo_group_test(df[df["d"] == 0], "y", "t", "u", fake_treated_units=fu, post_periods=post, alpha=al),
         "perm": lambda: dd.permutation_test(df, "y", "d", "post", "u", n_permutations=15, seed=seed, alpha=al),
         "loo": lambda: dd.leave_one_out_test(df, "y", "d", "post", "u", alpha=al),
         "all_placebo": lambda: dd.run_all_placebo_tests(df, "y", "d", "t", "u", pre_periods=pre, post_periods=post, n_permutations=12, seed=seed, alpha=al),
         "trends": lambda: dd.check_parallel_trends(df, "y", "t", "d", pre_periods=pre),
         "trends_robust": lambda: dd.check_parallel_trends_robust(df, "y", "t", "d", unit="u", pre_periods=pre, n_permutations=30, seed=seed),
         "equiv": lambda: dd.equivalence_test_trends(df, "y", "t", "d", unit="u", pre_periods=pre),
         "summ": lambda: dd.summarize_did_data(df, "y", "d", "t", unit="u"),
         "rank": lambda: dd.rank_control_units(df, "u", "t", "y", treatment_column="d", pre_periods=pre, covariates=["x"], exclude_units=[], require_units=fu),
         "bacon_fn": lambda: dd.bacon_decompose(df, "y", "u", "t", "g"),
         "decompose": lambda: dd.TwoWayFixedEffects().decompose(df, "y", "u", "t", "g"),
         "sim": lambda: dd.simulate_power(dd.DifferenceInDifferences(), n_units=12, n_periods=4, treatment_period=2, n_simulations=4, effect_sizes=grid, seed=seed, progress=False),
         "trip_fn": lambda: dd.triple_difference(df, "y", "gg", "pp", "post", covariates=["x"]),
         "trop_fn": lambda: dd.trop(df, "y", "D", "u", "t", lambda_time_grid=[0.1], lambda_unit_grid=[0.1], lambda_nn_grid=[np.inf], n_bootstrap=4, max_loocv_samples=5, seed=seed)}
    X = np.column_stack([np.ones(len(df)), df["d"].to_numpy(float), df["post"].to_numpy(float), (df["d"] * df["post"]).to_numpy(float)])
    y = df["y"].to_numpy(float).copy()
    cl = df["cl"].to_numpy().copy()

    def wild():
        from diff_diff.linalg import solve_ols
        b, e, v = solve_ols(X, y)[:3]
        return dd.wild_bootstrap_se(X, y, e, cl, coefficient_index=3, n_bootstrap=29, seed=seed)

    def linreg():
        m = dd.LinearRegression(include_intercept=False, cluster_ids=cl).fit(X, y)
        return m.get_inference(3)
    t.update(wild=wild, linreg=linreg)
    return t[fn], dict(pre=pre, post=post, fu=fu, grid=grid, X=X, y=y, cl=cl), df


@facet(P, "functions", funcs, 450, rule="sensitivity, power, placebo, trend, ranking, decomposition, simulation, plotting and regression functions: frames, arrays, lists and the result objects they are given stay as they were, global random states are untouched, equal seeds give equal answers")
def functions(c):
    try:
        thunk, objs, df = call(c, 7)
    except FAIL:
        return None
    f = frozen(df)
    snap = {k: zoo.flat(copy.deepcopy(v), skip=set()) for k, v in objs.items()}
    np.random.seed(c["g1"] % 2**32)
    random.seed(c["g1"])
    st0 = rng_state()

    def go():
        try:
            return thunk()
        except FAIL as e:
            return type(e)
    a = go()
    same_rng(st0, rng_state(), c["fn"])
    unchanged(df, f, c["fn"])
    for k, v in objs.items():
        d = zoo.differ(snap[k], zoo.flat(v, skip=set()))
        check(d is None, f"{c['fn']} changed its argument {k}: {d}")
    np.random.seed(c["g2"] % 2**32)
    random.seed(c["g2"])
    b = go()
    d = None if a is b else "one call failed" if isinstance(a, type) or isinstance(b, type) else zoo.differ(zoo.flat(a), zoo.flat(b))
    check(d is None, f"{c['fn']} repeated with the same seed: {d}")
    if not isinstance(a, type):
        return {c["fn"]}


# ------------------------------------------------------------------ one configured object, many questions
ASK = {"HonestDiD": ["fit", "fit_M", "grid", "breakdown", "set_M", "refused"], "PreTrendsPower": ["fit", "fit_M", "fit_pre", "at", "curve", "honest", "set_target", "refused"], "PowerAnalysis": ["mde", "power", "sample", "curve", "set_power", "refused"]}
quiz = st.sampled_from(sorted(ASK)).flatmap(lambda k: st.fixed_dictionaries(dict(zoo.case, cls=st.just(k), npre=st.integers(3, 4), ops=st.lists(st.tuples(st.sampled_from(ASK[k]), st.sampled_from([0.0, 0.25, 0.5, 1.5, 3.0])), min_size=1, max_size=5), M=st.sampled_from([0.5, 1.0]), method=st.integers(0, 2))))


@facet(P, "queries", quiz, 120, rule="a sensitivity, pre-trend power or design power object asked a sequence of questions with per-call overrides, refused requests and parameter changes: every answer equals that of a fresh object with the same parameters, and only set_params changes the parameters")
def queries(c):
    k = c["cls"]
    if k == "PowerAnalysis":
        conf, res = dict(alpha=c["alpha"], power=[0.8, 0.9, 0.6][c["method"]]), None
    else:
        s = zoo.spec(dict(c, kind="mp", m=0))
        per = sorted(s.df["t"].unique().tolist())
        try:
            res = s.fit()
        except FAIL:
            return None
        pre = list(res.pre_periods)
        conf = dict(alpha=c["alpha"])
        conf.update(dict(M=c["M"], method=["relative_magnitude", "smoothness", "combined"][c["method"]]) if k == "HonestDiD" else dict(power=[0.8, 0.9, 0.6][c["method"]], violation_type=["linear", "constant", "last_period"][c["method"]]))
    cls = getattr(dd, k)
    cur = dict(conf)
    obj = cls(**conf)

    def ask(o, op, v):
        if k == "PowerAnalysis":
            return {"mde": lambda: o.mde(20, 25, 2.0, n_pre=2, n_post=2, rho=0.3), "power": lambda: o.power(v, 20, 25, 2.0), "sample": lambda: o.sample_size(max(v, 0.5), 2.0, treat_frac=0.4), "curve": lambda: o.power_curve(20, 25, 2.0, effect_sizes=[0.1, v + 0.2]),
                    "refused": lambda: o.sample_size(0.0, 2.0, treat_frac=7.0)}[op]()
        return {"fit": lambda: o.fit(res), "fit_M": lambda: o.fit(res, M=v), "grid": lambda: o.sensitivity_analysis(res, M_grid=[v, 0.0]), "breakdown": lambda: o.breakdown_value(res), "fit_pre": lambda: o.fit(res, pre_periods=pre[-2:]), "at": lambda: o.power_at(res, v),
                "curve": lambda: o.power_curve(res, M_grid=[0.0, v]), "honest": lambda: o.sensitivity_to_honest_did(res), "refused": lambda: o.fit("nothing")}[op]()

    def answer(o, op, v):
        try:
            return ask(o, op, v)
        except FAIL as e:
            return type(e)
    last = "mde" if k == "PowerAnalysis" else "fit"
    for op, v in [*c["ops"], (last, 0.0)]:
        if op.startswith("set_"):
            ch = {"set_M": dict(M=v), "set_target": dict(power=0.7 + v / 20), "set_power": dict(power=0.7 + v / 20)}[op]
            if k == "PowerAnalysis":
                continue
            obj.set_params(**ch)
            cur.update(ch)
            continue
        a, b = answer(obj, op, v), answer(cls(**cur), op, v)
        d = None if a is b else "one of them refused" if isinstance(a, type) or isinstance(b, type) else zoo.differ(zoo.flat(a), zoo.flat(b))
        check(d is None, f"{k} with {cur}: {op}({v}) after {c['ops']} differs from a fresh object's answer: {d}")
        if hasattr(obj, "get_params"):
            p, q = obj.get_params(), cls(**cur).get_params()
            check(repr(p) == repr(q), f"{k}: {op}({v}) changed the parameters to {p}, expected {q}")
    return {k, f"ops{len(c['ops'])}"}
