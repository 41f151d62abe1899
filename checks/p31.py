"""P31 - dependent controls: dropped with a warning, silently, or refused, in every estimator."""
import warnings
import numpy as np
from harness.core import *
from harness import zoo

P = "P31"
PANEL = ("did", "twfe", "mp", "sa")
kinds = ["did_cov", "did_fe", "did_absorb", "twfe_cov", "mp_cov", "mp_absorb", "cs_cov", "sa_cov", "ddd_cov"]
deps = ["copy", "affine", "scaled", "const", "sum", "unit", "time", "none"]
case = st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from(kinds), dep=st.sampled_from(deps), front=st.booleans(), nt=st.integers(3, 5), nc=st.integers(5, 8), m=st.integers(0, 1), antic=st.just(0)))


def fit(s, action):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            return s.fit(rank_deficient_action=action), [str(w.message) for w in ws if "collinear" in str(w.message) or "ank-deficient" in str(w.message)], None
        except ValueError as e:
            return None, [], e


@facet(P, "actions", case, 1500, rule="six estimators with a control that depends on the others (copy, affine map, constant, sum, absorbed by unit or period effects) or not: effects and inference as without it under 'silent' and 'warn', "
       "a warning exactly under 'warn' and exactly when something is dropped, ValueError under 'error' exactly then")
def actions(c):
    k, dep = c["kind"], c["dep"]
    s = zoo.spec(dict(c, nt=5, nc=10, npost=3) if k == "ddd_cov" else c)
    df = s.df
    if k == "ddd_cov":  # cells smaller than the number of controls are not modelled at all
        assume(df.groupby(["gg", "pp", "post"]).size().min() > 5)
    r = rng_of(c, 3)
    df["z"] = r.normal(size=len(df))
    own = list(s.fitkw.get("covariates") or ["x"])
    good = own + (["z"] if dep == "sum" or c["front"] else [])
    absorbing = {"twfe_cov": "u", "mp_absorb": "u", "sa_cov": "u", "did_absorb": "reg", "did_fe": "reg"}.get(k)
    if dep == "unit" and not absorbing or dep == "time" and k not in ("twfe_cov", "sa_cov", "mp_cov", "mp_absorb"):
        dep = "copy"
    if dep == "const" and k in ("cs_cov", "ddd_cov"):
        dep = "affine"
    codes = {v: i for i, v in enumerate(sorted(df[absorbing].unique(), key=str))} if absorbing else {}
    x = df["x"]
    tcol = "post" if k == "twfe_cov" else "t"
    df["dup"] = {"copy": lambda: x, "affine": lambda: 2 * x + 1, "scaled": lambda: -1e3 * x, "const": lambda: 0 * x + 2.5, "sum": lambda: x + df["z"], "unit": lambda: df[absorbing].map(codes).astype(float) ** 2,
                 "time": lambda: 3.0 * df[tcol] - 1, "none": lambda: r.normal(size=len(df))}[dep]()
    s.fitkw["covariates"] = good
    base, w0, e0 = fit(s, "silent")
    assume(base is not None)
    ref_warned = fit(s, "warn")[1]  # e.g. a treatment indicator that unit effects absorb
    ref_refused = fit(s, "error")[2]
    s.fitkw["covariates"] = good + ["dup"]
    eff = zoo.effects(base)
    assume(any(np.isfinite(e.effect) and np.isfinite(e.se) and e.se > 1e-8 for e in eff))
    silent, ws, es = fit(s, "silent")
    warned, ww, ew = fit(s, "warn")
    refused, _, er = fit(s, "error")
    if dep == "none":
        check((es is None, ew is None) == (True, True) and (er is None) == (ref_refused is None), lambda: f"{k}: an independent control is refused: {er or es}")
        check(bool(ww) == bool(ref_warned), lambda: f"{k}: independent control, warnings {ww}")
    else:
        check(es is None and ew is None, lambda: f"{k}/{dep}: {es or ew}")
        check(er is not None, f"{k}/{dep}: not refused under 'error'")
        check(ww, f"{k}/{dep}: no warning under 'warn'")
    check(not ws and not w0, lambda: f"{k}/{dep}: warnings under 'silent': {ws or w0}")
    d = zoo.differ(zoo.flat(silent), zoo.flat(warned), 1e-12)
    d = None if d and "rank_deficient_action" in d else d
    check(d is None, f"{k}/{dep}: 'warn' and 'silent' disagree: {d}")
    if dep == "none":
        return {k, "independent"} if not ref_warned else None
    tol = 1e-3 if k in ("cs_cov", "ddd_cov") and s.ctor["estimation_method"] != "reg" else 1e-6
    got = zoo.effects(silent)
    check([g.label for g in got] == [e.label for e in eff], "the set of effects changes")
    sc = max([e.se for e in eff if np.isfinite(e.se)] + [0])
    for g, e in zip(got, eff):
        if np.isfinite(e.effect):
            eq(g.effect, e.effect, f"{k}/{dep}: {e.label} beside a dependent control", tol, tol * sc + 1e-9 * np.abs(df["y"]).max())
        else:
            check(isnan(g.effect), f"{k}/{dep}: {e.label} appears")
        if np.isfinite(e.se) and e.se > 1e-6 * sc:
            eq(g.se, e.se, f"{k}/{dep}: SE of {e.label}", tol, tol * sc)
            if k != "ddd_cov":  # its degrees of freedom count every listed covariate ("approximate df")
                eq_arr(list(g.ci), list(e.ci), f"{k}/{dep}: interval of {e.label}", tol, 4 * tol * sc)
    return {k, dep}
