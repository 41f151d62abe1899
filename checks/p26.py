"""P26 - estimates do not depend on arbitrary choices of presentation, labels, units of measurement or nuisance levels."""
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, zoo
import diff_diff as dd

P = "P26"
SLOW = ("trop", "trop_jack", "sa_boot")
FAST = [k for k in zoo.KINDS if k not in SLOW]
FAIL = (ValueError, KeyError, RuntimeError, TypeError, np.linalg.LinAlgError)


def fam(*names):
    return [k for k in FAST if k.split("_")[0] in names]


def case(kinds, **kw):
    return st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from(kinds), noise=st.sampled_from(["gauss", "gauss", "hetero", "heavy", "shift"]), **kw))


def effs(s, res):
    if type(res).__name__.startswith("Bacon"):
        out = {"twfe": (res.twfe_estimate, None, None, None)}
        for q in res.comparisons:
            out[(q.comparison_type, q.treated_group, q.control_group)] = (q.estimate, q.weight, None, None)
        return out
    return {e.label: (e.effect, e.se, e.p, e.ci) for e in zoo.effects(res, s.boot)}


def run(s, df=None):
    try:
        return effs(s, s.fit(df=df))
    except FAIL as e:
        return type(e)


def compare(c, s, a, b, what, lab=lambda l: l, eff=lambda l, e: e, k=1.0, inf="all", tol=2e-6):
    """b must equal a after relabelling by lab, mapping effects by eff and multiplying standard errors by |k|"""
    if isinstance(a, type) or isinstance(b, type):
        check(a is b, f"{what} ({c['kind']}): one fit gives {a if isinstance(a, type) else 'a result'}, the other {b if isinstance(b, type) else 'a result'}")
        return None
    a = {lab(l): (l, *v) for l, v in a.items()}
    check(set(a) == set(b), f"{what} ({c['kind']}): effects reported {sorted(map(str, b))} instead of {sorted(map(str, a))}")
    y = s.df["y"].to_numpy(float)
    sc = np.std(y) * abs(k) + 1e-12
    lv = (np.max(np.abs(y)) + sc) * max(1, abs(k))
    at = tol * sc + 1e-10 * lv
    n = 0
    for l, (l0, e, se, p, ci) in a.items():
        e2, se2, p2, ci2 = b[l]
        w = f"{what} ({c['kind']}, {l})"
        eq(e2, eff(l0, e), f"{w} effect", rtol=tol, atol=at)
        if se is None:
            continue
        if p is None:
            eq(se2, se, f"{w} weight", rtol=tol, atol=1e-9)
            n += 1
            continue
        if inf == "none":
            n += 1
            continue
        if isnan(se) or se * abs(k) < 100 * at:
            check(isnan(se2) or se2 < 200 * at or not isnan(se), f"{w}: se {se2} where {se} was expected")
            continue
        eq(se2, abs(k) * se, f"{w} se", rtol=20 * tol, atol=at)
        n += 1
        if inf == "se":
            continue
        if inf == "all":
            eq(p2, p, f"{w} p", rtol=1e-4, atol=2e-6)
        lo, hi = (eff(l0, x) for x in ci)
        if k < 0:
            lo, hi = hi, lo
        eq(ci2[0], lo, f"{w} interval", rtol=20 * tol, atol=20 * at)
        eq(ci2[1], hi, f"{w} interval", rtol=20 * tol, atol=20 * at)
    return n


def zspec(c):
    """a design whose effects are identified: every Sun-Abraham cohort has its reference period in the panel (otherwise some relative period must be dropped, and which one is not specified)"""
    s = zoo.spec(c)
    if c["kind"].startswith("sa"):
        g = s.df.loc[s.df["g"] > 0, "g"]
        assume(g.min() - 1 - c["antic"] >= s.df["t"].min())
    if c["kind"].startswith("trop"):
        s.ctor["max_loocv_samples"] = 10**6  # a random subsample would follow the unit order
    return s


def labels(c, *more):
    return {c["kind"], *more}


# ------------------------------------------------------------------ presentation
@facet(P, "order", case(FAST, pres2=st.sampled_from(["shuffled", "index", "dupindex", "junk"]), cat=st.booleans()), 450, rule="row order, index, column order, unrelated columns: every reported number stays the same in every estimator, bootstrap included")
def order(c):
    s = zspec(dict(c, pres="plain"))
    r = rng_of(c, 9)
    df = gen.present(s.df, c["pres2"], r)
    df = df[list(r.permutation(df.columns))]
    if compare(c, s, run(s), run(s, df), f"{c['pres2']} rows", inf="none" if c["kind"] == "sa_boot" else "all"):  # pairs-bootstrap draws follow the order of appearance
        return labels(c, c["pres2"])


@facet(P, "units", case(FAST, ul2=st.sampled_from(["perm", "str", "neg", "float", "rev"])), 450, rule="renaming the units (including renamings that change their order): effects unchanged; standard errors, p-values and intervals too unless they are simulated")
def units(c):
    s = zspec(c)
    r = rng_of(c, 10)
    old = sorted(s.df["u"].unique().tolist())
    new = gen.unit_labels(c["ul2"], len(old), r) if c["ul2"] != "rev" else np.arange(len(old))[::-1]
    m = dict(zip(old, r.permutation(new) if c["ul2"] in ("float", "neg") else new))
    df = s.df.assign(u=[m[v] for v in s.df["u"]])
    simulated = s.boot or c["kind"].startswith("sdid")
    if compare(c, s, run(s), run(s, df), "renamed units", inf="none" if simulated else "all"):
        return labels(c, c["ul2"])


@facet(P, "times", case(fam("mp", "sdid", "cs", "sa", "bacon") + ["trop_joint"], k=st.sampled_from([-2000, -1, 1, 7, 100000])), 400, rule="shifting the calendar: effects keep their numbers and move to the shifted labels, event times stay")
def times(c):
    s = zspec(c)
    k = c["k"]
    df = s.df.assign(t=s.df["t"] + k, g=np.where(s.df["g"] > 0, s.df["g"] + k, 0))
    s2 = zspec(c)
    for q in ("post_periods", "reference_period"):
        v = s2.fitkw.get(q)
        if v is not None:
            s2.fitkw[q] = [x + k for x in v] if isinstance(v, list) else v + k

    def lab(l):
        if isinstance(l, tuple):
            if l[0] in ("period", "group"):
                return (l[0], l[1] + k)
            if l[0] == "gt":
                return ("gt", l[1] + k, l[2] + k)
            if c["kind"].startswith("bacon"):
                return (l[0], *(x + k if isinstance(x, (int, float, np.number)) and x > 0 else x for x in l[1:]))
        return l
    if compare(c, s, run(s), run(s2, df), f"calendar shifted by {k}", lab=lab):
        return labels(c, f"k{k}")


# ------------------------------------------------------------------ units of measurement
@facet(P, "scale", case(fam("did", "twfe", "mp", "cs", "sa", "ddd", "bacon"), a=st.sampled_from([-1.0, 2.0, -0.5, 1000.0, 1e-3, 1e-6, 1e-8]), b=st.sampled_from([0.0, 3.0, -100.0])), 500, rule="measuring the outcome as a*y+b: effects times a, standard errors times |a|, p-values unchanged, intervals mapped")
def scale(c):
    s = zspec(c)
    a, b = c["a"], c["b"] * abs(c["a"])
    df = s.df.assign(y=a * s.df["y"] + b)
    if compare(c, s, run(s), run(s, df), f"outcome {a}*y+{b}", eff=lambda l, e: a * e, k=a, tol=5e-6):
        r0, r1 = (getattr(s.fit(d), "r_squared", None) for d in (s.df, df))
        eq(*[np.nan if v is None else v for v in (r1, r0)], f"R-squared of the outcome {a}*y+{b} ({c['kind']})", 1e-5, 1e-6)
        return labels(c, f"a{a}")


@facet(P, "location", case(fam("sdid") + ["trop_joint"], b=st.sampled_from([1.0, -5.0, 40.0])), 200, rule="shifting every outcome by a constant leaves synthetic and matrix-completion estimates and their inference alone")
def location(c):
    s = zspec(c)
    if compare(c, s, run(s), run(s, s.df.assign(y=s.df["y"] + c["b"])), f"outcome + {c['b']}", tol=1e-4):
        return labels(c)


@facet(P, "covariate", case([k for k in FAST if k.endswith("_cov")], a=st.sampled_from([-1.0, 4.0, -0.25, 100.0]), b=st.sampled_from([0.0, 2.0, -30.0])), 350, rule="rescaling a covariate to a*x+b changes nothing")
def covariate(c):
    s = zspec(c)
    if compare(c, s, run(s), run(s, s.df.assign(x=c["a"] * s.df["x"] + c["b"])), f"covariate {c['a']}*x+{c['b']}", tol=1e-4):
        return labels(c, f"a{c['a']}")


# ------------------------------------------------------------------ nuisance levels
@facet(P, "levels", case(["twfe", "twfe_cov", "mp_absorb", "mp", "mp_cluster", "cs", "cs_nyt", "cs_univ", "cs_boot", "cs_cov", "sa", "sa_nyt", "sa_cov", "bacon", "bacon_exact", "did_plain", "did", "did_fe", "did_absorb", "did_cluster", "ddd", "ddd_cluster", "ddd_cov"], size=st.sampled_from([1.0, 20.0])), 500,
       rule="adding the fixed effects a design allows for (a constant per unit, per period, per group, per group-partition, group-time and partition-time cell) changes neither effects nor inference")
def levels(c):
    s = zspec(c)
    k, df, r = c["kind"], s.df, rng_of(c, 11)
    h = lambda col: df[col].map(dict(zip(sorted(df[col].unique().tolist()), c["size"] * r.normal(size=df[col].nunique())))).to_numpy(float)
    a = k.split("_")[0]
    add = np.zeros(len(df))
    if a == "ddd":
        if c["m"] == 1 or k != "ddd_cov":
            for p, q in (("gg", "pp"), ("gg", "post"), ("pp", "post")):
                df = df.assign(_c=df[p] * 2 + df[q])
                add += h("_c")
    elif a == "did":
        add += h("d") + h("post") + (h("reg") if k in ("did_fe", "did_absorb") else 0)
    elif a == "mp":
        add += h("t") + (h("u") if k == "mp_absorb" else h("d"))
    elif a == "twfe":
        add += h("u") + h("post")
    else:
        add += h("u") + h("t")
    if compare(c, s, run(s), run(s, df.assign(y=df["y"] + add)), "nuisance levels added", tol=1e-5):
        return labels(c)


# ------------------------------------------------------------------ treatment
@facet(P, "effect", case([k for k in FAST if k != "sdid_cov"], tau=st.sampled_from([1.0, -3.0, 10.0])), 450, rule="adding tau to every treated observation moves every post-treatment effect by exactly tau, leaves pre-treatment effects and analytic standard errors alone")
def effect(c):
    s = zspec(c)
    k, tau = c["kind"], c["tau"]
    a = k.split("_")[0]
    df = s.df
    D = df["D"] if a in ("cs", "sa", "bacon", "trop", "ddd") else df["d"] * df["post"]
    per = sorted(df["t"].unique().tolist())

    def eff(l, e):
        if isinstance(l, tuple):
            if l[0] == "period":
                return e + tau * (l[1] in per[c["npre"]:])
            if l[0] == "event":
                return e + tau * (l[1] >= 0)
            if l[0] == "gt":
                return e + tau * (l[2] >= l[1])
        return e + tau
    ref = run(s)
    got = run(s, df.assign(y=df["y"] + tau * D))
    if a in ("cs", "sa") and c["antic"] and not isinstance(ref, type):
        # averages over the anticipation window mix treated and untreated periods
        drop = [l for l in ref if l == "overall" or l[0] == "group"]
        if k.endswith("nyt"):
            drop = list(ref)
        ref = {l: v for l, v in ref.items() if l not in drop}
        got = {l: v for l, v in got.items() if l not in drop} if not isinstance(got, type) else got
        if not ref:
            return None
    exact = not (k in ("did_boot", "twfe_boot", "sa_boot") or a == "bacon")
    if compare(c, s, ref, got, f"effect {tau} added", eff=eff, inf="ci" if exact else "none", tol=1e-5):
        return labels(c)


@facet(P, "swap", case(["did", "did_plain", "did_cov", "did_fe", "did_absorb", "did_cluster", "twfe", "twfe_cov", "mp", "mp_cov", "mp_absorb", "mp_cluster", "ddd", "ddd_cluster"], which=st.sampled_from(["d", "post", "both"])), 400, rule="exchanging treated and control, or before and after, negates the effect and keeps its inference; exchanging both keeps the effect")
def swap(c):
    s = zspec(c)
    df, k = s.df, c["kind"]
    a = k.split("_")[0]
    w = c["which"]
    g = "gg" if a == "ddd" else "d"
    if a == "mp":
        w = "d"
    if a == "twfe":
        w = "d"
    if a == "ddd" and w != "d":
        g = "pp" if w == "both" else g
    f = -1.0
    if w == "both" and a != "ddd":
        df, f = df.assign(d=1 - df["d"], post=1 - df["post"]), 1.0
    elif w == "post" and a != "mp":
        df = df.assign(post=1 - df["post"])
    else:
        df = df.assign(**{g: 1 - df[g]})
    if compare(c, s, run(s), run(s, df), f"exchanged {w}", eff=lambda l, e: f * e, k=f, tol=1e-5):
        return labels(c, w)


@facet(P, "copies", case(["did", "did_cov", "did_fe", "did_absorb", "did_plain", "twfe", "twfe_cov", "mp", "mp_cov", "mp_absorb", "cs", "cs_cov", "cs_nyt", "cs_univ", "sa", "sa_nyt", "sa_cov", "ddd", "ddd_cov", "bacon", "bacon_exact"], n=st.integers(2, 3)), 350, rule="a population made of copies of every unit has the same effects and decomposition weights")
def copies(c):
    s = zspec(c)
    if c["kind"] == "ddd_cov":
        assume(s.df.groupby(["gg", "pp", "post"]).size().min() >= 3)  # a smaller cell has no outcome regression
    u = sorted(s.df["u"].unique().tolist())
    m = {v: i for i, v in enumerate(u)}
    big = pd.concat([s.df.assign(u=s.df["u"].map(m) * 10 + j) for j in range(c["n"])], ignore_index=True)
    if compare(c, s, run(s), run(s, big), f"{c['n']} copies", inf="none", tol=1e-5):
        return labels(c, c["n"])


@facet(P, "slow", case(["trop", "trop_jack", "sa_boot", "trop_joint", "sdid_boot"], pres2=st.sampled_from(["shuffled", "index"]), ul2=st.sampled_from(["perm", "str", "rev"]), k=st.sampled_from([-3, 11]), b=st.sampled_from([2.0, -9.0]), tau=st.sampled_from([2.0, -4.0]), cat=st.just(False), rel=st.sampled_from(["order", "units", "times", "location", "effect"])), 32, 300,
       rule="the same relations for the iterative and resampling estimators")
def slow(c):
    if c["rel"] == "location" and c["kind"] == "sa_boot":
        return None
    return globals()[c["rel"]](c)


# ------------------------------------------------------------------ column names
INTERNAL = ["y_demeaned", "x_demeaned", "_treatment_post", "_treatment_post_demeaned", "first_treat", "_never_treated", "_rel_time", "__bacon_treated_internal__", "__bacon_treated_internal___within", "y_within", "_unit", "_time", "index", "level_0", "post", "treated", "const",
            "unit", "time", "outcome", "treatment", "period", "cohort", "intercept", "effect", "_post", "_fake_post", "d:post", "weight", "size", "0", "d:period_2003", "period_2003", "reg_r1", "t_2003", "_outcome_change", "_weight", "group", "partition"]
ROLES = ["u", "t", "post", "d", "D", "g", "x", "reg", "cl", "y", "gg", "pp"]
TIDY = ["outcome", "unit", "time", "treated", "period", "post", "cohort", "effect", "group", "partition", "index", "size", "count", "values", "mean", "T", "a b", "ünït", "y.1", "2003", "x[0]", "y_demeaned", "level_0", "level_1", "const", "intercept"]


def rename_spec(s, m):
    name = lambda v: m.get(v, v) if isinstance(v, str) else [m.get(q, q) if isinstance(q, str) else q for q in v] if isinstance(v, list) else v
    kw = {k: name(v) if k in ("outcome", "treatment", "time", "unit", "first_treat", "covariates", "absorb", "fixed_effects", "group", "partition") else v for k, v in s.fitkw.items()}
    ctor = {k: name(v) if k == "cluster" else v for k, v in s.ctor.items()}
    return zoo.Spec(s.cls, ctor, kw, s.df.rename(columns=m), s.boot)


@facet(P, "columns", case(FAST, how=st.sampled_from(["extra", "extra", "roles", "swap"]), names=st.lists(st.sampled_from(INTERNAL), min_size=1, max_size=8, unique=True), ren=st.permutations(TIDY), val=st.sampled_from(["noise", "str", "nan"])), 700,
       rule="columns of the caller's table that happen to bear names used inside the package, and any names for the columns in use: every reported number stays the same in every estimator, or the request is refused")
def columns(c):
    s = zspec(dict(c, pres="plain"))
    a = run(s)
    r = rng_of(c, 11)
    if c["how"] == "extra":
        df = s.df.copy()
        for n in c["names"]:
            if n not in df.columns:
                df[n] = {"noise": r.normal(size=len(df)), "str": ["q"] * len(df), "nan": np.nan}[c["val"]]
        s2 = zoo.Spec(s.cls, s.ctor, s.fitkw, df, s.boot)
    else:
        assume("formula" not in s.fitkw)
        have = [q for q in ROLES if q in s.df.columns]
        new = c["ren"][: len(have)] if c["how"] == "roles" else [have[k] for k in r.permutation(len(have))]
        s2 = rename_spec(s, dict(zip(have, new)))
    if compare(c, s, a, run(s2), f"{c['how']} columns"):
        return labels(c, c["how"])
