"""P27 - what results print and export is what they hold."""
import contextlib
import io
import math
import re
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen, zoo
import diff_diff as dd
from diff_diff import results as R, staggered_results as SR, sun_abraham as SA, triple_diff as TD, bacon as BA, diagnostics as DG, honest_did as HD, power as PW, pretrends as PT, utils as UT, linalg as LA

P = "P27"
NUM = r"[-+]?(?:nan|inf|\d[\d,]*\.?\d*(?:[eE][-+]?\d+)?)"
val = st.one_of(st.floats(-50, 50), st.floats(-5, 5), st.sampled_from([0.0, 1e-7, -3e-9, 12345.678, -987654.25, float("nan"), float("inf")]), st.integers(-5, 5).map(float))
pos = st.one_of(st.floats(0, 30), st.sampled_from([0.0, 1e-9, 4e4, float("nan")]))
pv = st.one_of(st.floats(0, 1), st.floats(0, 0.12), st.sampled_from([0.0, 0.001, 0.01, 0.05, 0.1, 1.0, 0.0009999, 0.0099999, 0.0499999, 0.0999999, float("nan")]))
alphas = st.one_of(gen.alphas, st.sampled_from([0.07, 0.025, 0.001, 0.2, 0.5, 0.15, 0.005, 0.28, 0.55]), st.integers(1, 99).map(lambda k: k / 100))
cnt = st.integers(0, 10**6)


def stars(p):
    return "" if isnan(p) else "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""


def shows(tok, v, what, digits=3, pct=False):
    """the printed token is v rounded to at least `digits` decimals"""
    t = tok.rstrip("%,]").lstrip("[").replace(",", "")
    try:
        x = float(t)
    except ValueError:
        fail(f"{what}: printed {tok!r} for {v!r}")
    v = float(v) * (100 if pct else 1)
    if math.isnan(v) or math.isinf(v):
        check(math.isnan(x) == math.isnan(v) and (math.isnan(v) or x == v), f"{what}: printed {tok!r} for {v!r}")
        return
    check(abs(x - v) <= 0.5001 * 10.0 ** -digits + 1e-12 * abs(v), f"{what}: printed {tok!r} for {v!r}")


def row(text, label, what="", nth=0):
    """tokens after the nth line that starts with label"""
    hits = [l.strip()[len(label):].split() for l in text.splitlines() if l.strip().startswith(label)]
    check(len(hits) > nth, f"no line {label!r} in the summary {what}")
    return hits[nth]


def estimate_row(text, label, e, se, t, p, what, nth=0):
    hits = [l.strip()[len(label):].split() for l in text.splitlines() if l.strip().startswith(label) and re.match(r"\s", l.strip()[len(label):][:1] or "x")]
    hits = [h for h in hits if 4 <= len(h) <= 5 and re.fullmatch(NUM, h[0])]
    check(len(hits) > nth, f"{what}: no table row {label!r}")
    h = hits[nth]
    for tok, v, n in zip(h, (e, se, t, p), ("estimate", "standard error", "t", "p")):
        shows(tok, v, f"{what} {n}")
    got = h[4] if len(h) == 5 else ""
    check(got == stars(p), f"{what}: stars {got!r} at p {p!r}")


def level(text, alpha, ci, what):
    m = re.search(r"([\d.]+)\s*%\s*\)?\s*(?:Confidence Interval|Robust CI|CI)?:?\s*\[(\S+), (\S+)\]", text)
    check(m is not None, f"{what}: no interval line")
    check(abs(float(m.group(1)) - 100 * (1 - alpha)) < 0.051, f"{what}: interval labelled {m.group(1)}% at alpha {alpha}")
    shows(m.group(2), ci[0], f"{what} lower bound")
    shows(m.group(3), ci[1], f"{what} upper bound")


def exported(d, want, what):
    for k, v in want.items():
        check(k in d, f"{what}: field {k} is missing from the export")
        same_value(d[k], v, f"{what}[{k}]")


def same_value(a, b, what):
    if isinstance(b, (float, int, np.number)) and not isinstance(b, bool):
        check(not isinstance(a, str) and a is not None, f"{what}: {a!r} for {b!r}")
        check(float(a) == float(b) or isnan(a) and isnan(b), f"{what}: {a!r} for {b!r}")
    elif b is None:
        check(a is None or isnan(a), f"{what}: {a!r} for None")
    else:
        check(a == b, f"{what}: {a!r} for {b!r}")


def one_row(res, want, what):
    d = res.to_dict()
    exported(d, want, what + ".to_dict")
    f = res.to_dataframe()
    check(isinstance(f, pd.DataFrame) and len(f) == 1 and list(f.columns) == list(d), f"{what}.to_dataframe is not the one-row table of to_dict")
    exported({k: f[k].iloc[0] for k in f.columns}, want, what + ".to_dataframe")
    return d


def table(f, rows, what):
    """f has exactly these rows, in this order"""
    check(len(f) == len(rows), f"{what}: {len(f)} rows, expected {len(rows)}")
    for i, r in enumerate(rows):
        exported({k: f[k].iloc[i] for k in f.columns}, r, f"{what} row {i}")


def printed(res, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res.print_summary(*a)
    check(buf.getvalue() == res.summary(*a) + "\n", "print_summary does not print summary()")


def basic(res, e, se, p, what):
    t = repr(res)
    for v in (e, se):
        toks = re.findall(NUM, t)
        ok = False
        for k in toks:
            try:
                shows(k, v, "")
                ok = True
                break
            except Violation:
                pass
        check(ok, f"{what}: repr {t!r} does not show {v!r}")
    m = re.search(r"(?:ATT|att)=" + NUM + r"(\*{0,3}|\.)?,", t)
    check(m is not None and (m.group(1) or "") == stars(p), f"{what}: stars in {t!r} at p {p!r}")


def inf5(q, pre=""):
    return {pre + "effect": q["effect"], "se": q["se"], "t_stat": q["t_stat"], "p_value": q["p_value"], "conf_int_lower": q["conf_int"][0], "conf_int_upper": q["conf_int"][1]}


def judge(res, what):
    """everything a result object of an estimator prints or exports"""
    n = type(res).__name__
    text = res.summary()
    printed(res)
    if n == "BaconDecompositionResults":
        return judge_bacon(res, text, what)
    pre = "avg_" if n == "MultiPeriodDiDResults" else "overall_" if n in ("CallawaySantAnnaResults", "SunAbrahamResults") else ""
    e, se, t, p, ci = (getattr(res, pre + k) for k in ("att", "se", "t_stat", "p_value", "conf_int"))
    check(res.is_significant is bool(p < res.alpha), f"{what}: is_significant {res.is_significant!r} at p {p!r} and alpha {res.alpha}")
    check(res.significance_stars == stars(p), f"{what}: stars {res.significance_stars!r} at p {p!r}")
    estimate_row(text, "Avg ATT" if pre == "avg_" else "ATT", e, se, t, p, what)
    level(text, res.alpha, ci, what)
    basic(res, e, se, p, what)
    counts = {"n_obs": "Total observations:" if n in ("CallawaySantAnnaResults", "SunAbrahamResults", "TripleDifferenceResults") else "Observations:"}
    if n == "DiDResults":
        counts.update(n_treated="Treated units:", n_control="Control units:")
        want = dict(att=e, se=se, t_stat=t, p_value=p, conf_int_lower=ci[0], conf_int_upper=ci[1], n_obs=res.n_obs, n_treated=res.n_treated, n_control=res.n_control, r_squared=res.r_squared, inference_method=res.inference_method)
        if res.n_bootstrap is not None:
            want["n_bootstrap"] = res.n_bootstrap
        if res.n_clusters is not None:
            want["n_clusters"] = res.n_clusters
        one_row(res, want, what)
        if res.r_squared is not None:
            shows(row(text, "R-squared:")[0], res.r_squared, what + " R-squared")
        if res.inference_method != "analytical":
            check(row(text, "Inference method:") == [res.inference_method], f"{what}: inference method")
            if res.n_bootstrap is not None:
                shows(row(text, "Bootstrap replications:")[0], res.n_bootstrap, what, 0)
            if res.n_clusters is not None:
                shows(row(text, "Number of clusters:")[0], res.n_clusters, what, 0)
    elif n == "MultiPeriodDiDResults":
        counts.update(n_treated="Treated observations:", n_control="Control observations:")
        d = res.to_dict()
        want = dict(avg_att=e, avg_se=se, avg_t_stat=t, avg_p_value=p, avg_conf_int_lower=ci[0], avg_conf_int_upper=ci[1], n_obs=res.n_obs, n_treated=res.n_treated, n_control=res.n_control, n_pre_periods=len(res.pre_periods), n_post_periods=len(res.post_periods), r_squared=res.r_squared)
        for k, q in res.period_effects.items():
            want.update({f"effect_period_{k}": q.effect, f"se_period_{k}": q.se, f"pval_period_{k}": q.p_value})
        exported(d, want, what + ".to_dict")
        f = res.to_dataframe()
        table(f, [dict(period=k, effect=q.effect, se=q.se, t_stat=q.t_stat, p_value=q.p_value, conf_int_lower=q.conf_int[0], conf_int_upper=q.conf_int[1], is_significant=bool(q.p_value < 0.05)) for k, q in res.period_effects.items()], what)
        for k in res.post_periods:
            q = res.period_effects[k]
            estimate_row(text, str(k), q.effect, q.se, q.t_stat, q.p_value, f"{what} period {k}")
            check(res.get_effect(k) is q, "get_effect")
            check(q.significance_stars == stars(q.p_value) and f"period={k}," in repr(q), f"{what}: period effect {q!r}")
        raises(lambda: res.get_effect("no such period"), (KeyError,), "effect of an unknown period")
        shows(row(text, "Pre-treatment periods:")[0], len(res.pre_periods), what, 0)
        shows(row(text, "Post-treatment periods:")[0], len(res.post_periods), what, 0)
    elif n == "SyntheticDiDResults":
        counts.update(n_treated="Treated units:", n_control="Control units:")
        want = dict(att=e, se=se, t_stat=t, p_value=p, conf_int_lower=ci[0], conf_int_upper=ci[1], n_obs=res.n_obs, n_treated=res.n_treated, n_control=res.n_control, n_pre_periods=len(res.pre_periods), n_post_periods=len(res.post_periods), variance_method=res.variance_method, lambda_reg=res.lambda_reg, pre_treatment_fit=res.pre_treatment_fit)
        if res.n_bootstrap is not None:
            want["n_bootstrap"] = res.n_bootstrap
        one_row(res, want, what)
        f = res.get_unit_weights_df()
        check(dict(zip(f["unit"], f["weight"])) == dict(res.unit_weights) and f["weight"].is_monotonic_decreasing, f"{what}: unit weight table")
        f = res.get_time_weights_df()
        check(list(zip(f["period"], f["weight"])) == list(res.time_weights.items()), f"{what}: time weight table")
        w = sorted(res.unit_weights.values(), reverse=True)
        lines = [l.split() for l in text.splitlines() if re.match(r"\s*Unit .*: " + NUM + "$", l)]
        big = [v for v in w[:5] if v > 0.001]
        check(len(lines) == len(big), f"{what}: {len(lines)} unit weights listed, {len(big)} of the top five exceed 0.001")
        units = {str(k): v for k, v in res.unit_weights.items()}
        for l, v in zip(lines, big):
            shows(l[-1], v, f"{what} unit weight")
            shows(l[-1], units[" ".join(l[1:-1]).rstrip(":")], f"{what} weight of {l[1]}")
        m = re.search(r"\((\d+) units with weight", text)
        check(int(m.group(1)) == sum(v > 0.001 for v in w), f"{what}: count of non-trivial weights")
    elif n == "CallawaySantAnnaResults":
        counts.update(n_treated_units="Treated units:", n_control_units="Control units:")
        table(res.to_dataframe("group_time"), [dict(group=g, time=tt, **inf5(q)) for (g, tt), q in res.group_time_effects.items()], what + " group_time")
        table(res.to_dataframe(), [dict(group=g, time=tt, **inf5(q)) for (g, tt), q in res.group_time_effects.items()], what + " default level")
        for lvl, src, key, nth in (("event_study", res.event_study_effects, "relative_period", "Rel. Period"), ("group", res.group_effects, "group", "Cohort")):
            if src is None:
                raises(lambda: res.to_dataframe(lvl), (ValueError,), f"{lvl} table that was not computed")
                continue
            table(res.to_dataframe(lvl), [{key: k, **inf5(src[k])} for k in sorted(src)], f"{what} {lvl}")
            if src:
                part = re.split(r"\n" + re.escape(nth) + r"\s+Estimate[^\n]*\n-+\n", text)[1].split("-" * 40)[0]
                for k in src:
                    estimate_row(part, str(k), src[k]["effect"], src[k]["se"], src[k]["t_stat"], src[k]["p_value"], f"{what} {lvl} {k}")
                shown = [l.split()[0] for l in part.splitlines() if l.strip()]
                check(shown == [str(k) for k in sorted(src)], f"{what}: {lvl} rows {shown}")
        raises(lambda: res.to_dataframe("no such level"), (ValueError,), "unknown level")
        check(row(text, "Control group:") == [res.control_group] and row(text, "Base period:") == [res.base_period], f"{what}: settings")
        shows(row(text, "Treatment cohorts:")[0], len(res.groups), what, 0)
        shows(row(text, "Time periods:")[0], len(res.time_periods), what, 0)
    elif n == "SunAbrahamResults":
        counts.update(n_treated_units="Treated units:", n_control_units="Control units:")
        src = res.event_study_effects
        for f in (res.to_dataframe(), res.to_dataframe("event_study")):
            table(f, [dict(relative_period=k, **inf5(src[k])) for k in sorted(src)], what)
        if res.cohort_effects is None:
            raises(lambda: res.to_dataframe("cohort"), (ValueError,), "cohort table that was not stored")
        else:
            table(res.to_dataframe("cohort"), [dict(cohort=k[0], relative_period=k[1], effect=q["effect"], se=q["se"], weight=q.get("weight", np.nan)) for k, q in sorted(res.cohort_effects.items())], what + " cohort")
        part = text.split("Rel. Period")[1]
        for k, q in src.items():
            estimate_row(part, str(k), q["effect"], q["se"], q["t_stat"], q["p_value"], f"{what} event {k}")
        raises(lambda: res.to_dataframe("no such level"), (ValueError,), "unknown level")
        check(row(text, "Control group:") == [res.control_group], f"{what}: settings")
    elif n == "TripleDifferenceResults":
        counts.update(n_treated_eligible="Treated group, Eligible:", n_treated_ineligible="Treated group, Ineligible:", n_control_eligible="Control group, Eligible:", n_control_ineligible="Control group, Ineligible:")
        want = dict(att=e, se=se, t_stat=t, p_value=p, conf_int_lower=ci[0], conf_int_upper=ci[1], estimation_method=res.estimation_method, inference_method=res.inference_method, **{k: getattr(res, k) for k in counts})
        for k in ("r_squared", "n_bootstrap", "n_clusters"):
            if getattr(res, k) is not None:
                want[k] = getattr(res, k)
        one_row(res, want, what)
        check(row(text, "Estimation method:") == [res.estimation_method], f"{what}: method")
        for src in (res.group_means, res.pscore_stats):
            for k, v in (src or {}).items():
                shows(row(text, k)[-1], v, f"{what} {k}")
        if res.r_squared is not None:
            shows(row(text, "R-squared:")[0], res.r_squared, what + " R-squared")
    elif n == "TROPResults":
        counts.update(n_treated="Treated units:", n_control="Control units:", n_treated_obs="Treated observations:", n_pre_periods="Pre-treatment periods:", n_post_periods="Post-treatment periods:")
        one_row(res, dict(att=e, se=se, t_stat=t, p_value=p, conf_int_lower=ci[0], conf_int_upper=ci[1], lambda_time=res.lambda_time, lambda_unit=res.lambda_unit, lambda_nn=res.lambda_nn, effective_rank=res.effective_rank, loocv_score=res.loocv_score, variance_method=res.variance_method, **{k: getattr(res, k) for k in counts}), what)
        for lab, k, dg in (("Lambda (time decay):", "lambda_time", 3), ("Lambda (unit distance):", "lambda_unit", 3), ("Lambda (nuclear norm):", "lambda_nn", 3), ("Effective rank:", "effective_rank", 2), ("LOOCV score:", "loocv_score", 3)):
            shows(row(text, lab)[0], getattr(res, k), f"{what} {k}", dg)
        f = res.get_treatment_effects_df()
        check([((u, q), v) for u, q, v in zip(*(f[k] for k in ("unit", "time", "effect")))] == list(res.treatment_effects.items()) if len(f) else not res.treatment_effects, f"{what}: treatment effect table") if not any(isnan(v) for v in res.treatment_effects.values()) else None
        for f, key, src in ((res.get_unit_effects_df(), "unit", res.unit_effects), (res.get_time_effects_df(), "time", res.time_effects)):
            check(list(f[key]) == list(src) and all(a == b or isnan(a) and isnan(b) for a, b in zip(f["effect"], src.values())) if src else len(f) == 0, f"{what}: {key} effect table")
    for k, lab in counts.items():
        shows(row(text, lab)[0], getattr(res, k), f"{what} {k}", 0)
    if n in ("SyntheticDiDResults", "TROPResults"):
        check(row(text, "Variance method:") == [res.variance_method], f"{what}: variance method")
        if res.variance_method == "bootstrap" and res.n_bootstrap is not None:
            shows(row(text, "Bootstrap replications:")[0], res.n_bootstrap, what, 0)
    return n


TYPES = [("treated_vs_never", "Treated vs Never-treated"), ("earlier_vs_later", "Earlier vs Later treated"), ("later_vs_earlier", "Later vs Earlier (forbidden)")]


def judge_bacon(res, text, what):
    table(res.to_dataframe(), [dict(treated_group=q.treated_group, control_group=q.control_group, comparison_type=q.comparison_type, estimate=q.estimate, weight=q.weight, n_treated=q.n_treated, n_control=q.n_control, time_start=q.time_window[0], time_end=q.time_window[1]) for q in res.comparisons], what)
    W, E = res.weight_by_type(), res.effect_by_type()
    for k, lab in TYPES:
        w, e = getattr(res, "total_weight_" + k), getattr(res, "weighted_avg_" + k)
        same_value(W[k], w, f"{what} weight_by_type")
        same_value(E[k], e, f"{what} effect_by_type")
        has = any(l.startswith(lab) for l in text.splitlines())
        check(has == (w > 0), f"{what}: row {lab!r} shown {has} at weight {w}")
        if has:
            h = row(text, lab)
            shows(h[0], w, f"{what} {lab} weight")
            shows(h[1], e or 0, f"{what} {lab} effect")
            shows(h[2], w * (e or 0), f"{what} {lab} contribution")
    tot, ws = sum(q.weight for q in res.comparisons), sum(q.weight * q.estimate for q in res.comparisons)
    h = row(text, "Total ", nth=[i for i, l in enumerate([l for l in text.splitlines() if l.startswith("Total ")]) if len(l.split()) == 3][-1])
    shows(h[0], tot, f"{what} total weight")
    shows(h[1], ws, f"{what} total contribution")
    for lab, v, dg in (("TWFE Estimate:", res.twfe_estimate, 3), ("Weighted Sum of 2x2 Estimates:", ws, 3), ("Decomposition Error:", res.decomposition_error, 3), ("Total observations:", res.n_obs, 0), ("Treatment timing groups:", res.n_timing_groups, 0), ("Never-treated units:", res.n_never_treated, 0), ("Total 2x2 comparisons:", len(res.comparisons), 0)):
        shows(row(text, lab)[0], v, f"{what} {lab}", dg)
    m = re.search(r"WARNING: (\S+)% of weight", text)
    f = res.total_weight_later_vs_earlier
    check((m is not None) == (f > 0.01), f"{what}: forbidden-comparison warning {m} at weight {f}")
    if m:
        shows(m.group(1), 100 * f, f"{what} forbidden share", 1)
    check(f"n_comparisons={len(res.comparisons)}" in repr(res), f"{what}: {res!r}")
    return "BaconDecompositionResults"


SLOW = ("trop", "trop_jack", "sa_boot")


@facet(P, "fitted", st.fixed_dictionaries(dict(zoo.case, kind=st.sampled_from([k for k in zoo.KINDS if k not in SLOW]), alpha=alphas.filter(lambda a: 0.004 < a < 0.7), noise=st.sampled_from(["gauss", "tiny", "big", "int"]))), 500,
       rule="results of every estimator: summary() shows each estimate, SE, t, p, stars, interval, its level, counts and settings (within rounding); to_dict/to_dataframe/tables hold exactly the result's fields; print_summary prints summary; repr agrees")
def fitted(c):
    s = zoo.spec(c)
    try:
        res = s.fit()
    except (ValueError, KeyError, np.linalg.LinAlgError):
        return None
    return {judge(res, c["kind"]), c["kind"], f"alpha{c['alpha']}"}


# ------------------------------------------------------------------ arbitrary contents
five = st.tuples(val, pos, val, pv, val, val)
opt = lambda s: st.one_of(st.none(), s)
MADE = ["did", "mp", "sdid", "cs", "sa", "ddd", "trop", "bacon"]
made = st.fixed_dictionaries(dict(cls=st.sampled_from(MADE), main=five, alpha=alphas, counts=st.lists(cnt, min_size=8, max_size=8), r2=opt(st.floats(0, 1)), nb=opt(st.integers(1, 5000)), ncl=opt(st.integers(1, 500)), method=st.sampled_from(["analytical", "wild_bootstrap"]), rows=st.lists(five, min_size=0, max_size=5), es=st.booleans(),
                                  gr=st.booleans(), lab=st.sampled_from(["int", "str", "neg"]), ws=st.lists(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.001, 0.0009, 0.5])), min_size=0, max_size=8), stats=st.lists(val, min_size=4, max_size=4), seed=seeds))


def build(c):
    e, se, t, p, lo, hi = c["main"]
    n, rows, al = c["counts"], c["rows"], c["alpha"]
    per = [{"int": 2000 + i, "str": f"p{i}", "neg": i - 3}[c["lab"]] for i in range(len(rows))]
    iper = [i - 2 for i in range(len(rows))]
    q = [dict(effect=a, se=b, t_stat=x, p_value=y, conf_int=(l, h), n_groups=1) for a, b, x, y, l, h in rows]
    k = c["cls"]
    if k == "did":
        return R.DiDResults(e, se, t, p, (lo, hi), *n[:3], alpha=al, r_squared=c["r2"], inference_method=c["method"], n_bootstrap=c["nb"], n_clusters=c["ncl"])
    if k == "mp":
        cut = len(rows) // 2
        return R.MultiPeriodDiDResults({x: R.PeriodEffect(x, z["effect"], z["se"], z["t_stat"], z["p_value"], z["conf_int"]) for x, z in zip(per, q)}, e, se, t, p, (lo, hi), *n[:3], pre_periods=per[:cut], post_periods=per[cut:], alpha=al, r_squared=c["r2"])
    if k == "sdid":
        w = {f"s {i}" if c["lab"] == "str" else i: v for i, v in enumerate(c["ws"])}
        if not w:
            return None
        return R.SyntheticDiDResults(e, se, t, p, (lo, hi), *n[:3], unit_weights=w, time_weights={x: 0.1 for x in per} or {1: 1.0}, pre_periods=per[:1], post_periods=per[1:], alpha=al, variance_method="bootstrap" if c["es"] else "placebo", lambda_reg=c["r2"], pre_treatment_fit=c["stats"][0], n_bootstrap=c["nb"])
    if k == "cs":
        return SR.CallawaySantAnnaResults({(2004, x): z for x, z in zip(iper, q)}, e, se, t, p, (lo, hi), [2004], iper, *n[:3], alpha=al, control_group="never_treated" if c["es"] else "not_yet_treated", base_period="varying" if c["gr"] else "universal",
                                          event_study_effects=dict(zip(iper[::-1], q)) if c["es"] and q else None, group_effects={2000 + x: z for x, z in zip(iper, q)} if c["gr"] and q else None)
    if k == "sa":
        return SA.SunAbrahamResults(dict(zip(iper[::-1], q)), e, se, t, p, (lo, hi), {}, [2004], iper, *n[:3], alpha=al, control_group="never_treated", cohort_effects={(2004, x): dict(effect=z["effect"], se=z["se"], weight=0.5) for x, z in zip(iper, q)} if c["gr"] else None)
    if k == "ddd":
        return TD.TripleDifferenceResults(e, se, t, p, (lo, hi), *n[:5], estimation_method="dr", alpha=al, group_means={f"Treated, cell {i}": v for i, v in enumerate(c["stats"])} if c["es"] else None, pscore_stats={f"P(G={i}) mean": v for i, v in enumerate(c["stats"])} if c["gr"] else None, r_squared=c["r2"],
                                          inference_method=c["method"], n_bootstrap=c["nb"], n_clusters=c["ncl"])
    if k == "trop":
        return dd.TROPResults(e, se, t, p, (lo, hi), *n[:4], unit_effects={i: v for i, v in enumerate(c["stats"])}, time_effects={x: z["effect"] for x, z in zip(per, q)}, treatment_effects={(1, x): z["effect"] for x, z in zip(per, q)}, lambda_time=c["stats"][0], lambda_unit=c["stats"][1], lambda_nn=c["stats"][2], factor_matrix=np.zeros((2, 2)),
                              effective_rank=c["stats"][3], loocv_score=e, variance_method="bootstrap" if c["es"] else "jackknife", alpha=al, n_pre_periods=n[4], n_post_periods=n[5], n_bootstrap=c["nb"])
    comp = [BA.Comparison2x2(2000 + i, "never" if i % 3 == 0 else 1999, TYPES[i % 3][0], z["effect"], abs(z["se"]) if not isnan(z["se"]) else 0.2, 3, 4, (1.0, 5.0)) for i, z in enumerate(q)]
    W = [w for w in c["ws"][:3]] + [0.0] * 3
    return BA.BaconDecompositionResults(e, comp, W[0], W[1], W[2], c["stats"][0] if W[0] else None, c["stats"][1] if W[1] else None, c["stats"][2] if W[2] else None, n[0], n[1], [2000], n_obs=n[2], decomposition_error=abs(t))


@facet(P, "contents", made, 2400, rule="result objects filled with arbitrary numbers (huge, tiny, zero, NaN, infinite, p-values at the star thresholds, any alpha, string and negative labels, missing optional parts): same requirements as for fitted results")
def contents(c):
    res = build(c)
    if res is None:
        return None
    if c["cls"] == "bacon" and any(isnan(q.estimate) or math.isinf(q.estimate) for q in res.comparisons):
        return None
    judge(res, c["cls"])
    return {c["cls"], f"rows{len(c['rows'])}"}


# ------------------------------------------------------------------ analysis results
ANA = ["placebo", "loo", "honest", "sens", "power", "simpower", "pretrends", "curve", "wild", "inference", "gt"]
ana = st.fixed_dictionaries(dict(cls=st.sampled_from(ANA), main=five, alpha=alphas, counts=st.lists(cnt, min_size=6, max_size=6), vals=st.lists(val, min_size=8, max_size=8), loo=st.lists(val, min_size=2, max_size=6).filter(lambda v: not all(map(isnan, v))), ob=st.lists(st.booleans(), min_size=5, max_size=5), u01=st.lists(st.floats(0, 1), min_size=4, max_size=4), grid=st.lists(st.floats(0, 10), min_size=1, max_size=4), seed=seeds))


@facet(P, "analyses", ana, 1800, rule="placebo, leave-one-out, sensitivity, power, simulation, pre-trend, wild bootstrap and coefficient results with arbitrary contents: summaries, tables, flags, conclusions and repr state the stored numbers and the level used")
def analyses(c):
    e, se, t, p, lo, hi = c["main"]
    k, al, n, v, ob, u = c["cls"], c["alpha"], c["counts"], c["vals"], c["ob"], c["u01"]
    if k in ("placebo", "loo"):
        sig = bool(p < al)
        r = DG.PlaceboTestResults(test_type="leave_one_out" if k == "loo" else "permutation", placebo_effect=e, se=se, t_stat=t, p_value=p, conf_int=(lo, hi), n_obs=n[0], is_significant=sig, alpha=al, original_effect=v[0] if ob[0] else None, original_se=v[1] if ob[1] else None, n_permutations=n[1] if ob[2] else None,
                                  fake_period=2003 if ob[3] else None, leave_one_out_effects=dict(enumerate(c["loo"])) if k == "loo" else None)
        x = r.summary()
        printed(r)
        for lab, q in (("Placebo effect:", e), ("Standard error:", se), ("T-statistic:", t), ("P-value:", p)):
            shows(row(x, lab)[0], q, lab)
        shows(row(x, "Observations:")[0], n[0], "observations", 0)
        level(x, al, (lo, hi), k)
        if ob[0]:
            shows(row(x, "Original ATT:")[0], v[0], "original ATT")
            if ob[1]:
                shows(row(x, "Original SE:")[0], v[1], "original SE")
        if ob[2]:
            shows(row(x, "Number of permutations:")[0], n[1], "permutations", 0)
        check((re.search(r"(?<!No )(?i:significant placebo effect detected)", x) is not None) == sig and ("No significant" in x) == (not sig), f"conclusion at p {p} and alpha {al}: {x[-300:]}")
        m = re.search(r"\(p (<|>=) ([\d.eE-]+)\)", x)
        check(m and (m.group(1) == "<") == sig and abs(float(m.group(2)) - al) < 1e-6, f"conclusion cites {m and m.group(0)} at alpha {al}")
        want = dict(test_type=r.test_type, placebo_effect=e, se=se, t_stat=t, p_value=p, conf_int_lower=lo, conf_int_upper=hi, n_obs=n[0], is_significant=sig)
        for key, q in (("original_effect", r.original_effect), ("original_se", r.original_se), ("n_permutations", r.n_permutations)):
            if q is not None:
                want[key] = q
        one_row(r, want, k)
        check(r.significance_stars == stars(p), "stars")
        if k == "loo":
            L = np.array([q for q in c["loo"] if not isnan(q)])
            if len(L) >= 2 and np.isfinite(L).all():
                shows(row(x, "Units analyzed:")[0], len(c["loo"]), "units", 0)
                for lab, q in (("Mean effect:", L.mean()), ("Std. dev.:", L.std(ddof=1)), ("Min effect:", L.min()), ("Max effect:", L.max())):
                    shows(row(x, lab)[0], q, "leave-one-out " + lab)
    elif k == "honest":
        M = abs(v[0]) if not isnan(v[0]) else 0.0
        m = ["smoothness", "relative_magnitude", "combined"][n[0] % 3]
        r = HD.HonestDiDResults(lb=v[1], ub=v[2], ci_lb=lo, ci_ub=hi, M=M, method=m, original_estimate=e, original_se=se, alpha=al, ci_method="FLCI")
        sig = lo > 0 or hi < 0
        x = r.summary()
        printed(r)
        check(r.is_significant is bool(sig) and r.significance_stars == ("*" if sig else "") and (row(x, "Effect robust to violations:") == ["Yes" if sig else "No"]), f"significance of [{lo}, {hi}]")
        check(("POSITIVE" in x) == (lo > 0) and ("NEGATIVE" in x) == (not lo > 0 and hi < 0) and ("Cannot rule out" in x) == (not sig), f"conclusion about [{lo}, {hi}]")
        if not math.isinf(M):
            shows(row(x, "Restriction parameter (M):")[0], M, "M")
        shows(row(x, "Point estimate:")[0], e, "estimate")
        shows(row(x, "Standard error:")[0], se, "SE")
        a, b = row(x, "Identified set:")
        shows(a, v[1], "identified set"), shows(b, v[2], "identified set")
        mm = re.search(r"([\d.]+)% Robust CI:\s*\[(\S+), (\S+)\]", x)
        check(abs(float(mm.group(1)) - 100 * (1 - al)) < 0.051, f"robust interval labelled {mm.group(1)}% at alpha {al}")
        shows(mm.group(2), lo, "robust interval"), shows(mm.group(3), hi, "robust interval")
        check(same_nan(r.identified_set_width, v[2] - v[1]) and same_nan(r.ci_width, hi - lo), "widths")
        one_row(r, dict(lb=v[1], ub=v[2], ci_lb=lo, ci_ub=hi, M=M, method=m, original_estimate=e, original_se=se, alpha=al, ci_method="FLCI", is_significant=bool(sig), identified_set_width=v[2] - v[1], ci_width=hi - lo), k)
        check(("]*," in repr(r)) == bool(sig), f"repr {r!r} for [{lo}, {hi}]")
    elif k == "sens":
        g = np.array(c["grid"])
        B = [(v[i % 8], v[(i + 1) % 8]) for i in range(len(g))]
        C = [(v[(i + 2) % 8], v[(i + 5) % 8]) for i in range(len(g))]
        bd = None if ob[0] else 0.0 if ob[1] else u[0] * 3
        r = HD.SensitivityResults(g, B, C, bd, "relative_magnitude", e, se, al)
        x = r.summary()
        printed(r)
        table(r.to_dataframe(), [dict(M=m, lb=a[0], ub=a[1], ci_lb=b[0], ci_ub=b[1], is_significant=bool(b[0] > 0 or b[1] < 0)) for m, a, b in zip(g, B, C)], k)
        check(r.has_breakdown is (bd is not None), "has_breakdown")
        h = row(x, "Breakdown value:")
        mm = re.search(r"breakdown_M=(\S+?)\)", repr(r)).group(1)
        if bd is None:
            check(h[0] == "None" and mm == "None", f"no breakdown shown as {h} and {mm}")
        else:
            shows(h[0], bd, "breakdown value"), shows(mm, bd, "breakdown value in repr")
        shows(row(x, "Original estimate:")[0], e, "estimate"), shows(row(x, "Original SE:")[0], se, "SE")
        part = [l.split() for l in x.split("CI Upper")[1].splitlines() if re.match(r"\s*\d", l)]
        check(len(part) == len(g), "grid rows")
        for l, m, a, b in zip(part, g, B, C):
            for tok, q in zip(l, (m, *a, *b)):
                shows(tok, q, "grid row")
    elif k == "power":
        r = PW.PowerResults(u[0], v[0], n[0], v[1], al, ["two-sided", "greater", "less"][n[1] % 3], n[2], n[3], n[4] % 50, n[5] % 50, v[2], u[1], "panel")
        x = r.summary()
        printed(r)
        for lab, q, dg in (("Significance level (alpha):", al, 3), ("Treated units:", n[2], 0), ("Control units:", n[3], 0), ("Total units:", n[2] + n[3], 0), ("Pre-treatment periods:", n[4] % 50, 0), ("Post-treatment periods:", n[5] % 50, 0), ("Residual SD (sigma):", v[2], 3), ("Intra-cluster correlation:", u[1], 3), ("Effect size:", v[1], 3),
                           ("Minimum detectable effect:", v[0], 3), ("Required sample size:", n[0], 0)):
            shows(row(x, lab)[0], q, lab, dg)
        shows(row(x, "Power:")[0], u[0], "power", 1, pct=True)
        check(row(x, "Alternative hypothesis:") == [r.alternative], "alternative")
        one_row(r, dict(power=u[0], mde=v[0], required_n=n[0], effect_size=v[1], alpha=al, alternative=r.alternative, n_treated=n[2], n_control=n[3], n_pre=n[4] % 50, n_post=n[5] % 50, sigma=v[2], rho=u[1], design="panel"), k)
    elif k == "simpower":
        r = PW.SimulationPowerResults(u[0], v[0], (u[1], u[2]), u[0], v[1], v[2], v[3], u[3], n[0], c["grid"], [u[0]] * len(c["grid"]), v[4], al, "DifferenceInDifferences")
        bias = v[1] - v[4]
        rm = math.sqrt(bias ** 2 + v[2] ** 2) if not (math.isinf(v[2]) or math.isinf(bias)) else np.sqrt(bias ** 2 + v[2] ** 2)
        check(same_nan(r.bias, bias) and same_nan(r.rmse, rm), f"bias {r.bias} or RMSE {r.rmse}")
        x = r.summary()
        printed(r)
        for lab, q, dg in (("Number of simulations:", n[0], 0), ("True treatment effect:", v[4], 3), ("Significance level (alpha):", al, 3), ("Mean estimate:", v[1], 3), ("Bias:", bias, 3), ("Std. deviation of estimates:", v[2], 3), ("RMSE:", rm, 3), ("Mean standard error:", v[3], 3), ("Standard error:", v[0], 3)):
            shows(row(x, lab)[0], q, lab, dg)
        shows(row(x, "Power (rejection rate):")[0], u[0], "power", 1, pct=True)
        shows(row(x, "Coverage (CI contains true):")[0], u[3], "coverage", 1, pct=True)
        one_row(r, dict(power=u[0], power_se=v[0], power_ci_lower=u[1], power_ci_upper=u[2], rejection_rate=u[0], mean_estimate=v[1], std_estimate=v[2], bias=bias, rmse=rm, mean_se=v[3], coverage=u[3], n_simulations=n[0], true_effect=v[4], alpha=al, estimator_name=r.estimator_name), k)
        table(r.power_curve_df(), [dict(effect_size=a, power=u[0]) for a in c["grid"]], k)
    elif k == "pretrends":
        ses = np.abs(np.nan_to_num(np.array(v[:3]), nan=1.0, posinf=2.0))
        r = PT.PreTrendsPowerResults(u[0], v[3], v[4], "linear", al, u[1], 3, v[5], v[6], v[7], np.zeros(3), ses, np.eye(3))
        x = r.summary()
        printed(r)
        ok = u[0] >= u[1]
        check(r.power_adequate is ok and ("meets target" in x) == ok and ("below target" in x) == (not ok), f"power {u[0]} against target {u[1]}")
        check(r.is_informative is bool(v[3] < 2 * ses.max()), "is_informative")
        for lab, q, dg in (("Number of pre-periods:", 3, 0), ("Significance level (alpha):", al, 3), ("Violation magnitude (M):", v[4], 3), ("Minimum detectable violation:", v[3], 3), ("Test statistic (expected):", v[5], 3), ("Critical value:", v[6], 3), ("Non-centrality parameter:", v[7], 3)):
            shows(row(x, lab)[0], q, lab, dg)
        shows(row(x, "Target power:")[0], u[1], "target", 1, pct=True)
        shows(row(x, "Power to detect this violation:")[0], u[0], "power", 1, pct=True)
        one_row(r, dict(power=u[0], mdv=v[3], violation_magnitude=v[4], violation_type="linear", alpha=al, target_power=u[1], n_pre_periods=3, test_statistic=v[5], critical_value=v[6], noncentrality=v[7], is_informative=r.is_informative, power_adequate=ok), k)
    elif k == "curve":
        g = np.array(c["grid"])
        r = PT.PreTrendsPowerCurve(g, g / 10, v[0], al, u[0], "linear")
        table(r.to_dataframe(), [dict(M=m, power=m / 10) for m in g], k)
        check(f"n_points={len(g)}" in repr(r), repr(r))
    elif k == "wild":
        r = UT.WildBootstrapResults(se, p, t, lo, hi, n[0], n[1], "webb", al)
        x = r.summary()
        printed(r)
        for lab, q, dg in (("Bootstrap SE:", se, 3), ("Bootstrap p-value:", p, 3), ("Original t-stat:", t, 3), ("Number of clusters:", n[0], 0), ("Bootstrap reps:", n[1], 0)):
            shows(row(x, lab)[0], q, lab, dg)
        m = re.search(r"([\d.]+)%\):\s*\[(\S+), (\S+)\]", x)
        check(m and abs(float(m.group(1)) - 100 * (1 - al)) < 0.051, f"interval labelled {m and m.group(1)}% at alpha {al}")
        shows(m.group(2), lo, "interval"), shows(m.group(3), hi, "interval")
    elif k == "inference":
        r = LA.InferenceResult(e, se, t, p, (lo, hi), 12, al)
        d = r.to_dict()
        exported(d, dict(coefficient=e, se=se, t_stat=t, p_value=p, df=12, alpha=al), k)
        check(d["conf_int"] is r.conf_int or d["conf_int"] == r.conf_int, "conf_int")
        check(bool(r.is_significant()) == bool(p < al) and bool(r.is_significant(u[0])) == bool(p < u[0]) and r.significance_stars() == stars(p), f"flags at p {p} and alpha {al}")
        check(not r.is_significant(0.0) or p < 0, "explicit level 0 ignored")
    else:
        r = SR.GroupTimeEffect(2004, 2005, e, se, t, p, (lo, hi), n[0], n[1])
        check(r.is_significant is bool(p < 0.05) and r.significance_stars == stars(p), f"flags at p {p}")
    return {k}


def same_nan(a, b):
    return isnan(a) and isnan(b) or a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


@facet(P, "relabelled", st.fixed_dictionaries(dict(a2=st.sampled_from([0.1, 0.01]), seed=seeds)), 0, 0, rule="(known finding only) summary(alpha) shows the interval of that level")
def relabelled(c):
    s = zoo.spec(dict(kind="did", nt=3, nc=4, npre=2, npost=2, noise="gauss", alpha=0.05, ulab="int", pres="plain", agg=None, antic=0, rob=True, m=0, bseed=0, B=20, seed=c["seed"]))
    want = s.fit(alpha=c["a2"])
    level(s.fit().summary(alpha=c["a2"]), c["a2"], want.conf_int, "summary(alpha)")
    return True
