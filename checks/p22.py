"""P22 - data preparation helpers."""
import math
import numpy as np
import pandas as pd
from harness.core import *
from harness import gen
from diff_diff.prep import (make_treatment_indicator, make_post_indicator, wide_to_long, balance_panel, validate_did_data, summarize_did_data, create_event_time, aggregate_to_cohorts, rank_control_units)

P = "P22"
LISTS = {"list": list, "tuple": tuple, "set": set, "array": lambda v: np.array(v, dtype=object if any(isinstance(x, str) for x in v) else None), "series": lambda v: pd.Series(v, index=range(5, 5 + len(v))), "index": pd.Index, "scalar": lambda v: v[0]}


def same_frame(a, b, what):
    check(list(a.columns) == list(b.columns) and a.index.equals(b.index) and all(a[c].dtype == b[c].dtype and a[c].equals(b[c]) for c in a.columns), f"{what}: the input frame was modified")


# ------------------------------------------------------------------ indicators
ind = st.fixed_dictionaries(dict(n=st.integers(1, 14), kind=st.sampled_from(["str", "int", "big", "float", "date", "stamp", "tz"]), how=st.sampled_from(["values", "values", "cut", "cut_below", "both", "neither", "nocol"]), lst=st.sampled_from(sorted(LISTS)), nsel=st.integers(0, 4),
                                 cut=st.integers(-3, 8), miss=st.booleans(), name=st.sampled_from(["default", "d_new", "same"]), post=st.booleans(), pres=gen.presentation, seed=seeds))


@facet(P, "indicators", ind, 900, rule="treatment/post indicators from values (scalar or any list-like), a threshold in either direction or a start period (string start for dates): recomputed row by row, other columns and the input untouched; contradictory or missing specifications raise")
def indicators(c):
    r = rng_of(c)
    v = r.integers(-2, 6, size=c["n"])
    conv = {"str": lambda x: "abcdefgh"[x + 2], "int": int, "float": lambda x: x + 0.25, "date": lambda x: pd.Timestamp("2020-01-01") + pd.DateOffset(months=x), "big": lambda x: 20200101 + int(x),
            "stamp": lambda x: pd.Timestamp("2020-01-01 18:30") + pd.Timedelta(hours=6 * x), "tz": lambda x: pd.Timestamp("2020-01-01 18:30", tz="UTC") + pd.Timedelta(hours=6 * x)}[c["kind"]]
    vals = [conv(int(x)) for x in v]
    if c["miss"] and c["kind"] not in ("int", "big"):
        vals = [None if r.random() < 0.2 else x for x in vals]
    df = gen.present(pd.DataFrame(dict(k=vals, w=np.arange(c["n"]) * 1.5)), c["pres"], r)
    if c["kind"] in ("date", "stamp", "tz"):
        df["k"] = pd.to_datetime(df["k"], utc=c["kind"] == "tz")
    before = df.copy(deep=True)
    sel = [conv(int(x)) for x in r.integers(-3 if c["kind"] != "str" else -2, 6, size=max(c["nsel"], 1 if c["lst"] == "scalar" else 0))]
    cut = conv(max(min(c["cut"], 5), -2))
    post, how = c["post"], c["how"]
    new = {"default": "post" if post else "treated", "d_new": "d_new", "same": "w"}[c["name"]]
    kw = {} if c["name"] == "default" else dict(new_column=new)
    if c["lst"] == "scalar":
        sel = sel[:1]
    values = LISTS[c["lst"]](sel)
    if c["lst"] == "set" and not sel:
        values = []
    start = str(cut.date()) if c["kind"] == "date" else str(cut) if c["kind"] == "stamp" and c["seed"] % 2 else cut
    V, C = ("post_periods", "treatment_start") if post else ("treated_values", "threshold")
    f = make_post_indicator if post else make_treatment_indicator
    if how == "both":
        return raises(lambda: f(df, "k", **{V: sel or [1], C: cut}), what="both specifications") and {"raise"}
    if how == "neither":
        return raises(lambda: f(df, "k"), what="no specification") and {"raise"}
    if how == "nocol":
        return raises(lambda: f(df, "absent", **{V: values}), what="missing column") and {"raise"}
    if how == "values":
        out = f(df, "k", **{V: values}, **kw)
        want = [int(x in sel) if not pd.isna(x) else 0 for x in df["k"]]
    else:
        if c["kind"] == "str" and not post:
            assume(not c["miss"])
        if c["kind"] == "str" and c["miss"]:
            return None
        if post:
            out = f(df, "k", **{C: start}, **kw)
            want = [int(x >= cut) if not pd.isna(x) else 0 for x in df["k"]]
        else:
            out = f(df, "k", **{C: cut}, above_threshold=(how == "cut"), **kw)
            want = [(int(x >= cut) if how == "cut" else int(x <= cut)) if not pd.isna(x) else 0 for x in df["k"]]
    same_frame(df, before, "indicator")
    check(out[new].tolist() == want, f"{how} {values if how == 'values' else cut!r}: {out[new].tolist()} expected {want} for {df['k'].tolist()}")
    check(out.index.equals(df.index) and all(out[k].equals(df[k]) for k in df.columns if k != new), "other columns or the index changed")
    check(list(out.columns) == list(df.columns) + ([new] if new not in df.columns else []), f"columns {list(out.columns)}")
    if 0 < sum(want) < len(want):
        return {how, c["kind"], c["lst"] if how == "values" else "cut", "post" if post else "treat"}


# ------------------------------------------------------------------ reshaping
wide = st.fixed_dictionaries(dict(n=st.integers(1, 7), k=st.one_of(st.integers(1, 5), st.integers(1, 13)), tv=st.sampled_from(["none", "years", "str", "unsorted", "bad"]), cols=st.sampled_from(["str", "num", "int"]), extra=st.integers(0, 2), miss=st.booleans(), names=st.booleans(), ulab=gen.ulab, pres=gen.presentation,
                                  err=st.sampled_from([None, None, None, "empty", "id", "val"]), seed=seeds))


@facet(P, "wide_to_long", wide, 600, rule="wide panels with any labels, column types, extra columns and time values: every (unit, column) value appears exactly once under its time value, sorted by unit and time, unit attributes carried; wrong specifications raise")
def wide_long(c):
    r = rng_of(c)
    u = gen.unit_labels(c["ulab"], c["n"], r)
    vc = [f"s_{(7 * j) % 5}_{j}" if c["cols"] == "str" else f"y{j + 1}" if c["cols"] == "num" else 2000 - j for j in range(c["k"])]
    df = pd.DataFrame({"id": u})
    for j, col in enumerate(vc):
        df[col] = r.normal(size=c["n"])
        if c["miss"]:
            df.loc[r.random(c["n"]) < 0.3, col] = np.nan
    for e in range(c["extra"]):
        df[f"x{e}"] = r.integers(0, 9, size=c["n"])
    df = df[list(r.permutation(np.array(df.columns, dtype=object)))]
    df = gen.present(df, c["pres"], r)
    before = df.copy(deep=True)
    tv = {"none": None, "years": [2010 + 2 * j for j in range(c["k"])], "str": [f"q{j}" for j in range(c["k"])], "unsorted": [(7 * j + 3) % 13 for j in range(c["k"])], "bad": list(range(c["k"] + 1))}[c["tv"]]
    kw = dict(time_name="yr", value_name="val") if c["names"] else {}
    tn, vn = kw.get("time_name", "period"), kw.get("value_name", "value")
    if c["err"] == "empty":
        return raises(lambda: wide_to_long(df, [], "id", **kw), what="no value columns") and {"raise"}
    if c["err"] == "id":
        return raises(lambda: wide_to_long(df, vc, "absent", **kw), what="missing id") and {"raise"}
    if c["err"] == "val":
        return raises(lambda: wide_to_long(df, vc + ["absent"], "id", **kw), what="missing value column") and {"raise"}
    if c["tv"] == "bad":
        return raises(lambda: wide_to_long(df, vc, "id", time_values=tv, **kw), what="time_values of another length") and {"raise"}
    out = wide_to_long(df, vc, "id", time_values=tv, **kw)
    same_frame(df, before, "wide_to_long")
    t = tv if tv is not None else list(range(c["k"]))
    other = [x for x in df.columns if x not in vc and x != "id"]
    rows = [(df["id"].iloc[i], t[j], df[vc[j]].iloc[i]) + tuple(df[o].iloc[i] for o in other) for i in range(len(df)) for j in range(c["k"])]
    rows.sort(key=lambda z: z[:2])
    check(list(out.columns) == ["id", tn, vn] + other, f"columns {list(out.columns)}")
    check(len(out) == len(rows) and out.index.tolist() == list(range(len(rows))), "row count or index")
    for a, b in zip(out.itertuples(index=False, name=None), rows):
        check(all(x == y or (pd.isna(x) and pd.isna(y)) for x, y in zip(a, b)), f"row {a} expected {b}")
    if c["k"] > 1 and c["n"] > 1:
        return {c["tv"], c["cols"], c["ulab"]}


bal = st.fixed_dictionaries(dict(n=st.integers(1, 6), k=st.integers(1, 5), hole=st.sampled_from([0.0, 0.2, 0.5]), miss=st.sampled_from([0.0, 0.3]), method=st.sampled_from(["inner", "outer", "fill", "fill", "fill0", "bad"]), cols=st.sampled_from(["num", "num", "mixed"]), tlab=st.sampled_from(["int", "str", "date"]), ulab=gen.ulab, dup=st.booleans(), dt=st.sampled_from(["float64", "float64", "float32", "float16", "Float64"]), di=st.sampled_from(["int64", "int64", "int8", "uint16", "Int64", "float32"]),
                                 pres=gen.presentation, seed=seeds))


@facet(P, "balance_panel", bal, 700, rule="any holes, missing values and (inner) repeated rows, label and column types: inner keeps exactly the rows of units seen in every period, outer the full grid with the original values, fill adds the fill value in numeric columns or carries values forward then backward within the unit only")
def balance(c):
    r = rng_of(c)
    u = gen.unit_labels(c["ulab"], c["n"], r)
    T = {"int": lambda k: 3 * k - 2, "str": lambda k: f"t{k}", "date": lambda k: pd.Timestamp("2019-03-01") + pd.Timedelta(days=40 * k)}[c["tlab"]]
    rows = [(a, T(k), float(r.normal()), int(r.integers(0, 5)), f"n{r.integers(0, 3)}") for a in u for k in range(c["k"]) if r.random() >= c["hole"]]
    assume(rows)
    df = pd.DataFrame(rows, columns=["u", "t", "y", "d", "note"])
    df.loc[r.random(len(df)) < c["miss"], "y"] = np.nan
    df["y"], df["d"] = df["y"].astype(c["dt"]), df["d"].astype(c["di"])
    if c["cols"] == "num":
        df = df.drop(columns="note")
    if c["method"] == "inner" and c["dup"]:
        df = pd.concat([df, df[r.random(len(df)) < .4]], ignore_index=True)
    df = gen.present(df, c["pres"], r)
    before = df.copy(deep=True)
    if c["method"] == "bad":
        raises(lambda: balance_panel(df, "u", "t", method="zzz"), what="unknown method")
        raises(lambda: balance_panel(df, "zzz", "t"), what="missing unit column")
        raises(lambda: balance_panel(df, "u", "zzz"), what="missing time column")
        return {"raise"}
    fv = None if c["method"] != "fill0" else -7 if c["di"] == "Int64" else -7.5
    out = balance_panel(df, "u", "t", method="fill" if fv is not None else c["method"], fill_value=fv)
    same_frame(df, before, "balance_panel")
    per = sorted(df["t"].unique())
    units = list(df["u"].unique())
    src = {(a, b): row for a, b, row in zip(df["u"], df["t"], df.to_dict("records"))}
    check(list(out.columns) == list(df.columns) or set(out.columns) == set(df.columns), f"columns {list(out.columns)}")
    got = {(a, b): row for a, b, row in zip(out["u"], out["t"], out.to_dict("records"))}
    if c["method"] == "inner":
        cnt = df.groupby(["u", "t"]).size().to_dict()
        check(out.groupby(["u", "t"]).size().to_dict() == {k: v for k, v in cnt.items() if k in got}, "inner: rows of a unit-period")
    else:
        check(len(got) == len(out), "a unit-period appears twice")
    if c["method"] == "inner":
        keep = {a for a in units if all((a, t) in src for t in per)}
        want = {k: v for k, v in src.items() if k[0] in keep}
        check(len(out) == 0 or set(map(tuple, out[["u", "t"]].itertuples(index=False))) == set(want), "inner rows")
    else:
        want = {(a, t): dict(src.get((a, t), {})) for a in units for t in per}
    for k, w in want.items():
        w["u"], w["t"] = k
    cols = [x for x in df.columns if x not in ("u", "t")]
    if c["method"] in ("fill", "fill0"):
        num = [x for x in cols if pd.api.types.is_numeric_dtype(df[x])]
        for a in units:
            for x in cols:
                if fv is not None:
                    for t in per:
                        if x in num and pd.isna(want[(a, t)].get(x, np.nan)):
                            want[(a, t)][x] = fv
                    continue
                s = [want[(a, t)].get(x, np.nan) for t in per]
                ok = [z for z in range(len(per)) if not pd.isna(s[z])]
                for z, t in enumerate(per):
                    prev = [q for q in ok if q <= z]
                    want[(a, t)][x] = s[prev[-1]] if prev else (s[ok[0]] if ok else np.nan)
    check(set(got) == set(want), f"{c['method']}: unit-periods {sorted(map(str, got))} expected {sorted(map(str, want))}")
    for k, w in want.items():
        for x in cols:
            a, b = got[k][x], w.get(x, np.nan)
            check((pd.isna(a) and pd.isna(b)) or a == b, f"{c['method']} {k} {x}: {a!r} expected {b!r}")
    if len(src) < len(units) * len(per) and len(units) > 1:
        return {c["method"], c["tlab"], c["cols"], c["dt"], c["di"]}


# ------------------------------------------------------------------ validation and summaries
val = st.fixed_dictionaries(dict(n=st.integers(2, 16), times=st.sampled_from(["01", "12", "multi", "str", "one"]), flaw=st.sampled_from([None, None, None, "missing_y", "missing_t", "missing_d", "missing_u", "text", "three", "strtreat", "mixtreat", "nocol", "alltreat", "allctl", "cell", "vary"]), unit=st.booleans(), dtype=st.sampled_from(["int", "bool", "float"]), pres=gen.presentation, seed=seeds))


@facet(P, "validate", val, 1200, rule="any frame with one of a dozen flaws or none: valid exactly when columns exist, the outcome is numeric, treatment binary, nothing missing, both groups in every cell (or in two periods); counts recomputed; raise_on_error raises exactly when invalid; warnings on varying treatment and imbalance")
def validate(c):
    r = rng_of(c)
    nu = 4
    tv = {"01": [0, 1], "12": [1, 2], "multi": [2001, 2002, 2003], "str": ["a", "b"], "one": [5]}[c["times"]]
    n = c["n"]
    df = pd.DataFrame(dict(u=r.integers(0, nu, n), t=[tv[i] for i in r.integers(0, len(tv), n)], y=r.normal(size=n)))
    df["d"] = (df["u"] % 2).astype(c["dtype"])
    fl = c["flaw"]
    if fl == "vary":
        df["d"] = r.integers(0, 2, n).astype(c["dtype"])
    if fl in ("alltreat", "allctl"):
        df["d"] = np.full(n, 1 if fl == "alltreat" else 0).astype(c["dtype"])
    if fl == "cell":
        df = df[~((df["d"] == 1) & (df["t"] == tv[-1]))]
    i = int(r.integers(0, max(len(df), 1)))
    assume(len(df) >= 1)
    if fl == "missing_y":
        df.iloc[i, df.columns.get_loc("y")] = np.nan
    if fl == "missing_d":
        df["d"] = df["d"].astype(float)
        df.iloc[i, df.columns.get_loc("d")] = np.nan
    if fl == "missing_t":
        df["t"] = df["t"].astype(object)
        df.iloc[i, df.columns.get_loc("t")] = None
    if fl == "missing_u":
        df["u"] = df["u"].astype(float)
        df.iloc[i, df.columns.get_loc("u")] = np.nan
    if fl == "text":
        df["y"] = "v" + df["y"].round(1).astype(str)
    if fl == "three":
        df["d"] = df["d"].astype(int)
        df.iloc[i, df.columns.get_loc("d")] = 2
    if fl == "strtreat":
        df["d"] = np.where(df["d"] == 1, "yes", "no")
    if fl == "mixtreat":
        df["d"] = pd.Series([1 if q == 1 else "no" for q in df["d"]], index=df.index, dtype=object)
        assume(df["d"].map(type).nunique() > 1)
    df = gen.present(df, c["pres"], r)
    args = ("y", "d", "t", "zzz" if fl == "nocol" else ("u" if c["unit"] else None))
    before = df.copy(deep=True)
    out = validate_did_data(df, args[0], args[1], args[2], unit=args[3], raise_on_error=False)
    same_frame(df, before, "validate_did_data")
    req = [a for a in args if a]
    bad = any(a not in df.columns for a in req)
    cells = None
    if not bad:
        miss = any(df[a].isna().any() for a in req)
        dv = set(df["d"].dropna().unique())
        bad = not pd.api.types.is_numeric_dtype(df["y"]) or not dv <= {0, 1} or miss
        if not bad:
            times = sorted(df["t"].unique())
            if dv != {0, 1}:
                bad = True
            elif len(times) == 2:
                bad = any(len(df[(df["d"] == a) & (df["t"] == b)]) == 0 for a in (0, 1) for b in times)
            else:
                bad = any(df[df["d"] == a]["t"].nunique() < 2 for a in (0, 1))
            cells = dict(n_obs=len(df), n_treated=int((df["d"] == 1).sum()), n_control=int((df["d"] == 0).sum()), n_periods=len(times))
            if args[3]:
                cells["n_units"] = df["u"].nunique()
    check(out["valid"] == (not bad), f"valid={out['valid']} but flaw={fl}, errors={out['errors']}")
    check(bool(out["errors"]) == bad, f"errors {out['errors']} for validity {not bad}")
    if cells is not None:
        check({k: int(v) for k, v in out["summary"].items()} == cells, f"summary {out['summary']} expected {cells}")
    if bad:
        raises(lambda: validate_did_data(df, args[0], args[1], args[2], unit=args[3]), what="invalid data with raise_on_error")
    else:
        two = validate_did_data(df, args[0], args[1], args[2], unit=args[3])
        check(two == out, "raise_on_error changes the result on valid data")
        w = " ".join(out["warnings"])
        if args[3]:
            check(("varies" in w) == bool((df.groupby("u")["d"].nunique() > 1).any()), f"varying-treatment warning: {out['warnings']}")
            cnt = df.groupby("u")["t"].nunique()
            check(("nbalanced" in w) == bool(cnt.nunique() > 1), f"imbalance warning: {out['warnings']}")
        else:
            check("varies" not in w and "nbalanced" not in w, f"panel warning without unit: {w}")
        check(("not 0 and 1" in w) == (len(times) == 2 and not set(times) <= {0, 1}), f"time-coding warning: {out['warnings']}")
    return {str(fl), "bad" if bad else "ok", c["times"]}


summ = st.fixed_dictionaries(dict(n=st.integers(2, 30), times=st.sampled_from(["01", "12", "multi", "multi", "str"]), t0=st.sampled_from([2001, 0, -1, 20200101, 10**9]), noise=gen.noise, miss=st.sampled_from([0.0, 0.2]), dtype=st.sampled_from(["int", "bool", "float"]), full=st.booleans(), pres=gen.presentation, seed=seeds))


@facet(P, "summaries", summ, 500, rule="cell summaries, cohort means and event time on any data: every count, mean, spread and extreme recomputed by filtering; the DiD row is the double difference of cell means with the later time as post; event time is time minus treatment time and missing for never-treated")
def summaries(c):
    r = rng_of(c)
    tv = {"01": [0, 1], "12": [1, 2], "multi": [c["t0"], c["t0"] + 1, c["t0"] + 2], "str": ["a", "b"]}[c["times"]]
    n = c["n"]
    df = pd.DataFrame(dict(u=r.integers(0, 5, n), t=[tv[i] for i in r.integers(0, len(tv), n)], y=gen.shock(c["noise"], r, n), x=r.normal(size=n), z=r.integers(0, 4, n)))
    df["d"] = r.integers(0, 2, n).astype(c["dtype"])
    if c["full"]:
        df = pd.concat([df, pd.DataFrame([dict(u=9, t=t, y=float(r.normal()), x=0.0, z=1, d=d) for t in tv for d in (0, 1)]).astype({"d": c["dtype"]})], ignore_index=True)
    df.loc[r.random(len(df)) < c["miss"], "y"] = np.nan
    df["ft"] = r.choice([c["t0"] + 0.0, c["t0"] + 2.0, np.nan, np.inf], size=len(df))
    df = gen.present(df, c["pres"], r)
    before = df.copy(deep=True)
    times = sorted(df["t"].unique())
    S = summarize_did_data(df, "y", "d", "t", unit="u")
    labels = set()
    m = {}
    for d in (0, 1):
        for t in times:
            q = df[(df["d"] == d) & (df["t"] == t)]
            if not len(q):
                continue
            g = "Treated" if d else "Control"
            lab = f"{g} - {'Post' if t == times[1] else 'Pre'}" if len(times) == 2 else f"{g} - Period {t}"
            labels.add(lab)
            y = q["y"].dropna()
            row = S.loc[lab]
            check(int(row["n"]) == len(y), f"{lab} n {row['n']} expected {len(y)}")
            for k, w in (("mean", y.mean()), ("std", y.std()), ("min", y.min()), ("max", y.max())):
                eq(row[k], w, f"{lab} {k}", 1e-9, 6e-5)
            m[d, t] = y.mean()
    if len(times) == 2:
        labels.add("DiD Estimate")
        eq(S.loc["DiD Estimate", "mean"], (m.get((1, times[1]), np.nan) - m.get((1, times[0]), np.nan)) - (m.get((0, times[1]), np.nan) - m.get((0, times[0]), np.nan)), "DiD row", 1e-9, 1e-9)
    check(set(S.index) == labels and len(S) == len(labels), f"rows {list(S.index)} expected {labels}")
    # cohort means
    for cov in (None, ["x"], ["x", "z"]):
        A = aggregate_to_cohorts(df, "u", "t", "d", "y", covariates=cov)
        cells = df.groupby(["d", "t"]).ngroups
        check(len(A) == cells, f"{len(A)} cohort rows for {cells} cells")
        for _, row in A.iterrows():
            q = df[(df["d"] == row["d"]) & (df["t"] == row["t"])]
            check(len(q) > 0 and int(row["n_units"]) == q["u"].nunique(), f"n_units {row['n_units']}")
            eq(row["mean_y"], q["y"].mean(), "mean outcome", 1e-9, 1e-9)
            for k in cov or []:
                eq(row[k], q[k].mean(), f"mean {k}", 1e-9, 1e-12)
    # event time
    if c["times"] == "multi":
        for name in ("event_time", "rel"):
            E = create_event_time(df, "t", "ft", **({} if name == "event_time" else dict(new_column=name)))
            want = np.where(np.isfinite(df["ft"]), df["t"] - df["ft"], np.nan).astype(float)
            eq_arr(E[name].to_numpy(float), want, "event time", 0, 0)
            check(all(E[k].equals(df[k]) for k in df.columns), "create_event_time changed other columns")
        raises(lambda: create_event_time(df, "t", "absent"), what="missing column")
        raises(lambda: create_event_time(df, "absent", "ft"), what="missing column")
    same_frame(df, before, "summaries")
    return {c["times"], "missing" if c["miss"] else "complete", "full" if c["full"] else "partial"}


# ------------------------------------------------------------------ ranking controls
rank = st.fixed_dictionaries(dict(nt=st.integers(1, 3), nc=st.integers(1, 7), T=st.integers(2, 7), noise=gen.noise, drop=st.sampled_from([0.0, 0.0, 0.2]), cov=st.integers(0, 2), covmiss=st.booleans(), constcov=st.booleans(), wo=st.sampled_from([0.7, 1.0, 0.0, 0.25]), wc=st.sampled_from([0.3, 0.0, 1.0]),
                                  by=st.sampled_from(["col", "list"]), pre=st.sampled_from(["default", "given", "rev"]), npre=st.integers(1, 6), excl=st.integers(0, 2), req=st.integers(0, 2), top=st.sampled_from([None, 1, 2, 4, 50]), lam=st.sampled_from([0.0, 0.0, 1.0, 50.0]), ulab=gen.ulab, pres=gen.presentation, seed=seeds))


def simplex_obj(Y, y, w, lam):
    return ((y - Y @ w) ** 2).sum() + lam * ((w - 1 / len(w)) ** 2).sum()


@facet(P, "rank_controls", rank, 350, rule="any panel, weights, covariates, exclusions, requirements and cut-off: RMSE and covariate distances recomputed, min-max scores, weighted quality, synthetic weights no worse than any simplex direction (KKT), order, required units kept, excluded and treated units absent; row order irrelevant")
def rank_controls(c):
    r = rng_of(c)
    N = c["nt"] + c["nc"]
    u = gen.unit_labels(c["ulab"], N, r)
    tr = set(u[r.permutation(N)[: c["nt"]]].tolist())
    rows = [(a, 10 + 2 * t, float(r.normal() + 0.3 * t), int(a in tr)) for a in u.tolist() for t in range(c["T"])]
    df = pd.DataFrame(rows, columns=["u", "t", "y", "d"])
    df["y"] += gen.shock(c["noise"], r, len(df))
    covs = []
    for k in range(c["cov"]):
        df[f"x{k}"] = 1.0 if (c["constcov"] and k == 0) else r.normal(size=len(df)) + df["u"].map({a: z for a, z in zip(u.tolist(), r.normal(size=N))})
        if c["covmiss"]:
            df.loc[r.random(len(df)) < 0.15, f"x{k}"] = np.nan
        covs.append(f"x{k}")
    if c["drop"]:
        df = df[r.random(len(df)) >= c["drop"]].reset_index(drop=True)
    assume(len(df) and df["t"].nunique() >= 2)
    per = sorted(df["t"].unique().tolist())
    pre = per[: len(per) // 2] if c["pre"] == "default" else per[: min(c["npre"], len(per))]
    kw = {} if c["pre"] == "default" else dict(pre_periods=pre[::-1] if c["pre"] == "rev" else list(pre))
    ctl = [a for a in u.tolist() if a not in tr]
    perm = [ctl[i] for i in r.permutation(len(ctl))]
    excl, req = perm[: c["excl"]], perm[c["excl"]: c["excl"] + c["req"]]
    seen = set(df["u"])
    predf = df[df["t"].isin(pre)]
    here = set(predf["u"])
    kw.update(dict(treatment_column="d") if c["by"] == "col" else dict(treated_units=[a for a in tr]))
    if covs:
        kw.update(covariates=covs)
    kw.update(outcome_weight=c["wo"], covariate_weight=c["wc"], lambda_reg=c["lam"])
    if excl:
        kw["exclude_units"] = excl
    if req:
        kw["require_units"] = req
    data = gen.present(df, c["pres"], r)
    before = data.copy(deep=True)
    cand = [a for a in ctl if a not in excl]
    f = lambda d, **more: rank_control_units(d, "u", "t", "y", **kw, **more)
    avail = [a for a in cand if a in here]
    th = [a for a in tr if a in here]
    if not (tr & seen) or not [a for a in cand if a in seen] or not avail or not th:
        return raises(lambda: f(data), what="no usable treated or control unit") and {"raise"}
    out = f(data)
    same_frame(data, before, "rank_control_units")
    check(sorted(map(str, out["unit"])) == sorted(map(str, avail)), f"units {out['unit'].tolist()} expected {avail}")
    check(out.index.tolist() == list(range(len(out))), "index")
    piv = predf.set_index(["u", "t"])["y"].to_dict()
    ym = {t: np.mean([piv[a, t] for a in th if (a, t) in piv]) for t in pre if any((a, t) in piv for a in th)}
    rm = {}
    for a in avail:
        e = [(piv[a, t] - ym[t]) ** 2 for t in pre if (a, t) in piv and t in ym]
        rm[a] = math.sqrt(np.mean(e)) if e else np.nan
    R = out.set_index("unit")
    fin = [v for v in rm.values() if not np.isnan(v)]
    lo, hi = (min(fin), max(fin)) if fin else (np.nan, np.nan)
    scale = max(1.0, df["y"].abs().max())
    degenerate = fin and hi - lo < 1e-6 * scale
    cd = None
    if covs:
        cm = predf.groupby("u")[covs].mean()
        mu, sd = cm.mean(), cm.std().replace(0, 1)
        tz = (cm.loc[th].mean() - mu) / sd
        cz = (cm - mu) / sd
        cd = {a: float(np.sqrt(((cz.loc[a] - tz).to_numpy() ** 2).sum())) for a in avail}
        cf = [v for v in cd.values() if not np.isnan(v)]
    wsum = c["wo"] + c["wc"]
    for a in avail:
        row = R.loc[a]
        eq(row["pre_trend_rmse"], rm[a], f"RMSE of {a}", 1e-9, 1e-9 * scale)
        if not degenerate:
            eq(row["outcome_trend_score"], 1 - (rm[a] - lo) / (hi - lo), f"trend score of {a}", 1e-6, 1e-6)
        if cd is None:
            check(isnan(row["covariate_score"]), "covariate score without covariates")
            q = row["outcome_trend_score"]
        else:
            clo, chi = (min(cf), max(cf)) if cf else (np.nan, np.nan)
            if not cf or chi - clo > 1e-8:
                eq(row["covariate_score"], 1 - (cd[a] - clo) / (chi - clo) if cf else np.nan, f"covariate score of {a}", 1e-6, 1e-6)
            if isnan(row["covariate_score"]):
                q = row["outcome_trend_score"]
            else:
                q = (c["wo"] * row["outcome_trend_score"] + c["wc"] * row["covariate_score"]) / wsum if wsum else row["outcome_trend_score"]
        eq(row["quality_score"], q, f"quality of {a}", 1e-9, 1e-9)
        check(bool(row["is_required"]) == (a in req), f"is_required of {a}")
    for k in ("quality_score", "outcome_trend_score", "covariate_score"):
        v = out[k].dropna()
        check(((v >= -1e-9) & (v <= 1 + 1e-9)).all(), f"{k} outside [0, 1]: {v.tolist()}")
    q = out["quality_score"].to_numpy()
    qq = q[~np.isnan(q)]
    check((np.diff(qq) <= 1e-12).all() and not np.isnan(q[: len(qq)]).any(), f"not sorted: {q}")
    # synthetic weights
    w = R.loc[avail, "synthetic_weight"].to_numpy()
    check((w >= 0).all() and abs(w.sum() - 1) < 1e-6, f"synthetic weights {w}")
    obs = [t for t in pre if t in ym and all((a, t) in piv for a in avail)]
    if obs and len(avail) > 1:
        Y = np.array([[piv[a, t] for a in avail] for t in obs])
        y = np.array([ym[t] for t in obs])
        g = 2 * Y.T @ (Y @ w - y) + 2 * c["lam"] * (w - 1 / len(w))
        gap = float(g @ w - g.min())          # upper bound on suboptimality over the simplex
        ref = simplex_obj(Y, y, np.ones(len(w)) / len(w), c["lam"])
        tol = 1e-3 * (ref + (Y.std() ** 2 + np.mean((Y - y[:, None]) ** 2)) * len(obs) + 1e-9)
        check(gap <= tol, f"synthetic weights not optimal: duality gap {gap} (objective {simplex_obj(Y, y, w, c['lam'])}, uniform {ref})")
    elif not obs:
        eq_arr(w, np.ones(len(w)) / len(w), "weights without a common period", 1e-9, 1e-9)
    # presentation
    again = f(df.sample(frac=1, random_state=1)).set_index("unit")
    for k in ("quality_score", "pre_trend_rmse", "covariate_score"):
        eq_arr(again.loc[avail, k].to_numpy(float), R.loc[avail, k].to_numpy(float), f"{k} after reordering the rows", 1e-6, 1e-6)
    # cut-off
    if c["top"] is not None:
        top = f(data, n_top=c["top"])
        reqh = [a for a in req if a in avail]
        n = min(len(avail), max(c["top"], len(reqh)))
        check(len(top) == n, f"n_top={c['top']} with {len(reqh)} required gives {len(top)} rows of {len(avail)}")
        got = top["unit"].tolist()
        check(all(a in got for a in reqh), "a required unit was cut")
        rest = [a for a in got if a not in reqh]
        out_ = [a for a in avail if a not in got and a not in reqh]
        key = lambda a: -np.inf if isnan(R.loc[a, "quality_score"]) else R.loc[a, "quality_score"]
        if rest and out_:
            check(min(map(key, rest)) >= max(map(key, out_)) - 1e-12, "a better control was cut")
        tq = top["quality_score"].to_numpy(float)
        m = int((~np.isnan(tq)).sum())
        check((np.diff(tq[:m]) <= 1e-12).all() and not np.isnan(tq[:m]).any() and top.index.tolist() == list(range(len(top))), lambda: f"short list not best first: {tq}")
        for _, row in top.iterrows():
            eq(row["quality_score"], R.loc[row["unit"], "quality_score"], "score in the short list", 1e-12, 1e-12)
    if len(avail) > 1:
        return {"cov" if covs else "nocov", "holes" if c["drop"] else "full", c["pre"], f"top{c['top']}", "req" if req else "noreq", c["ulab"]}


cand = st.fixed_dictionaries(dict(n=st.integers(1, 9), T=st.integers(2, 6), noise=gen.noise, drop=st.sampled_from([0.0, 0.0, 0.2]), k=st.sampled_from([1, 3, 5, 20]), pre=st.sampled_from(["default", "given"]), npre=st.integers(1, 6), ulab=gen.ulab, pres=gen.presentation, seed=seeds))


@facet(P, "candidates", cand, 300, rule="treatment-candidate mode: level, slope over the unit's own periods in time order, number of other units within half a standard deviation, score in [0, 1] recomputed, best first, at most the requested number; contradictory arguments raise")
def candidates(c):
    r = rng_of(c)
    u = gen.unit_labels(c["ulab"], c["n"], r)
    rows = [(a, 2 * t, float(r.normal() * 2 + 0.5 * t)) for a in u.tolist() for t in range(c["T"])]
    df = pd.DataFrame(rows, columns=["u", "t", "y"])
    df["y"] += gen.shock(c["noise"], r, len(df))
    if c["drop"]:
        df = df[r.random(len(df)) >= c["drop"]].reset_index(drop=True)
    assume(df["t"].nunique() >= 2)
    per = sorted(df["t"].unique().tolist())
    pre = per[: len(per) // 2] if c["pre"] == "default" else per[: min(c["npre"], len(per))]
    kw = {} if c["pre"] == "default" else dict(pre_periods=pre)
    data = gen.present(df, c["pres"], r)
    out = rank_control_units(data, "u", "t", "y", suggest_treatment_candidates=True, n_treatment_candidates=c["k"], **kw)
    p = df[df["t"].isin(pre)]
    units = [a for a in u.tolist() if a in set(p["u"])]
    check(len(out) == min(c["k"], len(units)), f"{len(out)} candidates of {len(units)}")
    lev = {a: p[p["u"] == a]["y"].mean() for a in units}
    slope, sim = {}, {}
    fuzzy = False
    for a in units:
        y = p[p["u"] == a].sort_values("t")["y"].to_numpy()
        x = np.arange(len(y)) - (len(y) - 1) / 2
        slope[a] = float(x @ y / (x @ x)) if len(y) > 1 else 0.0
        oth = np.array([lev[b] for b in units if b != a])
        if not len(oth):
            sim[a] = 0
            continue
        sd = np.std(oth, ddof=1) if len(oth) > 1 else np.nan
        if sd > 0:
            d = np.abs(oth - lev[a])
            sim[a] = int((d < 0.5 * sd).sum())
            fuzzy |= bool((np.abs(d - 0.5 * sd) < 1e-9 * (1 + abs(oth).max())).any()) or sd < 1e-9 * (1 + abs(oth).max())
        else:
            sim[a] = len(oth)
    mx = max(sim.values())
    L = np.array([lev[a] for a in units])
    sd = np.std(L, ddof=1) if len(L) > 1 else np.nan
    fuzzy |= bool(sd < 1e-9 * (1 + abs(L).max()))
    score = {a: float(np.clip((sim[a] / mx if mx else 0.0) - 0.3 * (abs(lev[a] - L.mean()) / sd if sd > 0 else 0.0), 0, 1)) for a in units}
    for _, row in out.iterrows():
        a = row["unit"]
        eq(row["avg_outcome_level"], lev[a], f"level of {a}", 1e-9, 1e-9)
        eq(row["outcome_trend"], slope[a], f"slope of {a}", 1e-6, 1e-8 * (1 + abs(lev[a])))
        if not fuzzy:
            check(int(row["n_similar_controls"]) == sim[a], f"similar controls of {a}: {row['n_similar_controls']} expected {sim[a]}")
            eq(row["treatment_candidate_score"], score[a], f"score of {a}", 1e-7, 1e-7)
    s = out["treatment_candidate_score"].to_numpy(float)
    check(((s >= 0) & (s <= 1)).all() and (np.diff(s) <= 1e-12).all(), f"scores {s}")
    if not fuzzy and len(out) < len(units):
        left = [score[a] for a in units if a not in out["unit"].tolist()]
        check(min(s) >= max(left) - 1e-7, "a better candidate was left out")
    raises(lambda: rank_control_units(data, "u", "t", "y"), what="nothing identifies the treated")
    raises(lambda: rank_control_units(data, "u", "t", "y", treated_units=[units[0]], treatment_column="t"), what="two ways of naming the treated")
    raises(lambda: rank_control_units(data, "u", "t", "y", treated_units=[units[0]], outcome_weight=1.5), what="weight above one")
    raises(lambda: rank_control_units(data, "u", "t", "y", treated_units=[units[0]], covariates=["absent"]), what="missing covariate")
    raises(lambda: rank_control_units(data, "u", "t", "y", treated_units=[units[0]], exclude_units=[units[0]], require_units=[units[0]]), what="required and excluded")
    if len(units) > 2:
        return {c["pre"], "holes" if c["drop"] else "full", f"k{c['k']}"}
