"""P29 - dataset loaders: cache, faults and derived columns."""
import contextlib
import http.client
import io
import os
import pathlib
import resource
import shutil
import signal
import socket
import tempfile
import urllib.error
import urllib.request
import numpy as np
import pandas as pd
from harness.core import *
import diff_diff.datasets as D

P = "P29"
NAMES = ["card_krueger", "castle_doctrine", "divorce_laws", "mpdta"]
URLS = {}


class Net:
    """stand-in for urlopen: serves texts, fails to connect, or breaks off while being read; counts the calls"""

    def __init__(self):
        self.mode, self.text, self.calls, self.urls = "down", "", 0, []

    def __call__(self, url, *a, **k):
        self.calls += 1
        self.urls.append(url if isinstance(url, str) else url.full_url)
        m = self.mode
        if m == "down":
            raise urllib.error.URLError("no route to host")
        if m == "404":
            raise urllib.error.HTTPError(self.urls[-1], 404, "Not Found", {}, None)
        if m == "timeout-open":
            raise TimeoutError("timed out")
        net = self

        class Resp(io.BytesIO):
            status = 200

            def read(s, *a):
                if m == "timeout-read":
                    raise socket.timeout("timed out")
                if m == "reset":
                    raise ConnectionResetError(104, "Connection reset by peer")
                if m == "incomplete":
                    raise http.client.IncompleteRead(b"abc", 100)
                return io.BytesIO.read(s, *a)

            def getcode(s):
                return 200
        return Resp(net.text.encode("utf-8"))


FAULTS = ["down", "404", "timeout-open", "timeout-read", "reset", "incomplete"]


@contextlib.contextmanager
def box():
    """a scratch cache directory and a stand-in network"""
    top = pathlib.Path(tempfile.mkdtemp(prefix="p29-"))
    cache = top / "home" / "cache" / "datasets"
    net = Net()
    old = (D._CACHE_DIR, getattr(D, "urlopen", None), urllib.request.urlopen)
    try:
        D._CACHE_DIR = cache
        if old[1] is not None:
            D.urlopen = net
        urllib.request.urlopen = net
        yield net, cache, top
    finally:
        D._CACHE_DIR = old[0]
        if old[1] is not None:
            D.urlopen = old[1]
        urllib.request.urlopen = old[2]
        shutil.rmtree(str(top), ignore_errors=True)


@contextlib.contextmanager
def full_disk(n):
    """writes beyond n bytes of a file fail, after a partial write"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, sig)


def same(a, b, what):
    check(isinstance(a, pd.DataFrame), f"{what}: {type(a).__name__}")
    check(list(a.columns) == list(b.columns) and len(a) == len(b), f"{what}: {a.shape} {list(a.columns)} instead of {b.shape} {list(b.columns)}")
    for k in b.columns:
        x, y = a[k].to_numpy(), b[k].to_numpy()
        ok = all(u == v or (isnan(u) and isnan(v)) for u, v in zip(x, y))
        check(ok, f"{what}: column {k} differs")


def call(name, force, via):
    f = getattr(D, "load_" + name)
    if via == "name":
        return D.load_dataset(name, force_download=force) if force else D.load_dataset(name)
    return f(force_download=force) if force else f()


def fallback(name):
    with box() as (net, _, _):
        return call(name, False, "loader")


# ------------------------------------------------------------------ upstream tables
def upstream(name, r, variant):
    """-> (csv text, expected table): a small table in an upstream layout, and what the loader must make of it"""
    tag = ["", "é", "ß"][variant % 3]
    if name == "card_krueger":
        n = int(r.integers(1, 9))
        f = pd.DataFrame({"sheet": r.permutation(400)[:n] + 1, "nj": r.integers(0, 2, n), "chain": [c + tag for c in r.choice(["bk", "kfc"], n)], "emp_pre": np.round(r.normal(20, 5, n), 2), "emp_post": np.round(r.normal(20, 5, n), 2)})
        if variant & 1 and n > 1:
            f.loc[0, "emp_pre"] = np.nan
        w = f.rename(columns={"sheet": "store_id"})
        w["state"] = ["NJ" if v == 1 else "PA" for v in f["nj"]]
        if variant & 2:
            f["state"] = w["state"]
        w["treated"] = f["nj"].astype(int)
        w["emp_change"] = f["emp_post"] - f["emp_pre"]
        return f.to_csv(index=False), w
    if name == "mpdta":
        n = int(r.integers(1, 5))
        f = pd.DataFrame([{"year": y, "countyreal": 8000 + i, "lpop": round(float(r.normal()), 3), "lemp": round(float(r.normal()), 3), "first.treat": g, "treat": int(g > 0), "note": tag} for i, g in enumerate(r.choice([0, 2004, 2006], n)) for y in range(2003, 2008)])
        f = f.iloc[r.permutation(len(f))]
        f["note"] = f["note"] + "x"
        w = f.rename(columns={"first.treat": "first_treat"})
        if variant & 2:
            f = w.copy()
        w = w.copy()
        w["cohort"] = w["first_treat"]
        return f.to_csv(index=False), w
    states = ["AL", "AK", "CA", "TX", "WY"][: int(r.integers(1, 6))]
    first = {s: int(v) for s, v in zip(states, r.choice([0, 0, 2005, 2006, 2008, 2010] if r.random() < 0.6 else [1998, 2004, 2006, 2009] if name == "castle_doctrine" else [2003, 2005, 2010], len(states)))}
    rows = [{"state": s + tag, "year": y, "k": i, "y": round(float(r.normal()), 3)} for i, s in enumerate(states) for y in range(2003, 2011)]
    f = pd.DataFrame(rows).iloc[r.permutation(len(rows))].reset_index(drop=True)
    g = np.array([first[states[i]] for i in f["k"]])
    on = (g > 0) & (f["year"].to_numpy() >= g)
    if name == "castle_doctrine":
        f["sid"] = f["k"] + 1
        f["effyear"] = [v if v else np.nan for v in g]
        if not np.isfinite(f["effyear"]).any():
            f["effyear"] = f["effyear"].astype(float)
        if variant & 2:
            f["cdl"] = on.astype(int)
        w = f.rename(columns={"sid": "state_id", "cdl": "treated"})
    else:
        f["stfips"] = f["k"] + 1
        f["unilateral"] = on.astype(int)
        w = f.rename(columns={"stfips": "state_id"})
    w["first_treat"] = g
    w["cohort"] = g
    w["treated"] = on.astype(int)
    return f.to_csv(index=False), w


def agrees(got, want, what):
    check(len(got) == len(want), f"{what}: {len(got)} rows of {len(want)}")
    for k in want.columns:
        check(k in got.columns, f"{what}: column {k} is missing from {list(got.columns)}")
        check(all(u == v or (isnan(u) and isnan(v)) for u, v in zip(got[k].to_numpy(), want[k].to_numpy())), f"{what}: column {k} is {list(got[k])[:12]}, expected {list(want[k])[:12]}")


@facet(P, "derived", st.fixed_dictionaries(dict(name=st.sampled_from(NAMES), variant=st.integers(0, 3), seed=seeds, via=st.sampled_from(["name", "loader"]))), 260,
       rule="a downloaded table in an upstream layout keeps its rows, order and values; identifier, state, first-treatment year (0 = never), cohort, treated and change columns are derived correctly when the source lacks them, and kept when it has them; the second load, from the cache, gives the same table")
def derived(c):
    text, want = upstream(c["name"], rng_of(c), c["variant"])
    with box() as (net, cache, top):
        net.mode, net.text = "ok", text
        got = call(c["name"], False, c["via"])
        agrees(got, want, c["name"])
        net.mode = "down"
        same(call(c["name"], False, c["via"]), got, "cached copy")
        check(net.calls == 1, f"{net.calls} downloads for a load and a cached load")
    return {c["name"], f"variant{c['variant']}", c["via"]}


# ------------------------------------------------------------------ histories
step = st.one_of(
    st.tuples(st.just("load"), st.sampled_from(NAMES), st.booleans(), st.sampled_from(["ok", "ok", "ok"] + FAULTS), st.integers(0, 3)),
    st.tuples(st.just("load"), st.sampled_from(NAMES[:2]), st.booleans(), st.sampled_from(["ok", "full"] + FAULTS), st.integers(0, 3)),
    st.tuples(st.sampled_from(["clear", "clear", "foreign", "scribble"])),
)
FALL = {}


@facet(P, "history", st.fixed_dictionaries(dict(ops=st.lists(step, min_size=2, max_size=9), cut=st.floats(0.05, 0.95), pad=st.sampled_from([0, 0, 0, 70_000, 1_300_000]), seed=seeds, via=st.sampled_from(["name", "loader"]))), 160,
       rule="random histories of loads (cached, forced), network faults before and during the transfer, full disks while caching, cache clearing and unrelated files, against a model: cached unless forced, newest download otherwise, the cached copy and then the built-in data when the transfer fails, never a truncated table; one transfer per miss; unrelated files survive")
def history(c):
    r = rng_of(c)
    model, tags, last = {}, {f"pad{c['pad']}"}, None
    with box() as (net, cache, top):
        outside = top / "home" / "cache" / "keep.csv"
        for i, op in enumerate(c["ops"]):
            if op[0] == "clear":
                with contextlib.redirect_stdout(io.StringIO()):
                    D.clear_cache()
                model = {}
                tags.add("clear")
                continue
            if op[0] == "foreign":
                cache.mkdir(parents=True, exist_ok=True)
                (cache / "notes.txt").write_text("mine")
                (cache / "mine").mkdir(exist_ok=True)
                (cache / "mine" / "results.csv").write_text("mine")
                outside.write_text("mine")
                tags.add("foreign")
                continue
            if op[0] == "scribble":
                if last is not None:
                    last.drop(columns=list(last.columns), inplace=True)
                    tags.add("scribble")
                continue
            _, name, force, mode, variant = op
            text, want = upstream(name, r, variant)
            text += "\n" * c["pad"]              # blank lines: the same table in a large file
            before = net.calls
            hit = name in model and not force
            net.mode, net.text = ("ok" if mode == "full" else mode), text
            err = None
            try:
                if mode == "full" and not hit:
                    with full_disk(max(1, int(c["cut"] * len(text.encode())))):
                        got = call(name, force, c["via"])
                else:
                    got = call(name, force, c["via"])
            except OSError as e:
                if mode != "full" or hit:
                    raise
                err = e                       # the write failed; the cache must be as before
            check(net.calls - before == (0 if hit else 1), f"step {i}: {net.calls - before} transfers for a {'hit' if hit else 'miss'}")
            tags.add(("hit-" if hit else "forced-" if force and name in model else "miss-") + mode)
            if err is not None:
                continue
            if hit:
                agrees(got, model[name], f"step {i}: cached {name}")
            elif mode in ("ok", "full"):
                agrees(got, want, f"step {i}: downloaded {name}")
                if mode == "ok":
                    model[name] = want
            elif name in model:
                agrees(got, model[name], f"step {i}: {name} after a failed transfer")
            else:
                if name not in FALL:
                    FALL[name] = fallback(name)
                same(got, FALL[name], f"step {i}: built-in {name}")
            last = got
        # what the cache holds is what the model says, whatever happened before
        net.mode = "down"
        for name in NAMES:
            got = call(name, False, "loader")
            if name in model:
                agrees(got, model[name], f"finally: cached {name}")
            else:
                if name not in FALL:
                    FALL[name] = fallback(name)
                same(got, FALL[name], f"finally: {name} was never cached")
        if "foreign" in tags:
            check(all(p.is_file() and p.read_text() == "mine" for p in (cache / "notes.txt", cache / "mine" / "results.csv", outside)), "unrelated files were touched")
        with contextlib.redirect_stdout(io.StringIO()):
            D.clear_cache()
        n = net.calls
        for name in NAMES:
            call(name, False, "loader")
        check(net.calls == n + 4, "a cleared cache is not consulted")
        if "foreign" in tags:
            check(all(p.is_file() and p.read_text() == "mine" for p in (cache / "notes.txt", cache / "mine" / "results.csv", outside)), "clearing the cache removed unrelated files")
    return tags


# ------------------------------------------------------------------ built-in data
@facet(P, "builtin", st.fixed_dictionaries(dict(order=st.lists(st.sampled_from(NAMES), min_size=1, max_size=3), seed=seeds, force=st.booleans(), via=st.sampled_from(["name", "loader"]))), 60,
       rule="without network the built-in tables come out the same in any order and under any random state, leave NumPy's global generator alone, and obey their documentation: one row per unit and year (or store), treatment switched on at the first-treatment year, never before, cohort = first_treat, changes = post - pre")
def builtin(c):
    np.random.seed(c["seed"])
    s0 = np.random.get_state()
    with box() as (net, _, _):
        for name in c["order"]:
            f = call(name, c["force"], c["via"])
            s1 = np.random.get_state()
            check(s0[0] == s1[0] and (s0[1] == s1[1]).all() and s0[2:] == s1[2:], f"loading {name} changed NumPy's global random state")
            if name not in FALL:
                np.random.seed(12345)
                FALL[name] = fallback(name)
                np.random.seed(c["seed"])
            same(f, FALL[name], f"built-in {name}")
            check(not f.isna().any().any(), f"{name}: missing values")
            if name == "card_krueger":
                check(f["store_id"].is_unique and set(f["state"]) == {"NJ", "PA"}, "stores")
                check(((f["state"] == "NJ").astype(int) == f["treated"]).all(), "treated states")
                check(np.allclose(f["emp_change"], f["emp_post"] - f["emp_pre"]) and (f[["emp_pre", "emp_post"]] >= 0).all().all(), "employment")
                check(set(f["chain"]) == {"bk", "kfc", "roys", "wendys"}, "chains")
                continue
            u = "countyreal" if name == "mpdta" else "state"
            lo, hi = {"castle_doctrine": (2000, 2010), "divorce_laws": (1968, 1988), "mpdta": (2003, 2007)}[name]
            check(not f.duplicated([u, "year"]).any() and (f.groupby(u)["year"].nunique() == hi - lo + 1).all() and f["year"].min() == lo and f["year"].max() == hi, f"{name}: panel of {lo}-{hi}")
            check((f.groupby(u)["first_treat"].nunique() == 1).all() and (f["cohort"] == f["first_treat"]).all(), f"{name}: cohorts")
            g = f["first_treat"]
            check(((g == 0) | ((g >= lo) & (g <= hi))).all() and (g == 0).any() and (g > 0).any(), f"{name}: first treatment within the panel or 0: {sorted(set(g))}")
            if "treated" in f:
                check((f["treated"] == ((g > 0) & (f["year"] >= g)).astype(int)).all(), f"{name}: treated")
            if name == "mpdta":
                check((f["treat"] == (g > 0).astype(int)).all(), "mpdta: treat")
        check(set(D.list_datasets()) == set(NAMES), "list of datasets")
        raises(lambda: D.load_dataset("no such data"), (ValueError,), "unknown dataset")
    return set(c["order"])
