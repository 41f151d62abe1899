"""Runs every facet of one property, in parallel, as a pure function of the
code and VERIF_SEED; writes evidence/<id>.json; exit 0 / 1+VIOLATION / 2 error."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVID = ROOT / "evidence"

from harness import core  # noqa: E402  (adds hypothesis to sys.path)
from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings  # noqa: E402
from hypothesis.errors import UnsatisfiedAssumption, StopTest  # noqa: E402

SHRINK_CALLS, SHRINK_SECS = 400, 25.0


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def run_case(fn, case):
    """returns (status, info): ok/labels, violation/msg, error/msg"""
    import numpy as np
    np.random.seed(12345)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = fn(case)
        except (UnsatisfiedAssumption, StopTest):
            raise
        except core.Violation as e:
            return "violation", str(e)
        except (core.HarnessError, ImportError, MemoryError) as e:
            return "error", "".join(traceback.format_exception(e))
        except Exception as e:  # a valid input made the library (or its result) unusable
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{Path(f.filename).name}:{f.lineno}" for f in tb[-3:])
            return "violation", f"unexpected {type(e).__name__}: {e} [{where}]"
    if r is None or r is False:
        return "ok", []
    if r is True:
        return "ok", ["nontrivial"]
    return "ok", sorted(str(x) for x in r)


_STOP = None


def _init(ev):
    global _STOP
    _STOP = ev


def worker(args):
    prop, name, shard, n, seed = args
    f = core.FACETS[prop][name]
    out = dict(facet=name, shard=shard, evals=0, discards=0, keys=[], labels={}, samples=[],
               fail=None, error=None)
    if _STOP is not None and _STOP.is_set():
        return out
    keys, failing = set(), {}
    state = dict(calls=0, t0=None, last=None)

    def body(case):
        k = key_of(case)
        if out["error"]:
            return
        if state["last"] is None:
            if _STOP is not None and _STOP.is_set():
                return
        else:
            state["calls"] += 1
            over = state["calls"] > SHRINK_CALLS or time.time() - state["t0"] > SHRINK_SECS
            if over:
                if k in failing:
                    raise core.Violation(failing[k])
                return
        try:
            status, info = run_case(f.fn, case)
        except UnsatisfiedAssumption:
            out["discards"] += 1
            raise
        if status == "error":
            out["error"] = info
            return
        if status == "violation":
            if state["last"] is None:
                state["t0"] = time.time()
                if _STOP is not None:
                    _STOP.set()
            failing[k] = info
            state["last"] = (case, info)
            raise core.Violation(info)
        if state["last"] is None:
            out["evals"] += 1
            if info:
                keys.add(k)
                for l in info:
                    out["labels"][l] = out["labels"].get(l, 0) + 1
                if len(out["samples"]) < 2:
                    out["samples"].append(case)

    test = given(f.strategy)(body)
    test = settings(
        max_examples=n, deadline=None, database=None, derandomize=False,
        phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False, print_blob=False,
    )(test)
    test = hyp_seed(seed)(test)
    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if state["last"] is None:
            if isinstance(e, KeyboardInterrupt):
                raise
            out["error"] = out["error"] or "".join(traceback.format_exception(e))
    if state["last"] is not None:
        out["fail"] = dict(case=state["last"][0], msg=state["last"][1])
    out["keys"] = sorted(keys)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--mult", type=float, default=1.0)
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    prop = a.prop
    base_seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    importlib.import_module(f"checks.{prop.lower()}")
    facets = core.FACETS[prop]

    if a.replay:
        rep = json.load(open(a.replay))
        status, info = run_case(facets[rep["facet"]].fn, rep["case"])
        print(status, info)
        if status == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if status == "ok" else 2

    known = []
    kf_path = ROOT / "KNOWN_FINDINGS.json"
    if kf_path.exists():
        known = [k for k in json.load(open(kf_path))["findings"] if k["property"] == prop]

    jobs = []
    for name, f in facets.items():
        if a.facet and name != a.facet:
            continue
        n = int((f.quick if a.tier == "quick" else f.thorough) * a.mult)
        if n == 0:
            continue
        shards = max(1, min(16 if a.tier == "quick" else 64, n // 6))
        for s in range(shards):
            cnt = n // shards + (1 if s < n % shards else 0)
            h = hashlib.sha256(f"{base_seed}|{prop}|{name}|{s}".encode()).hexdigest()
            jobs.append((prop, name, s, cnt, int(h[:12], 16)))
    jobs.sort(key=lambda j: j[2])
    ctx = mp.get_context("fork")
    ev = ctx.Event()
    results, errors = [], []
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(a.j, mp_context=ctx, initializer=_init, initargs=(ev,)) as ex:
        futs = [ex.submit(worker, j) for j in jobs]
        for j, fu in zip(jobs, futs):
            try:
                results.append(fu.result())
            except Exception as e:  # noqa: BLE001
                errors.append(f"worker {j}: {e!r}")
    errors += [f"{r['facet']}[{r['shard']}]: {r['error']}" for r in results if r["error"]]

    # known findings: pinned inputs that are known to fail on this tree
    for k in known:
        if k.get("status") != "known":
            continue
        status, info = run_case(facets[k["facet"]].fn, k["case"])
        if status == "violation":
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
        elif status == "error":
            errors.append(f"known finding {k['id']}: {info}")
        else:
            print(f"note: known finding {k['id']} no longer fails")

    per, evals, distinct, samples = {}, 0, 0, []
    for name in facets:
        rs = [r for r in results if r["facet"] == name]
        if not rs:
            continue
        keys = set().union(*[set(r["keys"]) for r in rs])
        labels = {}
        for r in rs:
            for l, c in r["labels"].items():
                labels[l] = labels.get(l, 0) + c
        per[name] = dict(evaluations=sum(r["evals"] for r in rs), distinct_nontrivial=len(keys),
                         discarded=sum(r["discards"] for r in rs), labels=labels,
                         rule=facets[name].rule)
        evals += per[name]["evaluations"]
        distinct += len(keys)
        for r in rs:
            if r["samples"]:
                samples.append(dict(facet=name, case=r["samples"][0]))
                break

    viol = 0
    lines = []
    for r in results:
        if not r["fail"]:
            continue
        case, msg = r["fail"]["case"], r["fail"]["msg"]
        viol += 1
        if viol > 3:
            continue
        d = EVID / "replays"
        d.mkdir(parents=True, exist_ok=True)
        p = d / f"{prop}-{r['facet']}-{key_of(case)}.json"
        p.write_text(json.dumps(dict(property=prop, facet=r["facet"], message=msg, case=case,
                                     how=f"./check.sh {prop} --replay {p}"), indent=1, default=str))
        lines.append(f"{prop}/{r['facet']}: {msg[:600]}\n  case: {json.dumps(case, default=str)[:600]}")
        lines.append(f"VIOLATION property={prop} replay={p}")

    EVID.mkdir(exist_ok=True)
    rule = "Each facet draws a case from its Hypothesis strategy and compares the library with the " \
           "facet's oracle; a case is non-trivial when the facet returned at least one label for it, by: " \
           + " || ".join(f"[{n}] {f.rule or 'every completed comparison'}" for n, f in facets.items())
    (EVID / f"{prop}.json").write_text(json.dumps(dict(
        property=prop, tier="thorough" if a.tier == "thorough" else "quick", seed=base_seed,
        level="exploration",
        coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=rule, samples=samples or [],
                      facets=per),
        wall_s=round(time.time() - t0, 2), violations=viol,
        assumptions=["pure-Python backend (the compiled backend is not buildable offline)",
                     "numpy/scipy/pandas linear algebra, distributions and grouping are trusted by the oracles"],
    ), indent=1, default=str))
    for l in lines:
        print(l)
    print(f"{prop} {a.tier}: {evals} cases, {distinct} distinct non-trivial, "
          f"{viol} violations, {time.time()-t0:.1f}s")
    if viol:
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS-ERROR", e, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
