"""Staggered-panel generator shared by several properties."""
import numpy as np
import pandas as pd
from harness.core import lists_mostly, mostly, st, seeds
from harness import gen

panel = dict(
    T=mostly(3, 7, 13), nnever=mostly(2, 8, 25), sizes=lists_mostly(mostly(1, 6, 18), 1, 3, 7),
    start=st.lists(st.integers(0, 20), min_size=7, max_size=7), t0=st.sampled_from([0, 1, 1, 2000, -3]),
    drop=st.sampled_from([0.0, 0.0, 0.12, 0.3]), hole=st.integers(-30, 30), never=st.sampled_from(["zero", "zero", "inf"]), noise=gen.noise,
    ulab=gen.ulab, pres=gen.presentation, seed=seeds)


def build(c, r, ncov=0, gapped=False, unitcov=True, late=False):
    """returns presented df (columns u,t,g,y,x*), cohort dict, periods; period 0 would clash with the never code, so cohorts are > 0"""
    T = c["T"]
    periods = [c["t0"] + k for k in range(T)]
    if gapped and T > 3:
        periods.pop(2)
    cand = [p for p in [c["t0"] + k for k in range(0 if late else 1, T + (1 if late else 0))] if p > 0]
    coh = []
    labs = []
    for s, k in zip(c["sizes"], c["start"]):
        if not cand:
            break
        labs.append(cand[k % len(cand)])
        coh += [labs[-1]] * s
    coh += [0] * c["nnever"]
    N = len(coh)
    ul = gen.unit_labels(c["ulab"], N, r)
    order = r.permutation(N)
    coh = [coh[i] for i in order]
    Xu = r.normal(size=(N, max(ncov, 1)))
    fe = r.normal(size=N) * 2
    rows = []
    eff = r.normal(size=30)
    tfe = r.normal(size=T + 5)
    for i in range(N):
        Xi = Xu[i] + (0.3 if coh[i] else 0.0)
        for k, p in enumerate(periods):
            x = Xi if unitcov else Xi + 0.4 * r.normal(size=len(Xi))
            y = fe[i] + tfe[k] + 0.5 * k * Xi[0] * (ncov > 0)
            if coh[i] and p >= coh[i]:
                y += 1.5 + 0.4 * (p - coh[i]) + 0.3 * eff[coh[i] % 30]
            rows.append([ul[i], p, coh[i], y] + list(x[:ncov]))
    df = pd.DataFrame(rows, columns=["u", "t", "g", "y"] + [f"x{j}" for j in range(ncov)])
    df["y"] += gen.shock(c["noise"], r, len(df))
    if c["drop"]:
        df = df[r.random(len(df)) >= c["drop"]]
        df = df.reset_index(drop=True)
    if c.get("hole", -1) >= 0:  # one cohort is not observed at all in one period
        h, gs = c["hole"], labs + [0]
        df = df[~((df["g"] == gs[h % len(gs)]) & (df["t"] == periods[(h // len(gs)) % len(periods)]))].reset_index(drop=True)
    if c["never"] == "inf":
        df["g"] = df["g"].astype(float).replace(0.0, np.inf)
    cohort = {u: (0 if np.isinf(g) else g) for u, g in df.groupby("u")["g"].first().items()}
    return gen.present(df, c["pres"], r), cohort, sorted(df["t"].unique())
