"""Shared data builders: everything is a function of a JSON-able case."""
import numpy as np
import pandas as pd
from harness.core import st, seeds

noise = st.sampled_from(["gauss", "gauss", "int", "heavy", "hetero", "shift", "tiny", "big"])
presentation = st.sampled_from(["plain", "plain", "shuffled", "index", "dupindex", "junk"])
alphas = st.sampled_from([0.05, 0.05, 0.01, 0.1, 0.32])


def shock(kind, r, n, base=None):
    e = r.normal(size=n)
    if kind == "int":
        return np.round(3 * e)
    if kind == "heavy":
        return np.clip(r.standard_t(2, n), -30, 30)
    if kind == "hetero":
        return e * (0.3 + r.random(n) * 3)
    if kind == "shift":
        return e + 50
    if kind == "tiny":
        return e * 1e-3
    if kind == "big":
        return e * 1e3 + 1e4
    return e


def present(df, how, r):
    """Same data, presented differently (row order, index, extra columns)."""
    df = df.copy()
    if how == "shuffled":
        return df.sample(frac=1, random_state=int(r.integers(0, 2**31))).reset_index(drop=True)
    if how == "index":
        df = df.sample(frac=1, random_state=int(r.integers(0, 2**31)))
        df.index = r.permutation(len(df)) * 3 + 7
    elif how == "dupindex":
        df = df.sample(frac=1, random_state=int(r.integers(0, 2**31)))
        df.index = np.zeros(len(df), dtype=int)
    elif how == "junk":
        df.insert(0, "zzz_note", ["x"] * len(df))
        df["zzz_miss"] = np.nan
    return df


def unit_labels(kind, n, r):
    if kind == "str":
        return np.array([f"establishment_{(i * 37) % 101:03d}_{i}" for i in range(n)], dtype=object)
    if kind == "perm":
        return r.permutation(n) * 11 + 3
    if kind == "neg":
        return np.arange(n) - n // 2
    if kind == "float":
        return np.arange(n) + 0.5
    return np.arange(n)


ulab = st.sampled_from(["int", "int", "perm", "str", "neg"])
