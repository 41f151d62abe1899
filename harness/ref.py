"""Slow, obvious reference implementations used as oracles."""
import numpy as np
from scipy import stats


def indep_columns(X, tol=1e-9):
    """Greedy left-to-right maximal independent column set (scale free)."""
    keep, Q = [], np.zeros((X.shape[0], 0))
    for j in range(X.shape[1]):
        v = X[:, j].astype(float)
        nv = np.linalg.norm(v)
        if nv == 0:
            continue
        v = v / nv
        r = v - Q @ (Q.T @ v)
        r = r - Q @ (Q.T @ r)
        if np.linalg.norm(r) > tol:
            Q = np.column_stack([Q, r / np.linalg.norm(r)])
            keep.append(j)
    return keep, Q


def ols(X, y):
    """coef for a full-rank X by column-scaled lstsq."""
    X = np.asarray(X, float)
    s = np.linalg.norm(X, axis=0)
    s[s == 0] = 1
    b = np.linalg.lstsq(X / s, y, rcond=None)[0] / s
    return b


def bread(X):
    s = np.linalg.norm(X, axis=0)
    Xs = X / s
    return np.linalg.inv(Xs.T @ Xs) / np.outer(s, s)


def vcov(X, u, kind="hc1", clusters=None):
    X = np.asarray(X, float)
    n, k = X.shape
    B = bread(X)
    if kind == "classical":
        return B * (u @ u) / (n - k)
    if kind == "hc1":
        meat = np.zeros((k, k))
        for i in range(n):
            meat += u[i] ** 2 * np.outer(X[i], X[i])
        return n / (n - k) * B @ meat @ B
    if kind == "cluster":
        groups = {}
        for i, c in enumerate(clusters):
            groups.setdefault(c, np.zeros(k))
            groups[c] = groups[c] + X[i] * u[i]
        G = len(groups)
        meat = sum(np.outer(s, s) for s in groups.values())
        return G / (G - 1) * (n - 1) / (n - k) * B @ meat @ B
    raise ValueError(kind)


def crit(alpha, df=None):
    return stats.norm.ppf(1 - alpha / 2) if df is None else stats.t.ppf(1 - alpha / 2, df)


def pval(t, df=None):
    return 2 * (stats.norm.sf(abs(t)) if df is None else stats.t.sf(abs(t), df))


def dummies(v, drop_first=True):
    """float dummies for the sorted distinct values of v."""
    vals = sorted(set(v))
    cols = [np.array([1.0 if x == u else 0.0 for x in v]) for u in (vals[1:] if drop_first else vals)]
    return np.column_stack(cols) if cols else np.zeros((len(v), 0))


def reg(X, y, kind="hc1", clusters=None):
    """Reference regression dropping dependent columns left to right.
    returns dict(coef (NaN for dropped), vcov, resid, fitted, n, k_eff, keep)"""
    X = np.asarray(X, float)
    y = np.asarray(y, float)
    keep, _ = indep_columns(X)
    Xk = X[:, keep]
    b = ols(Xk, y)
    u = y - Xk @ b
    V = vcov(Xk, u, kind, clusters) if X.shape[0] > len(keep) else np.full((len(keep),) * 2, np.nan)
    coef = np.full(X.shape[1], np.nan)
    coef[keep] = b
    VV = np.full((X.shape[1],) * 2, np.nan)
    VV[np.ix_(keep, keep)] = V
    return dict(coef=coef, vcov=VV, resid=u, fitted=Xk @ b, n=len(y), k_eff=len(keep), keep=keep)
