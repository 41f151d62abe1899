"""Independent reference for TROP: the stated convex problems solved directly."""
import numpy as np

INF_NN = 1e9


def eff(lam):
    lt, lu, ln = lam
    return (0.0 if np.isinf(lt) else lt, 0.0 if np.isinf(lu) else lu, ln)


def _design(T, N, extra=None):
    cols = [np.ones((T, N))]
    for i in range(1, N):
        a = np.zeros((T, N)); a[:, i] = 1; cols.append(a)
    for t in range(1, T):
        a = np.zeros((T, N)); a[t] = 1; cols.append(a)
    if extra is not None:
        cols.append(extra)
    return np.stack([c.ravel() for c in cols], 1)


def solve(Y, W, ln, extra=None, iters=6000, tol=1e-11):
    """min sum W (Y - X b - L)^2 + ln ||L||_*  over b, L; returns fitted X b + L (everywhere), b, L"""
    T, N = Y.shape
    X = _design(T, N, extra)
    w = np.where(np.isfinite(Y), W, 0.0).ravel()
    y = np.where(np.isfinite(Y), Y, 0.0).ravel()
    sw = np.sqrt(w)
    pin = np.linalg.pinv(X * sw[:, None], rcond=1e-11)
    coef = lambda z: pin @ (sw * z)
    if not ln < INF_NN:
        b = coef(y)
        return (X @ b).reshape(T, N), b, np.zeros((T, N))
    wm = w.max()
    thr = ln / (2 * wm)

    def prox(M):
        U, s, V = np.linalg.svd(M.reshape(T, N), full_matrices=False)
        return ((U * np.maximum(s - thr, 0)) @ V).ravel()

    L = np.zeros(T * N); Z = L.copy(); tk = 1.0
    sc = max(1.0, np.abs(y).max())
    for k in range(iters):
        r = y - Z
        r = r - X @ coef(r)
        Ln = prox(Z + (w / wm) * r)
        if (Z - Ln) @ (Ln - L) > 0:   # restart
            tk, Z2 = 1.0, Ln
        else:
            tn = (1 + np.sqrt(1 + 4 * tk * tk)) / 2
            Z2 = Ln + (tk - 1) / tn * (Ln - L); tk = tn
        d = np.abs(Ln - L).max()
        L, Z = Ln, Z2
        if d < tol * sc and k > 5:
            break
    b = coef(y - L)
    return (X @ b + L).reshape(T, N), b, L.reshape(T, N)


def twostep_weights(Y, D, i, t, lt, lu):
    T, N = Y.shape
    u = np.zeros(N)
    for j in range(N):
        if j == i:
            u[j] = 1.0
        elif D[t, j] == 0:
            if lu == 0:
                u[j] = 1.0
                continue
            d = [(Y[s, i] - Y[s, j]) ** 2 for s in range(T) if s != t and D[s, i] == 0 and D[s, j] == 0
                 and np.isfinite(Y[s, i]) and np.isfinite(Y[s, j])]
            u[j] = np.exp(-lu * np.sqrt(np.mean(d))) if d else 0.0
    th = np.exp(-lt * np.abs(np.arange(T) - t))
    return th[:, None] * u[None, :]


def twostep_effects(Y, D, lam):
    lt, lu, ln = eff(lam)
    out = {}
    for t, i in zip(*np.where(D == 1)):
        W = twostep_weights(Y, D, i, t, lt, lu) * (D == 0)
        fitted, b, L = solve(Y, W, ln)
        out[t, i] = Y[t, i] - fitted[t, i]
    return out


def twostep_score(Y, D, lam):
    lt, lu, ln = eff(lam)
    q = 0.0
    for t, i in zip(*np.where((D == 0) & np.isfinite(Y))):
        W = twostep_weights(Y, D, i, t, lt, lu) * (D == 0)
        W[t, i] = 0
        q += (Y[t, i] - solve(Y, W, ln)[0][t, i]) ** 2
    return q


def joint_weights(Y, D, lt, lu, npost):
    T, N = Y.shape
    tr = D.any(axis=0)
    avg = np.array([np.mean(v[np.isfinite(v)]) if np.isfinite(v).any() else np.nan for v in Y[:, tr]])
    u = np.zeros(N)
    for j in range(N):
        d = [(avg[s] - Y[s, j]) ** 2 for s in range(T - npost) if np.isfinite(avg[s]) and np.isfinite(Y[s, j])]
        u[j] = np.exp(-lu * np.sqrt(np.mean(d))) if d else 0.0
    th = np.exp(-lt * np.abs(np.arange(T) - (T - npost / 2)))
    return th[:, None] * u[None, :]


def joint_fit(Y, D, lam, npost=None, drop=None):
    lt, lu, ln = eff(lam)
    if npost is None:
        npost = int(D.any(axis=1).sum())
    W = joint_weights(Y, D, lt, lu, npost)
    if drop is not None:
        W[:, drop] = 0
    fitted, b, L = solve(Y, W, ln, extra=D.astype(float))
    return b[-1], b, L, W


def joint_score(Y, D, lam):
    lt, lu, ln = eff(lam)
    W0 = joint_weights(Y, D, lt, lu, int(D.any(axis=1).sum()))
    q = 0.0
    for t, i in zip(*np.where((D == 0) & np.isfinite(Y))):
        W = W0.copy(); W[t, i] = 0
        q += (Y[t, i] - solve(Y, W, ln, extra=D.astype(float))[0][t, i]) ** 2
    return q
