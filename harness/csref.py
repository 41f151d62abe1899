"""Independent reference for Callaway-Sant'Anna group-time effects and aggregations."""
import numpy as np
from harness import ref


def logit_mle(X, d):
    """IRLS with standardised covariates; returns probabilities or None when it does not converge"""
    mu, sd = X.mean(0), X.std(0)
    sd = np.where(sd > 0, sd, 1)
    Z = np.column_stack([np.ones(len(d)), (X - mu) / sd])
    keep, _ = ref.indep_columns(Z)
    Z = Z[:, keep]
    b = np.zeros(Z.shape[1])
    for _ in range(60):
        p = 1 / (1 + np.exp(-np.clip(Z @ b, -40, 40)))
        H = Z.T @ (Z * (p * (1 - p))[:, None])
        if np.linalg.cond(H) > 1e10:
            return None
        step = np.linalg.solve(H, Z.T @ (d - p))
        b = b + step
        if np.max(np.abs(b)) > 12:
            return None
        if np.max(np.abs(step)) < 1e-12:
            return 1 / (1 + np.exp(-(Z @ b)))
    return None


def var1(v):
    return np.var(v, ddof=1) if len(v) > 1 else 0.0


class CS:
    """Y: {(unit, period): outcome}; cohort: {unit: g or 0}; X: {(unit, period): [cov]} or None"""

    def __init__(self, Y, cohort, periods, X=None, control="never_treated", method="dr", anticipation=0, base="varying"):
        self.Y, self.cohort, self.X = Y, cohort, X
        self.control, self.method, self.a, self.base = control, method, anticipation, base
        self.periods = sorted(periods)
        self.groups = sorted({g for g in cohort.values() if g > 0})
        self.cells = {}
        for g in self.groups:
            for t in self.periods:
                c = self.cell(g, t)
                if c is not None:
                    self.cells[(g, t)] = c

    def basep(self, g, t):
        if self.base == "universal" or t >= g - self.a:
            return g - 1 - self.a
        return t - 1

    def cell(self, g, t):
        s = self.basep(g, t)
        if s not in self.periods or s == t:
            return None
        ok = lambda u: (u, t) in self.Y and (u, s) in self.Y
        tr = [u for u, c in self.cohort.items() if c == g and ok(u)]
        co = [u for u, c in self.cohort.items() if ok(u) and (
            c == 0 or (self.control == "not_yet_treated" and c > t and c != g))]
        if not tr or not co:
            return None
        d1 = np.array([self.Y[u, t] - self.Y[u, s] for u in tr])
        d0 = np.array([self.Y[u, t] - self.Y[u, s] for u in co])
        n1, n0 = len(tr), len(co)
        out = dict(n1=n1, n0=n0, tr=tr, co=co, ok=True)
        if self.X is not None:
            X1 = np.array([self.X[u, s] for u in tr], float)
            X0 = np.array([self.X[u, s] for u in co], float)
        out["uncond"] = self.X is None or bool(np.isnan(X1).any() or np.isnan(X0).any())  # incomplete covariates: this cell is estimated without them
        if out["uncond"]:
            out.update(att=d1.mean() - d0.mean(), se=np.sqrt(var1(d1) / n1 + var1(d0) / n0),
                       psi1=(d1 - d1.mean()) / n1, psi0=-(d0 - d0.mean()) / n0)
            return out
        if self.method in ("reg", "dr"):
            A0 = np.column_stack([np.ones(n0), X0])
            keep, _ = ref.indep_columns(A0)
            A1 = np.column_stack([np.ones(n1), X1])
            full = len(keep) == A0.shape[1]
            b = ref.ols(A0[:, keep], d0)
            m1, m0 = A1[:, keep] @ b, A0[:, keep] @ b
            # dropped columns only matter if the treated break the dependency
            if not full:
                both, _ = ref.indep_columns(np.vstack([A0, A1]))
                out["ok"] = out["ok"] and len(both) == len(keep)
            else:
                S = np.linalg.svd((A0 - 0) / np.linalg.norm(A0, axis=0), compute_uv=False)
                out["ok"] = out["ok"] and S[-1] > 1e-4 * S[0]
        if self.method in ("ipw", "dr"):
            d = np.concatenate([np.ones(n1), np.zeros(n0)])
            p = logit_mle(np.vstack([X1, X0]), d)
            if p is None or p.min() < 1e-3 or p.max() > 1 - 1e-3:
                out["ok"] = False
                out.update(att=np.nan, se=np.nan, psi1=np.zeros(n1), psi0=np.zeros(n0))
                return out
            p0 = np.clip(p[n1:], 0.01, 0.99)
            w = p0 / (1 - p0)
        if self.method == "reg":
            r1, r0 = d1 - m1, d0 - m0
            out.update(att=r1.mean(), se=np.sqrt(var1(r1) / n1 + var1(r0) / n0),
                       psi1=(r1 - r1.mean()) / n1, psi0=-r0 / n0)
        elif self.method == "ipw":
            w = w / w.sum()
            mu = w @ d0
            out.update(att=d1.mean() - mu, se=np.sqrt(var1(d1) / n1 + (w ** 2) @ (d0 - mu) ** 2),
                       psi1=(d1 - d1.mean()) / n1, psi0=-w * (d0 - mu))
        else:
            att = (d1 - m1).mean() + w @ (m0 - d0) / n1
            p1, p0_ = (d1 - m1 - att) / n1, w * (m0 - d0) / n1
            out.update(att=att, se=np.sqrt((p1 ** 2).sum() + (p0_ ** 2).sum()), psi1=p1, psi0=p0_)
        return out

    def psi(self, weights):
        """unit -> aggregated influence for a {(g,t): weight} combination"""
        tot = {}
        for gt, w in weights.items():
            c = self.cells[gt]
            for u, v in list(zip(c["tr"], c["psi1"])) + list(zip(c["co"], c["psi0"])):
                tot[u] = tot.get(u, 0.0) + w * v
        return tot

    def w_overall(self):
        post = {gt: c["n1"] for gt, c in self.cells.items() if gt[1] >= gt[0] - self.a}
        s = sum(post.values())
        return {gt: n / s for gt, n in post.items()}

    def w_event(self, balance_e=None):
        keep = set(self.groups)
        if balance_e is not None:
            keep = {g for (g, t) in self.cells if t - g == balance_e}
        by = {}
        for (g, t), c in self.cells.items():
            if g in keep:
                by.setdefault(t - g, {})[(g, t)] = c["n1"]
        return {e: {gt: n / sum(d.values()) for gt, n in d.items()} for e, d in by.items()}

    def w_group(self):
        by = {}
        for (g, t) in self.cells:
            if t >= g - self.a:
                by.setdefault(g, []).append((g, t))
        return {g: {gt: 1 / len(l) for gt in l} for g, l in by.items()}

    def value(self, weights):
        return sum(w * self.cells[gt]["att"] for gt, w in weights.items())

    def se(self, weights):
        return np.sqrt(sum(v ** 2 for v in self.psi(weights).values()))

    def se_overall(self):
        """with the contribution of estimating the group-size weights (R did::aggte wif)"""
        w = self.w_overall()
        psi = self.psi(w)
        units = list(psi)
        n = len(units)
        ks = list(w)
        pg = {g: sum(1 for c in self.cohort.values() if c == g) / n for g in {gt[0] for gt in ks}}
        S = sum(pg[gt[0]] for gt in ks)
        tot = 0.0
        for u in units:
            c = self.cohort[u]
            isum = sum((c == gt[0]) - pg[gt[0]] for gt in ks)
            wif = sum(((c == gt[0]) - pg[gt[0]]) / S * self.cells[gt]["att"] - isum * pg[gt[0]] / S ** 2 * self.cells[gt]["att"]
                      for gt in ks)
            tot += (psi[u] + wif / n) ** 2
        return np.sqrt(tot)
