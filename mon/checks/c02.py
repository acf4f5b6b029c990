"""C02: everything is a joint Gaussian: covariances are consistent, symmetric, positive."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import Pseudo, World, grow

RULE = (
    "One case is a random model with a prior, exact posteriors (also repeated), and "
    "pseudo-point posteriors; for random collections of processes and hostile inputs "
    "(repeated, nearly coincident, far away), the joint covariance assembled block by block "
    "is checked for transposition consistency, positive semi-definiteness, agreement of the "
    "diagonal with element-wise evaluation, agreement with the joint distribution, and for "
    "variance that only shrinks with data. Distinct by program."
)
ASSUMPTIONS = [
    "float64; noise of observations at least 1e-3; eigenvalues and differences judged to "
    "1e-8 of the largest prior variance",
]
REQUIRED = {
    "judged:transposed": 300,
    "judged:positive semi-definite": 100,
    "judged:diagonal": 200,
    "judged:joint distribution": 60,
    "judged:data does not increase variance": 100,
    "judged:marginals": 100,
    "kind:prior": 20, "kind:exact": 60, "kind:pseudo": 30,
}


def cases(tier, seed):
    n = 200 if tier == "quick" else 5000
    return [{"seed": seed, "i": i} for i in range(n)]


def hostile(rng, n, D):
    """Inputs with repeats, nearly coincident points, and points far away."""
    X = gen.inputs(rng, n, D)
    for i in range(1, n):
        r = rng.random()
        if r < 0.2:
            X[i] = X[rng.integers(i)]
        elif r < 0.35:
            X[i] = X[rng.integers(i)] + 1e-7 * rng.standard_normal(D)
        elif r < 0.45:
            X[i] *= 10
    return X


class NoShadow:
    """The shadow is not needed: all judgements are about consistency."""

    def define(self, pid, node):
        pass


def judge(w, ctx, meas, kind, below=None):
    rng, M = w.rng, meas.real
    info = dict(measure=meas.label)
    ctx.event("kind:" + kind)
    procs = w.procs_in(meas)
    ps = [w.choice(procs) for _ in range(int(rng.integers(1, 4)))]
    Xs = [hostile(rng, int(rng.integers(1, 5)), q.din) for q in ps]
    if len(ps) > 1 and ps[0].din == ps[1].din and rng.random() < 0.4:
        Xs[1] = Xs[0]
    xs = [gen.present(rng, X) for X in Xs]

    def blocks(M):
        return [
            [dense(M.kernels[a.p, b.p](x, y)) for b, y in zip(ps, xs)]
            for a, x in zip(ps, xs)
        ]

    B_ = blocks(M)
    # Rounding errors are relative to the variances before any subtraction.
    scale = 3.0
    for a, x in zip(ps, xs):
        for z in {w.measures[0], meas, below or meas}:
            if z in a.measures:
                scale = max(scale, np.abs(dense(z.real.kernels[a.p].elwise(x))).max())
    info["processes"] = [q.label for q in ps]
    tol = 1e-8
    for i in range(len(ps)):
        for j in range(len(ps)):
            ctx.check(B_[i][j].shape == (len(Xs[i]), len(Xs[j])), "block shape", **info)
            ctx.close(B_[i][j], B_[j][i].T, "transposed", tol, scale, i=i, j=j, **info)
        ctx.close(M.kernels[ps[i].p].elwise(xs[i]), np.diag(B_[i][i])[:, None], "diagonal",
                  tol, scale, **info)
        if not np.isscalar(xs[i]):
            # Element-wise evaluation between different processes.
            j = int(rng.integers(len(ps)))
            if ps[j].din == ps[i].din:
                e = np.diag(dense(M.kernels[ps[i].p, ps[j].p](xs[i], xs[i])))[:, None]
                ctx.close(M.kernels[ps[i].p, ps[j].p].elwise(xs[i], xs[i]), e, "diagonal",
                          tol, scale, **info)
    K = np.block(B_)
    s = np.linalg.eigvalsh((K + K.T) / 2)
    ctx.check(s.min() >= -tol * scale * len(K), "positive semi-definite", smallest=s.min(),
              scale=scale, **info)
    # The joint distribution.
    if all(q.measures[0] is ps[0].measures[0] for q in ps):
        if len(ps) > 1:
            from stheno import cross

            c = cross(*[q.p for q in ps])
            d = M(c(tuple(q.p(x) for q, x in zip(ps, xs))))
        else:
            d = M(ps[0].p(xs[0]))
        ctx.close(d.var, K, "joint distribution", tol, scale, **info)
        e = np.concatenate([dense(M.means[q.p](x)) for q, x in zip(ps, xs)])
        ctx.close(d.mean, e, "joint distribution", tol, max(scale, np.abs(e).max()), **info)
    # Marginal variances are never negative, and bounds are ordered and finite.
    q, x, X = ps[0], xs[0], Xs[0]
    d = M(q.p)(x)
    m, v = d.marginals()
    ctx.check(np.all(dense(v) >= 0), "marginals", v=v, **info)
    ctx.close(v, np.maximum(np.diag(B_[0][0]), 0), "marginals", tol, scale, **info)
    m, lo, hi = M(q.p)(x).marginal_credible_bounds()
    ok = np.isfinite(lo).all() and np.isfinite(hi).all() and np.all(lo <= m) and np.all(m <= hi)
    ctx.check(ok, "marginals", m=m, lo=lo, hi=hi, **info)
    # Data only reduces uncertainty.
    if below is not None:
        P = np.block(blocks(below.real))
        s = np.linalg.eigvalsh((P + P.T - K - K.T) / 2)
        ctx.check(s.min() >= -10 * tol * scale * len(K),
                  "data does not increase variance", smallest=s.min(), **info)
        a, b = np.diag(P), np.diag(K)
        ctx.check(np.all(b <= a + tol * scale), "data does not increase variance", prior=a,
                  posterior=b, **info)


def run(case, ctx):
    rng = gen.rng_of("C02", case["seed"], case["i"])
    D = int(rng.choice([1, 1, 2, 2, 3]))
    w = World(rng, D, ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 6)))
    if rng.random() < 0.4:
        judge(w, ctx, m, "prior")
    for i in range(int(rng.integers(1, 3))):
        meas = w.choice(w.measures) if rng.random() < 0.5 else m
        if rng.random() < 0.6:
            # Hostile observations, which the shadow is not needed for.
            q0 = w.choice([q for q in w.procs_in(meas)])
            pool = [r for r in w.procs_in(meas) if r.measures[0] is q0.measures[0]]
            pairs = []
            for _ in range(int(rng.integers(1, 3))):
                q = q0 if not pairs else w.choice(pool)
                X = hostile(rng, int(rng.integers(1, 5)), q.din)
                arg, N, _ = gen.noise(rng, len(X), ("scalar", "vector", "matrix"),
                                      lo=1e-3, hi=0.3)
                pairs.append((q.p(gen.present(rng, X), arg), rng.standard_normal(len(X))))
            real = meas.real | tuple(pairs)
            new = w.posterior(real, NoShadow(), meas, f"{meas.label} | {len(pairs)} sets")
            judge(w, ctx, new, "exact", below=meas)
        else:
            if isinstance(meas.shadow, NoShadow):
                meas = m
            ps = Pseudo(w, meas)
            w.log(ps.describe())
            try:
                s = ps.shadow()
            except Skip:
                continue
            if s.cond > 1e6:
                continue
            new = w.posterior(meas.real | ps.real(), NoShadow(), meas,
                              f"{meas.label} | {ps.describe()}")
            judge(w, ctx, new, "pseudo", below=meas)
        if rng.random() < 0.4:
            grow(w, m, 2)
            judge(w, ctx, w.measures[-1], "extended")
    ctx.sig(w.ops)
    if case["i"] < 5:
        ctx.sample = {"program": w.ops, "judgements": ctx.events.total()}
