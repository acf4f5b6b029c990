"""C21: products of processes match moments."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import World, cond_tol, grow

RULE = (
    "One case is a random model in which products of processes (independent, correlated, with "
    "themselves, of priors, posteriors, and in several measures at once) are constructed and "
    "used further; mean, variance, and covariance with other processes are compared with the "
    "moments of the true product of jointly Gaussian variables by Isserlis' theorem and, in "
    "some cases, by Monte Carlo. Distinct by program."
)
ASSUMPTIONS = [
    "the covariance between two different products is that of their linearisations",
]
REQUIRED = {
    "judged:product mean": 200, "judged:product variance": 200,
    "judged:covariance with product": 200, "judged:product marginals": 200,
    "judged:derived from product": 150, "judged:posterior of product": 50,
    "judged:monte carlo": 40, "square": 8, "correlated": 25, "in posterior": 15,
    "judged:commutes": 60, "judged:factors unchanged": 100,
}


def cases(tier, seed):
    n = 260 if tier == "quick" else 6000
    return [{"seed": seed, "i": i} for i in range(n)]


def moments(s, a, b, X):
    """Mean and covariance of the product of `a` and `b`."""
    m1, m2 = s.mean(a, X), s.mean(b, X)
    k11, k22, k12 = s.cov(a, X, a, X), s.cov(b, X, b, X), s.cov(a, X, b, X)
    mu = m1 * m2 + np.diag(k12)
    # cov(z1 z2, z3 z4) for jointly Gaussian variables.
    V = (
        k11 * k22 + k12 * k12.T
        + m1[:, None] * m1[None] * k22 + m2[:, None] * m2[None] * k11
        + m1[:, None] * m2[None] * k12.T + m2[:, None] * m1[None] * k12
    )
    return mu, V


def run(case, ctx):
    rng = gen.rng_of("C21", case["seed"], case["i"])
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 4))):
        w.base(m)
    grow(w, m, int(rng.integers(0, 4)))
    if rng.random() < 0.5:
        try:
            w.condition(m, n_sets=1, kinds=("scalar", "vector"), lo=0.2)
        except Skip:
            pass
    prods = []
    for _ in range(int(rng.integers(1, 3))):
        q = w.choice([q for q in w.procs])
        r = q if rng.random() < 0.25 else w.choice(w.partners(q))
        if q is r:
            ctx.event("square")
        if any(z.label.startswith("product") for z in w.procs) and rng.random() < 0.7:
            # Products of products have large moments: only sometimes.
            q = w.choice([z for z in w.procs if not z.label.startswith("product")])
            r = w.choice([z for z in w.partners(q) if not z.label.startswith("product")])
        base = len(w.procs)
        X0 = w.X(q, 2)
        meas0 = q.measures[0]
        k0 = dense(meas0.real.kernels[q.p, r.p](X0, X0)).copy()
        m0 = dense(meas0.real.means[q.p](X0)).copy()
        p = w.product(q, r)
        ctx.close(meas0.real.kernels[q.p, r.p](X0, X0), k0, "factors unchanged", 1e-10)
        ctx.close(meas0.real.means[q.p](X0), m0, "factors unchanged", 1e-10)
        prods.append((p, q, r))
        for meas in p.measures:
            s, M = meas.shadow, meas.real
            if meas is not p.measures[0]:
                ctx.event("in posterior")
            X = w.X(p, w.n(1, 4))
            x = gen.present(rng, X)
            mu, V = moments(s, q.pids[0], r.pids[0], X)
            tol = 10 * w.tol(meas)
            sc = max(1, np.abs(mu).max(), np.abs(V).max())
            info = dict(left=q.label, right=r.label, measure=meas.label, x=X)
            if np.abs(s.cov(q.pids[0], X, r.pids[0], X)).max() > 1e-3 and q is not r:
                ctx.event("correlated")
            ctx.close(M.means[p.p](x), mu[:, None], "product mean", tol, sc, **info)
            ctx.close(M.kernels[p.p](x), V, "product variance", tol, sc, **info)
            P = p.p if M is p.p.measure else M(p.p)
            a, b = P(x).marginals()
            ctx.close(a, mu, "product marginals", tol, sc, **info)
            ctx.close(b, np.maximum(np.diag(V), 0), "product marginals", tol, sc, **info)
            # With another process.
            o = w.choice([o for o in w.procs[:base] if meas in o.measures])
            Y = w.X(o, 2)
            y = gen.present(rng, Y)
            m1, m2 = s.mean(q.pids[0], X), s.mean(r.pids[0], X)
            c = (m1[:, None] * s.cov(r.pids[0], X, o.pids[0], Y)
                 + m2[:, None] * s.cov(q.pids[0], X, o.pids[0], Y))
            sc = max(sc, np.abs(c).max())
            ctx.close(M.kernels[p.p, o.p](x, y), c, "covariance with product", tol, sc,
                      other=o.label, **info)
            ctx.close(M.kernels[o.p, p.p](y, x), c.T, "covariance with product", tol, sc,
                      other=o.label, **info)
            if case["i"] % 3 == 0 and meas is p.measures[0]:
                n = len(X)
                J = s.bcov([(q.pids[0], X), (r.pids[0], X)])
                e, U = np.linalg.eigh((J + J.T) / 2)
                num = 100000
                z = U @ (np.sqrt(np.maximum(e, 0))[:, None]
                         * rng.standard_normal((2 * n, num)))
                z = z + s.bmean([(q.pids[0], X), (r.pids[0], X)])[:, None]
                t = z[:n] * z[n:]
                got = dense(M.means[p.p](x))[:, 0]
                err = np.abs(got - t.mean(1)) / (t.std(1) / np.sqrt(num) + 1e-7 * sc)
                ctx.check(err.max() < 7, "monte carlo", err=err, **info)
                vg = np.diag(dense(M.kernels[p.p](x)))
                d = (t - t.mean(1, keepdims=True)) ** 2
                err = np.abs(vg - d.mean(1)) / (d.std(1) / np.sqrt(num) + 1e-7 * sc)
                ctx.check(err.max() < 9, "monte carlo", err=err, **info)
    # The order of the factors does not matter.
    p, q, r = prods[0]
    p2 = r.p * q.p
    X = w.X(p, 2)
    sc = max(1, np.abs(dense(p.p.kernel(X))).max())
    ctx.close(p2.mean(X), dense(p.p.mean(X)), "commutes", 1e-8, sc)
    ctx.close(p2.kernel(X), dense(p.p.kernel(X)), "commutes", 1e-8, sc)
    # Use the products.
    for p, _, _ in prods:
        s = w.derive_random(p) if rng.random() < 0.5 else w.add(p, w.choice(w.partners(p)))
        for meas in s.measures[:2]:
            w.judge_mean(meas, s, w.X(s, 2), "derived from product", via="means")
            w.judge_cov(meas, s, s, w.X(s, 2), None, "derived from product")
            o = w.choice(w.procs_in(meas))
            w.judge_cov(meas, s, o, w.X(s, 2), w.X(o, 2), "derived from product")
    p = prods[0][0]
    meas = p.measures[0]
    if meas.shadow.cond < 100:
        obs = []
        f, b, N = w.fdd(p, n=2, kinds=("scalar",), lo=0.3)
        y = w.draw(meas.shadow, b, N)
        try:
            post = w.condition(meas, obs=[(f, b, N, y, p)])
        except Skip:
            return
        for q in (p, prods[0][1]):
            w.judge_mean(post, q, w.X(q, 2), "posterior of product", via="means")
            w.judge_cov(post, q, q, w.X(q, 2), None, "posterior of product")
    ctx.sig(w.ops)
    if case["i"] < 5:
        ctx.sample = {"program": w.ops}
