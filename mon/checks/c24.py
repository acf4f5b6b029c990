"""C24: representations of noise are equivalent and preserved."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.ref import COND_MAX, ShadowExact, gauss_logpdf
from mon.world import World, block_diag, cond_tol, grow

RULE = (
    "One case is a random model and an observation noise in all its representations (number, "
    "integer, zero-dimensional array, vector, matrix, every structured matrix with the same "
    "value, and a white-noise process); distributions, densities, posteriors, joint "
    "distributions, and transfers to other measures with one representation are compared to "
    "the others and to the shadow model. Distinct by program and noise."
)
ASSUMPTIONS = ["representations with the same value, positive definite or zero"]
REQUIRED = {
    "judged:noise": 500, "judged:variance": 500, "judged:mean": 500, "judged:marginals": 500,
    "judged:density": 300, "judged:posterior": 300, "judged:transfer": 200,
    "judged:joint": 100, "judged:white-noise process": 60, "judged:pseudo-points": 60,
    "judged:user arrays": 300, "spec:none": 8, "spec:scalar": 40, "spec:vector": 40,
    "spec:matrix": 10, "spec:low-rank": 8,
}


def cases(tier, seed):
    n = 500 if tier == "quick" else 5000
    return [{"seed": seed, "i": i} for i in range(n)]


def representations(rng, n):
    """Returns kind, NumPy matrix, list of representations."""
    import lab as B
    from matrix import Constant, Dense, Diagonal, LowRank, Zero

    kind = ["none", "scalar", "scalar", "vector", "vector", "matrix", "low-rank"][
        rng.integers(7)]
    s = float(np.round(rng.uniform(0.1, 0.8), 3))
    v = np.round(rng.uniform(0.1, 0.8, n), 3)
    if kind == "none":
        N = np.zeros((n, n))
        return kind, N, [("None", None), ("0", 0), ("0.0", 0.0), ("zeros", np.zeros(n)),
                         ("zeros2", N.copy()), ("Zero", Zero(np.float64, n, n)),
                         ("Diagonal0", Diagonal(np.zeros(n)))]
    if kind == "scalar":
        if rng.random() < 0.3:
            s = int(rng.integers(1, 3))
        N = float(s) * np.eye(n)
        reps = [("number", s), ("array0", np.array(float(s))), ("np.float64", np.float64(s)),
                ("vector", np.full(n, float(s))), ("matrix", N.copy()), ("Dense", Dense(N)),
                ("Diagonal", Diagonal(np.full(n, float(s)))),
                ("fill_diag", B.fill_diag(float(s), n)), ("float", float(s))]
        return kind, N, reps
    if kind == "vector":
        N = np.diag(v)
        return kind, N, [("vector", v.copy()), ("matrix", N.copy()), ("Dense", Dense(N)),
                         ("Diagonal", Diagonal(v.copy()))]
    if kind == "matrix":
        N = gen.spd(rng, n, s)
        return kind, N, [("matrix", N.copy()), ("Dense", Dense(N.copy()))]
    L = np.round(0.5 * rng.standard_normal((n, 1)), 2)
    N = np.diag(v) + L @ L.T
    return kind, N, [("matrix", N.copy()), ("Dense", Dense(N)),
                     ("Woodbury", Diagonal(v) + LowRank(L)), ("sum", Diagonal(v) + Dense(L @ L.T))]


def run(case, ctx):
    import stheno as st

    rng = gen.rng_of("C24", case["seed"], case["i"])
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)), post_ops=False)
    if rng.random() < 0.3:
        try:
            w.condition(m, n_sets=1)
        except Skip:
            pass
    qs = [q for q in w.procs if q.measures[0] is m]
    q = w.choice(qs)
    multi = rng.random() < 0.2
    if multi:
        q = w.cross([q, w.choice([r for r in qs if r.din == q.din])])
    X = w.X(q, w.n(1, 5))
    blocks = [(pid, X) for pid in q.pids]
    n = len(X) * len(q.pids)
    kind, N, reps = representations(rng, n)
    ctx.event("spec:" + kind)
    mu, K = m.shadow.bmean(blocks), m.shadow.bcov(blocks)
    V = K + N
    sc = max(1, np.abs(mu).max(), np.abs(V).max())
    tol = 1e-8
    y = w.draw(m.shadow, blocks, N + 1e-2 * np.eye(n))
    ev = np.linalg.eigvalsh(V)
    good = ev[0] > 0 and max(1, ev[-1]) / ev[0] < COND_MAX
    e_lp = gauss_logpdf(y, mu, V) if good else None
    shadow = ShadowExact(m.shadow, blocks, N, y) if good else None
    r = w.choice(qs)
    Z = w.X(r, 2)
    z = gen.present(rng, Z)
    x = gen.present(rng, X)
    # Something to be joint with.
    Xr = w.X(r, w.n(1, 3))
    arg2, N2, _ = gen.noise(rng, len(Xr), ("none", "scalar", "vector", "matrix"))
    for k in rng.permutation(len(reps)):
        label, a = reps[k]
        before = None if a is None else dense(a).copy()
        info = dict(process=q.label, spec=kind, representation=label)
        how = rng.integers(4)
        if how == 0 and a is None:
            d = q.p(x)
        elif how == 1:
            d = st.FDD(q.p, x, a) if a is not None else st.FDD(q.p, x)
        elif how == 2:
            d = q.p(x, noise=a)
        else:
            d = q.p(x, a)
        order = list(rng.permutation(6))
        for o in order:
            if o == 0:
                ctx.close(d.noise, N, "noise", 1e-12, **info)
            elif o == 1:
                ctx.close(d.var, V, "variance", tol, sc, **info)
                ctx.close(d.var_diag, np.diag(V), "variance", tol, sc, **info)
            elif o == 2:
                ctx.close(d.mean, mu[:, None], "mean", tol, sc, **info)
            elif o == 4:
                a1, a2 = d.mean_var
                ctx.close(a1, mu[:, None], "mean", tol, sc, **info)
                ctx.close(a2, V, "variance", tol, sc, **info)
            elif o == 5:
                a1, lower, upper = d.marginal_credible_bounds()
                err = 1.96 * np.sqrt(np.maximum(np.diag(V), 0))
                # The root of a rounding error.
                t = 1e-4 if np.diag(V).min() < 1e-4 else 1e-7
                ctx.close(a1, mu, "marginals", tol, sc, **info)
                ctx.close(lower, mu - err, "marginals", t, sc, **info)
                ctx.close(upper, mu + err, "marginals", t, sc, **info)
            else:
                a1, a2 = d.marginals()
                ctx.close(a1, mu, "marginals", tol, sc, **info)
                ctx.close(a2, np.maximum(np.diag(V), 0), "marginals", tol, sc, **info)
        if good:
            ctx.close(d.logpdf(y), e_lp, "density", tol, max(1, abs(e_lp)), **info)
            if rng.random() < 0.5:
                ctx.close(m.real.logpdf(q.p(x, a), y), e_lp, "density", tol,
                          max(1, abs(e_lp)), **info)
            t = max(tol, cond_tol(shadow.cond))
            post = m.real | (q.p(x, a), w.y_arg(y))
            e_m = shadow.mean(r.pids[0], Z)[:, None]
            e_k = shadow.cov(r.pids[0], Z, r.pids[0], Z)
            big = max(1, np.abs(e_m).max(),
                      np.abs(m.shadow.cov(r.pids[0], Z, r.pids[0], Z)).max())
            ctx.close(post.means[r.p](z), e_m, "posterior", t, big, **info)
            ctx.close(post.kernels[r.p](z), e_k, "posterior", t, big, **info)
            # Transfer to the posterior: everything but the measure is preserved.
            d2 = post(d)
            ctx.check(d2.x is d.x, "transfer", **info)
            ctx.close(d2.noise, N, "transfer", 1e-12, **info)
            ctx.check(d2.p.measure is post, "transfer", **info)
            e = shadow.bcov(blocks) + N
            ctx.close(d2.var, e, "transfer", t, sc, **info)
            ctx.close(d2.mean, shadow.bmean(blocks)[:, None], "transfer", t, sc, **info)
        d3 = m.real(d)
        ctx.check(d3.x is d.x, "transfer", **info)
        ctx.close(d3.var, V, "transfer", tol, sc, **info)
        # Joint distribution.
        if rng.random() < 0.5:
            parts = [d, r.p(gen.present(rng, Xr), arg2)]
            bl = blocks + [(r.pids[0], Xr)]
            NN = block_diag([N, N2])
            if rng.random() < 0.5:
                parts = parts[::-1]
                bl = bl[-1:] + blocks
                NN = block_diag([N2, N])
            j = st.combine(*parts) if hasattr(st, "combine") else None
            if j is not None:
                ctx.close(j.var, m.shadow.bcov(bl) + NN, "joint", tol, sc * 3, **info)
                ctx.close(j.noise, NN, "joint", 1e-12, **info)
        # The distribution that was used is the same.
        ctx.close(d.noise, N, "noise", 1e-12, **info)
        ctx.close(d.var, V, "variance", tol, sc, **info)
        ctx.check(d.p is q.p and d.x is x, "noise", **info)
        if before is not None:
            ctx.check(np.array_equal(dense(a), before), "user arrays", **info)
        # Diagonal representations are equivalent for pseudo-points.
        if kind in ("scalar", "vector") and label not in ("matrix", "Dense") and not multi:
            u = q.p(x, 0.3)
            cls = [st.PseudoObs, st.PseudoObsFITC, st.PseudoObsDTC][case["i"] % 3]
            obs = cls(u, q.p(x, a), y)
            name = cls.__name__
            from mon.ref import ShadowPseudo

            try:
                s = ShadowPseudo(m.shadow, blocks, 0.3 * np.eye(n), blocks, np.diag(N), y,
                                 {"PseudoObservations": "vfe", "PseudoObservationsFITC":
                                  "fitc", "PseudoObservationsDTC": "dtc"}[name])
            except Skip:
                continue
            if s.cond < COND_MAX:
                ctx.close(obs.elbo(m.real), s.elbo, "pseudo-points", 1e-7,
                          max(1, abs(s.elbo)), **info)
    # A process of white noise is equivalent at distinct inputs.
    if kind == "scalar" and good and not multi:
        s = float(N[0, 0])
        e = st.GP(s * st.Delta(), measure=m.real)
        obs = q.p + e
        d = obs(x)
        ctx.close(d.var, V, "white-noise process", tol, sc, process=q.label)
        ctx.close(d.logpdf(y), e_lp, "white-noise process", tol, max(1, abs(e_lp)))
        post = m.real | (obs(x), y)
        ctx.close(post.means[r.p](z), shadow.mean(r.pids[0], Z)[:, None],
                  "white-noise process", max(tol, cond_tol(shadow.cond)),
                  max(1, np.abs(shadow.mean(r.pids[0], Z)).max()), process=q.label)
    ctx.sig(w.ops, kind, n)
    if case["i"] < 5:
        ctx.sample = {"program": w.ops, "noise": kind, "n": n}
