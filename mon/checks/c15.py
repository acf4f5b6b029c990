"""C15: missing values are as if never observed."""
import numpy as np

from mon import dists, gen
from mon.core import Skip, dense
from mon.ref import COND_MAX, ShadowExact, gauss_logpdf
from mon.world import Pseudo, World, block_diag, cond_tol, grow

RULE = (
    "One case is a random model, one to three sets of observations of processes or Cartesian "
    "products of processes with a random (possibly empty) pattern of missing values, in every "
    "representation of inputs, values, and noise. Posteriors, densities, and ELBOs with NaNs "
    "are compared to the same with the values physically removed and to the shadow model; the "
    "selection of elements of a distribution is compared to the sub-matrix. Distinct by "
    "program and pattern."
)
ASSUMPTIONS = [
    "processes with multiple outputs are Cartesian products of the prior (see the known "
    "finding for scaled, shifted, and conditioned products)",
]
REQUIRED = {
    "judged:posterior with missing": 100, "judged:like removed": 80,
    "judged:density with missing": 80, "judged:pseudo-posterior with missing": 40,
    "judged:elbo with missing": 40, "judged:take": 100, "judged:take inputs": 60,
    "judged:normal with missing": 100, "judged:user arrays": 80, "set fully missing": 15,
    "several inputs of a product": 15, "nothing observed": 5,
    "multi-output": 30, "pattern:none": 10, "noise:matrix": 20, "noise:scalar": 10,
    "noise:vector": 10, "noise:struct-diag": 5, "noise:struct-dense": 5, "noise:none": 3,
}


def cases(tier, seed):
    n = 450 if tier == "quick" else 6000
    return [{"seed": seed, "i": i} for i in range(n)] + [{"finding": "derived"}]


def pattern(rng, n, keep_one=True):
    kind = ["none", "one", "some", "all-but-one", "first", "last", "block", "all"][
        rng.integers(8)]
    miss = np.zeros(n, bool)
    if kind == "one":
        miss[rng.integers(n)] = True
    elif kind == "some":
        miss = rng.random(n) < 0.4
    elif kind == "all-but-one":
        miss[:] = True
        miss[rng.integers(n)] = False
    elif kind == "first":
        miss[0] = True
    elif kind == "last":
        miss[-1] = True
    elif kind == "block":
        i = int(rng.integers(n))
        miss[i : i + int(rng.integers(1, n + 1))] = True
    elif kind == "all":
        miss[:] = True
    if keep_one and miss.all():
        miss[rng.integers(n)] = False
    return miss, kind


def run(case, ctx):
    if "finding" in case:
        return finding(ctx)
    rng = gen.rng_of("C15", case["seed"], case["i"])
    run_normal(ctx, rng)
    run_take(ctx, rng)
    run_model(case, ctx, rng)


def run_normal(ctx, rng):
    for _ in range(2):
        n = int(rng.integers(1, 7))
        d, m, S, desc = dists.normal(rng, n)
        y = (m[:, 0] + 2 * rng.standard_normal(n)).copy()
        miss, _ = pattern(rng, n, keep_one=rng.random() < 0.9)
        y[miss] = np.nan
        x = y.copy() if rng.random() < 0.5 else y[:, None].copy()
        x0 = x.copy()
        e = gauss_logpdf(y, m, S)
        ctx.close(d.logpdf(x), e, "normal with missing", 1e-8, max(1, abs(e)), what=desc, y=y)
        ctx.check(np.array_equal(x, x0, equal_nan=True), "user arrays", what=desc)


def run_take(ctx, rng):
    import lab as B

    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    w.base(m)
    grow(w, m, int(rng.integers(1, 4)))
    q = w.choice(w.procs)
    tup = q.measures[0] is m and rng.random() < 0.5
    if tup:
        r = w.choice([r for r in w.procs if r.din == q.din and r.measures[0] is m])
        c = w.cross([q, r])
        kinds = rng.integers(5)
        if kinds == 0:
            X = w.X(c, w.n(1, 4))
            x = gen.present(rng, X)
            blocks = [(pid, X) for pid in c.pids]
        elif kinds >= 3:
            # Several inputs, of which some name an output and others mean all.
            parts, x = several(w, rng, c, [q, r])
            blocks = [(a.pids[0], X) for a, X in parts]
        else:
            X, Y = w.X(q, w.n(1, 4)), w.X(r, w.n(1, 4))
            x = (q.p(gen.present(rng, X)), r.p(gen.present(rng, Y)))
            blocks = [(q.pids[0], X), (r.pids[0], Y)]
            if kinds == 2:
                Z = w.X(q, w.n(1, 3))
                x = x + (q.p(gen.present(rng, Z)),)
                blocks += [(q.pids[0], Z)]
        p = c.p
    else:
        X = w.X(q, w.n(1, 6))
        x = gen.present(rng, X)
        blocks, p = [(q.pids[0], X)], q.p
    meas = q.measures[0]
    n = sum(len(X) for _, X in blocks)
    arg, N, nk = gen.noise(rng, n)
    fdd = p(x, arg)
    if rng.random() < 0.3:
        fdd.mean_var  # Reading first must not matter.
    miss, _ = pattern(rng, n, keep_one=False)
    mask = ~miss
    for how in range(2):
        t = B.take(fdd, mask)
        mu = meas.shadow.bmean(blocks)[mask]
        V = (meas.shadow.bcov(blocks) + N)[np.ix_(mask, mask)]
        if not mask.any():
            # Nothing is left.
            ctx.check(dense(t.noise).shape == (0, 0), "take", noise=nk)
            break
        sc = max(1, np.abs(V).max(), np.abs(mu).max())
        tol = w.tol(meas)
        info = dict(x=str(x), mask=mask, noise=nk)
        ctx.close(t.mean, mu[:, None], "take", tol, sc, **info)
        ctx.close(t.var, V, "take", tol, sc, **info)
        a, b = B.take(fdd, mask).marginals()
        ctx.close(a, mu, "take", tol, sc, **info)
        ctx.close(b, np.maximum(np.diag(V), 0), "take", tol, sc, **info)
        ctx.close(t.noise, N[np.ix_(mask, mask)], "take", 1e-12, **info)
        ctx.check(t.p is p, "take", **info)
        if not tup:
            e = np.array(x)
            e = (e if e.ndim else e[None])[mask]
            ctx.check(np.array_equal(dense(t.x), e), "take inputs", got=t.x, **info)
        # The original is the same.
        ctx.close(fdd.noise, N, "take inputs", 1e-12, **info)
        ctx.check(fdd.x is x, "take inputs", **info)
        ctx.close(fdd.mean, meas.shadow.bmean(blocks)[:, None], "take inputs", tol, **info)


def several(w, rng, c, qs):
    """A tuple of inputs for the product `c` of `qs`."""
    parts, x = [], ()
    for _ in range(int(rng.integers(1, 4))):
        X = w.X(c, int(rng.integers(1, 4)))
        i = int(rng.integers(3))
        if i < 2:
            parts.append((qs[i], X))
            x += (qs[i].p(gen.present(rng, X)),)
        else:
            parts += [(q, X) for q in qs]
            x += (gen.present(rng, X),)
    return parts, x


def run_model(case, ctx, rng):
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    st = w.st
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)), post_ops=False)
    meas = m
    if rng.random() < 0.3:
        try:
            meas = w.condition(m, n_sets=1)
        except Skip:
            pass
    pool = [q for q in w.procs_in(meas) if q.measures[0] is m]
    singles = [q for q in w.procs_in(meas)]
    # Collect sets of observations.
    sets = []  # fdd, removed fdd, blocks, N, mask
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        q = w.choice(pool)
        if meas is m and rng.random() < 0.3:
            ctx.event("multi-output")
            r = w.choice([r for r in pool if r.din == q.din])
            c = w.cross([q, r])
            u = rng.random()
            if u < 0.4:
                X = w.X(c, w.n(1, 4))
                parts = [(q, X), (r, X)]
                x = gen.present(rng, X)
            elif u < 0.6:
                ctx.event("several inputs of a product")
                parts, x = several(w, rng, c, [q, r])
            else:
                parts = [(a, w.X(a, w.n(1, 4)))
                         for a in [q, r, q][: int(rng.integers(1, 4))]]
                x = tuple(a.p(gen.present(rng, X)) for a, X in parts)
            p = c.p
            w.procs.remove(c)
        else:
            c = None
            X = w.X(q, w.n(1, 6))
            parts, x, p = [(q, X)], gen.present(rng, X), q.p
        n = sum(len(X) for _, X in parts)
        arg, N, nk = gen.noise(rng, n, lo=0.1)
        if nk == "none" and rng.random() < 0.5:
            arg, N, nk = gen.noise(rng, n, ("scalar", "vector"), lo=0.1)
        miss, pk = pattern(rng, n, keep_one=False)
        ctx.event("pattern:" + pk)
        ctx.event("noise:" + nk)
        if miss.all():
            ctx.event("set fully missing")
        # Physically remove. Matrices must be dense: this is the oracle.
        rem, i = [], 0
        for a, X in parts:
            k = ~miss[i : i + len(X)]
            rem.append((a, X[k]))
            i += len(X)
        k = ~miss
        Nk = N[np.ix_(k, k)]
        xr = tuple(a.p(gen.present(rng, X), None) for a, X in rem if len(X))
        if c is None:
            fr = q.p(gen.present(rng, rem[0][1]), Nk) if k.any() else None
        else:
            fr = p(xr, Nk) if k.any() else None
        sets.append((p(x, arg), fr, [(a.pids[0], X) for a, X in parts], N, miss, (x, arg)))
    missing = np.concatenate([s[4] for s in sets])
    if missing.all():
        ctx.event("nothing observed")
    blocks = [b for s in sets for b in s[2]]
    N = block_diag([s[3] for s in sets])
    y = w.draw(meas.shadow, blocks, N)
    y[missing] = np.nan
    shadow = ShadowExact(meas.shadow, blocks, N, y)
    if shadow.cond > COND_MAX:
        raise Skip
    pairs, removed, i = [], [], 0
    args = []
    for f, fr, b, n, miss, (x, arg) in sets:
        yi = y[i : i + len(n)]
        i += len(n)
        ya = w.y_arg(yi)
        args.append((ya, np.array(ya), arg, None if arg is None else np.array(dense(arg))))
        pairs.append((f, ya))
        if fr is not None:
            removed.append((fr, w.y_arg(yi[~miss])))
    M = meas.real
    w.log("missing:", [s[4].astype(int).tolist() for s in sets])

    def cond(ps):
        how = rng.integers(3)
        if len(ps) == 1:
            return [lambda: M | ps[0], lambda: M.condition(*ps[0]),
                    lambda: M | st.Obs(*ps[0])][how]()
        return [lambda: M | tuple(ps), lambda: M.condition(*ps),
                lambda: M.condition(st.Obs(*ps))][how]()

    # Without any observations, the posterior is the prior.
    post, post_r = cond(pairs), cond(removed) if removed else M
    tol = max(cond_tol(shadow.cond), 1e-8)
    for _ in range(3):
        q, r = w.choice(singles), w.choice(singles)
        X, Y = w.X(q, w.n(1, 4)), w.X(r, w.n(1, 4))
        x, z = gen.present(rng, X), gen.present(rng, Y)
        e_m = shadow.mean(q.pids[0], X)[:, None]
        e_k = shadow.cov(q.pids[0], X, r.pids[0], Y)
        sc = max(1, np.abs(e_m).max(), np.abs(m.shadow.cov(q.pids[0], X, q.pids[0], X)).max()
                 if q.pids[0] in m.shadow else 1,
                 np.abs(m.shadow.cov(r.pids[0], Y, r.pids[0], Y)).max()
                 if r.pids[0] in m.shadow else 1)
        info = dict(process=q.label, other=r.label)
        gm, gk = post.means[q.p](x), post.kernels[q.p, r.p](x, z)
        ctx.close(gm, e_m, "posterior with missing", tol, sc, **info)
        ctx.close(gk, e_k, "posterior with missing", tol, sc, **info)
        ctx.close(gm, dense(post_r.means[q.p](x)), "like removed", tol, sc, **info)
        ctx.close(gk, dense(post_r.kernels[q.p, r.p](x, z)), "like removed", tol, sc, **info)
        ctx.close(post(q.p(x)).marginals()[0], e_m[:, 0], "posterior with missing", tol, sc,
                  **info)
    # Densities.
    e = gauss_logpdf(y, meas.shadow.bmean(blocks), meas.shadow.bcov(blocks) + N)
    t2 = max(1e-8, 10 * tol)
    sc = max(1, abs(e))
    ctx.close(M.logpdf(*pairs), e, "density with missing", t2, sc)
    if removed:
        ctx.close(M.logpdf(*pairs), dense(M.logpdf(*removed)), "like removed", t2, sc)
    ctx.close(M.logpdf(st.Obs(*pairs)), e, "density with missing", t2, sc)
    if len(pairs) == 1:
        f = pairs[0][0] if f.p.measure is M else M(pairs[0][0])
        ctx.close(f.logpdf(pairs[0][1]), e, "density with missing", t2, sc)
    # What the user gave is the same.
    for ya, ya0, arg, arg0 in args:
        ctx.check(np.array_equal(np.array(ya), ya0, equal_nan=True), "user arrays")
        if arg is not None:
            ctx.check(np.array_equal(dense(arg), arg0), "user arrays")
    # Pseudo-points.
    for _ in range(2):
        ps = Pseudo(w, meas)
        tot = 0
        for j, (q, X, arg, v, yj) in enumerate(ps.sets):
            miss, _ = pattern(rng, len(yj), keep_one=j == 0 and rng.random() < 0.8)
            yj[miss] = np.nan
        try:
            s = ps.shadow()
        except Skip:
            continue
        if s.cond > COND_MAX:
            continue
        obs = ps.real()
        tol = max(1e-7, 10 * cond_tol(s.cond))
        info = dict(what=ps.describe())
        ctx.close(obs.elbo(M), s.elbo, "elbo with missing", tol, max(1, abs(s.elbo)), **info)
        post = M | obs
        q = w.choice(singles)
        X = w.X(q, 2)
        x = gen.present(rng, X)
        e_m = s.mean(q.pids[0], X)[:, None]
        e_k = s.cov(q.pids[0], X, q.pids[0], X)
        sc = max(1, np.abs(e_m).max(), np.abs(meas.shadow.cov(q.pids[0], X, q.pids[0], X)).max())
        ctx.close(post.means[q.p](x), e_m, "pseudo-posterior with missing", tol, sc, **info)
        ctx.close(post.kernels[q.p](x), e_k, "pseudo-posterior with missing", tol, sc, **info)
    ctx.sig(w.ops)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops}


def finding(ctx):
    """Known finding: multi-output processes that are not Cartesian products."""
    import stheno as st

    x = np.linspace(0, 1, 3)
    y = np.array([0.1, np.nan, 0.3, 0.4, 0.5, np.nan])
    keep = ~np.isnan(y)
    K = np.exp(-0.5 * (x[:, None] - x[None]) ** 2)
    V = np.kron(np.diag([1.0, 2.0]), K)
    ctx.event("finding examined")
    for key, op, a in [
        ("missing-of-scaled-product", lambda c: 2 * c, 2.0),
        ("missing-of-shifted-product", lambda c: c.shift(1), 1.0),
        ("missing-of-conditioned-product", None, 1.0),
    ]:
        m = st.Measure()
        with m:
            f, g = st.GP(st.EQ()), st.GP(2 * st.EQ())
            c = st.cross(f, g)
            d = op(c) if op else c
        prior, W = m, V
        if not op:
            prior = m | (f(np.array([5.0]), 0.1), np.array([1.0]))
            d = prior(c)
            k = np.concatenate([np.exp(-0.5 * (x - 5) ** 2), np.zeros(3)])
            W = V - k[:, None] * k[None] / 1.1
            mu = k / 1.1
        else:
            mu = np.zeros(6)
        W = a**2 * W
        S = (W + 0.1 * np.eye(6))[np.ix_(keep, keep)]
        e = mu + W[:, keep] @ np.linalg.solve(S, y[keep] - mu[keep])
        try:
            got = dense((prior | (d(x, 0.1), y)).means[d](x))
        except Exception as ex:
            ctx.finding(key, f"conditioning fails: {ex!r}")
            continue
        ctx.close(got, e[:, None], "posterior with missing", 1e-8, key=key)
