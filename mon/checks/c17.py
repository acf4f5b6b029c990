"""C17: batches act per slice."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import World, grow

RULE = (
    "One case draws batched inputs, values, means, and variances of batch rank one or two, "
    "evaluates every quantity of normals or of a random model once for the batch, and "
    "compares each slice with the same computation for that slice alone. Samples of a batch "
    "must follow the law of each slice, independently. Distinct by program and quantities."
)
ASSUMPTIONS = ["noise of a batch is shared (a number, vector, or matrix) or a batch of matrices"]
REQUIRED = {
    "judged:normal moments": 200, "judged:normal density": 100, "judged:normal divergence": 100,
    "judged:normal arithmetic": 200, "judged:normal sample law": 20, "judged:marginals": 100,
    "judged:process mean": 60, "judged:process variance": 60, "judged:process covariance": 60,
    "judged:process density": 60, "judged:process marginals": 60, "judged:posterior": 60,
    "judged:joint density": 30, "judged:pseudo-posterior": 30, "judged:elbo": 30,
    "judged:joint sample": 30, "judged:values batched only": 30, "batch rank 1": 10,
    "batch rank 2": 8, "judged:multi-output": 30, "judged:several sets": 30,
}


def cases(tier, seed):
    n = 90 if tier == "quick" else 6000
    return [{"seed": seed, "i": i, "kind": "normal" if i % 3 == 0 else "model"}
            for i in range(n)]


def run(case, ctx):
    rng = gen.rng_of("C17", case["seed"], case["i"])
    bs = [(2,), (3,), (1,), (2, 3), (2, 1), (1, 2), (4,)][rng.integers(7)]
    ctx.event(f"batch rank {len(bs)}")
    (run_normal if case["kind"] == "normal" else run_model)(case, ctx, rng, bs)


def slices(ctx, f, g, bs, name, tol=1e-8, **info):
    """Compare a batch `f()` with `g(index)` for all indices. Both give a value, or a tuple
    of values."""
    try:
        got = f()
    except Exception as e:
        ctx.event("judged:" + name)
        ctx.violate(name, problem=f"batch fails: {e!r}", batch=bs, **info)
        return
    got = got if isinstance(got, tuple) else (got,)
    for idx in np.ndindex(*bs):
        want = g(idx)
        want = want if isinstance(want, tuple) else (want,)
        for a, b in zip(got, want):
            a, b = dense(a), dense(b)
            sc = max(1, np.abs(b).max(initial=0))
            if a.ndim != b.ndim + len(bs) or a.shape[: len(bs)] != bs:
                # Quantities that do not depend on the batch may be shared.
                if a.shape == b.shape and info.get("shared"):
                    ctx.close(a, b, name, tol, sc, batch=bs, index=idx, **info)
                else:
                    ctx.event("judged:" + name)
                    ctx.violate(name, problem=f"shape {a.shape} for slices {b.shape}",
                                batch=bs, **info)
                    return
            else:
                ctx.close(a[idx], b, name, tol, sc, batch=bs, index=idx, **info)


def rand_normal(rng, bs, n):
    """Batch of normals. Returns function from index or `None` to normal, description."""
    from matrix import Diagonal
    from stheno import Normal

    kv = ["dense", "dense", "diag", "shared"][rng.integers(4)]
    A = rng.standard_normal(bs + (n, n + 2))
    S = A @ np.swapaxes(A, -1, -2) / (n + 2) + 0.3 * np.eye(n)
    v = rng.uniform(0.3, 1.5, bs + (n,))
    km = ["batch", "batch", "zero", "shared"][rng.integers(4)]
    m = rng.standard_normal(bs + (n, 1))
    ms = rng.standard_normal((n, 1))
    lazy = rng.random() < 0.5
    if kv == "shared":
        km = "batch"
        S0 = S[(0,) * len(bs)]

    def make(idx):
        at = lambda z: z if idx is None else z[idx]
        V = {"dense": lambda: at(S), "diag": lambda: Diagonal(at(v)),
             "shared": lambda: S0 if idx is not None else S0}[kv]()
        M = {"batch": lambda: at(m), "zero": lambda: 0, "shared": lambda: ms}[km]()
        if lazy:
            return Normal(lambda: M, lambda: V)
        return Normal(M, V)

    mean = np.broadcast_to({"batch": m, "zero": 0 * m, "shared": ms}[km], bs + (n, 1))
    diag = v[..., :, None] * np.eye(n)
    var = np.broadcast_to({"dense": S, "diag": diag,
                           "shared": S[(0,) * len(bs)]}[kv], bs + (n, n))
    return make, f"{km}/{kv}/{'lazy' if lazy else 'value'}", mean, var


def run_normal(case, ctx, rng, bs):
    import lab as B

    for _ in range(3):
        n = int(rng.integers(1, 5))
        a, da, ma, va = rand_normal(rng, bs, n)
        b, db, mb, vb = rand_normal(rng, bs, n)
        info = dict(left=da, right=db, n=n)
        sh = "shared" in da or "zero" in da
        y = rng.standard_normal(bs + (n, 1))
        Y = rng.standard_normal(bs + (n, 3))
        S = lambda f, name, tol=1e-8, **kw: slices(
            ctx, lambda: f(None), f, bs, name, tol, **{**info, **kw})
        S(lambda i: a(i).var, "normal moments", shared="shared" in da)
        S(lambda i: a(i).mean, "normal moments", shared=sh)
        S(lambda i: a(i).mean_var, "normal moments", shared=sh)
        S(lambda i: a(i).var_diag, "normal moments", shared=sh)
        S(lambda i: a(i).m2, "normal moments", shared=sh)
        S(lambda i: a(i).marginals(), "marginals", shared=sh)
        S(lambda i: a(i).marginal_credible_bounds(), "marginals", shared=sh)
        S(lambda i: a(i).diagonalise().var, "normal moments", shared=sh)
        S(lambda i: a(i).entropy(), "normal density", shared=sh)
        at = lambda z, i: z if i is None else z[i]
        S(lambda i: a(i).logpdf(at(y, i)), "normal density")
        S(lambda i: a(i).logpdf(at(Y, i)), "normal density")
        ok = "shared" not in da and "shared" not in db
        S(lambda i: a(i).kl(b(i)), "normal divergence", shared=not ok)
        S(lambda i: a(i).w2(b(i)), "normal divergence", 1e-6, shared=not ok)
        S(lambda i: (a(i) + b(i)).mean, "normal arithmetic", shared=True)
        S(lambda i: (a(i) + b(i)).var, "normal arithmetic", shared=True)
        S(lambda i: (a(i) - 2 * b(i)).var, "normal arithmetic", shared=True)
        S(lambda i: (1 - a(i)).mean, "normal arithmetic", shared=True)
        S(lambda i: (a(i) / 2).var, "normal arithmetic", shared=True)
        S(lambda i: (a(i) + at(y, i)).mean, "normal arithmetic", shared=True)
        M = rng.standard_normal((2, n))
        Mb = rng.standard_normal(bs + (2, n))
        S(lambda i: a(i).lmatmul(M).mean, "normal arithmetic", shared=True)
        S(lambda i: a(i).lmatmul(M).var, "normal arithmetic", shared=True)
        S(lambda i: a(i).lmatmul(at(Mb, i)).var, "normal arithmetic")
        S(lambda i: a(i).rmatmul(M.T).var, "normal arithmetic", shared=True)
        S(lambda i: a(i).rmatmul(np.swapaxes(at(Mb, i), -1, -2)).var, "normal arithmetic")
        ctx.check(int(a(None).dim) == n, "normal moments", what="dim", **info)
        # Samples.
        if case["i"] % 2 == 0:
            from mon.checks.c08 import distribution, state

            N = 8000
            noise = None if rng.random() < 0.5 else 0.4
            _, s = a(None).sample(state(B, int(rng.integers(1000))), N, noise=noise)
            shape = bs + (n, N)
            if "shared" not in da or "batch" in da:
                ok = ctx.check(s.shape == (bs + (n, N)) or "shared" in da,
                               "normal sample law", got=s.shape, **info)
            if s.shape == shape:
                add = 0 if noise is None else noise * np.eye(n)
                idxs = list(np.ndindex(*bs))
                for i in idxs[:3]:
                    distribution(ctx, s[i], ma[i], va[i] + add, "normal sample law", **info)
                if len(idxs) > 1 and "shared" not in da.split("/")[1]:
                    # Slices are independent.
                    i, j = idxs[0], idxs[-1]
                    Z = np.concatenate([s[i], s[j]])
                    z0 = np.zeros((n, n))
                    V = np.block([[va[i] + add, z0], [z0, va[j] + add]])
                    distribution(ctx, Z, np.concatenate([ma[i], ma[j]]), V,
                                 "normal sample law", what_d="independence", **info)
        ctx.sig(da, db, n, bs)
    if case["i"] < 6:
        ctx.sample = {"batch": bs, "left": da, "right": db}


def run_model(case, ctx, rng, bs):
    import lab as B
    import stheno as st

    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m, din=w.D)
    for _ in range(int(rng.integers(1, 5))):
        q = w.choice([q for q in w.procs])
        if rng.random() < 0.3:
            w.add(q, w.choice(w.partners(q)))
        elif rng.random() < 0.15:
            w.product(q, w.choice(w.partners(q)))
        else:
            w.derive_random(q, ["scale", "neg", "addc", "addf", "mulf", "shift", "stretch",
                                "transform", "select"])
    M = m.real
    at = lambda z, i: z if i is None else z[i]

    def X(q, n):
        out = np.zeros(bs + (n, q.din))
        for i in np.ndindex(*bs):
            out[i] = w.X(q, n)
        return out

    q, r = w.choice(w.procs), w.choice(w.procs)
    same = [o for o in w.procs if o.din == q.din]
    n = int(rng.integers(1, 4))
    x, xn = X(q, n), X(r, int(rng.integers(1, 4)))
    y = rng.standard_normal(bs + (n, 1))
    kn = ["scalar", "vector", "matrix", "struct"][rng.integers(4)]
    noise, N, _ = gen.noise(rng, n, (kn,), lo=0.3, hi=1)
    if kn == "matrix" and rng.random() < 0.5:
        noise = np.stack([gen.spd(rng, n, 0.5) + 0.2 * np.eye(n)
                          for _ in range(int(np.prod(bs)))]).reshape(bs + (n, n))
        nat = at
    else:
        nat = lambda z, i: z
    dn, dv = gen.noise(rng, n, ("scalar", "vector"), lo=0.3, hi=1)[:2]
    info = dict(left=q.label, right=r.label, noise=kn)

    def S(f, name, tol=1e-7, **kw):
        slices(ctx, lambda: f(None), f, bs, name, tol, **{**info, **kw})

    S(lambda i: q.p(at(x, i)).mean, "process mean")
    S(lambda i: q.p(at(x, i), nat(noise, i)).var, "process variance")
    S(lambda i: q.p(at(x, i), nat(noise, i)).mean_var, "process variance")
    S(lambda i: q.p(at(x, i), nat(noise, i)).marginals(), "process marginals")
    S(lambda i: q.p(at(x, i), dn).marginal_credible_bounds(), "process marginals")
    S(lambda i: q.p.kernel.elwise(at(x, i)), "process marginals")
    S(lambda i: M.kernels[q.p, r.p](at(x, i), at(xn, i)), "process covariance")
    S(lambda i: M.kernels[r.p, q.p](at(xn, i), at(x, i)), "process covariance")
    S(lambda i: q.p(at(x, i), nat(noise, i)).logpdf(at(y, i)), "process density")
    S(lambda i: M.logpdf(q.p(at(x, i), nat(noise, i)), at(y, i)), "process density")
    # Joint.
    xs = X(r, 2)
    ys = rng.standard_normal(bs + (2, 1))
    pairs = lambda i: ((q.p(at(x, i), nat(noise, i)), at(y, i)), (r.p(at(xs, i), 0.5), at(ys, i)))
    batched_noise = nat is at
    if not batched_noise:
        S(lambda i: M.logpdf(*pairs(i)), "joint density")
        pp = lambda i: M | pairs(i)
        S(lambda i: pp(i)(r.p)(at(xn, i)).mean, "several sets")
        S(lambda i: pp(i)(r.p)(at(xn, i)).var, "several sets")
    # Posterior.
    post = lambda i: M | (q.p(at(x, i), nat(noise, i)), at(y, i))
    S(lambda i: post(i)(r.p)(at(xn, i)).mean, "posterior")
    S(lambda i: post(i)(r.p)(at(xn, i), 0.1).var, "posterior")
    S(lambda i: post(i)(r.p)(at(xn, i)).marginals(), "posterior")
    yn = rng.standard_normal(bs + (xn.shape[-2], 1))
    S(lambda i: post(i)(r.p)(at(xn, i), 0.2).logpdf(at(yn, i)), "posterior")
    # Only the values are batched.
    x0 = x[(0,) * len(bs)]
    xn0 = xn[(0,) * len(bs)]
    n0 = noise if nat is not at else noise[(0,) * len(bs)]
    S(lambda i: q.p(x0, n0).logpdf(at(y, i)), "values batched only")
    S(lambda i: (M | (q.p(x0, n0), at(y, i)))(r.p)(xn0).mean, "values batched only")
    # Pseudo-points.
    z = X(r, 2)
    for cls in (st.PseudoObs, st.PseudoObsFITC, st.PseudoObsDTC):
        # The inducing points have noise so that they are well conditioned.
        u = lambda i: r.p(at(z, i), 0.2)
        obs = lambda i: cls(u(i), q.p(at(x, i), dn), at(y, i))
        S(lambda i: obs(i).elbo(M), "elbo", 1e-6, cls=cls.__name__)
        S(lambda i: (M | obs(i))(r.p)(at(xn, i)).mean, "pseudo-posterior", 1e-6,
          cls=cls.__name__)
        S(lambda i: (M | obs(i))(q.p)(at(x, i)).var, "pseudo-posterior", 1e-6,
          cls=cls.__name__)
    # Multiple outputs.
    o = w.choice(same)
    c = st.cross(q.p, o.p)
    S(lambda i: c(at(x, i), 0.2).var, "multi-output")
    S(lambda i: c(at(x, i), 0.2).mean, "multi-output")
    S(lambda i: c(at(x, i), 0.2).marginals(), "multi-output")
    y2 = rng.standard_normal(bs + (2 * n, 1))
    S(lambda i: c(at(x, i), 0.3).logpdf(at(y2, i)), "multi-output")
    S(lambda i: (M | (c(at(x, i), 0.3), at(y2, i)))(r.p)(at(xn, i)).mean, "multi-output")
    # Joint samples.
    num = 2 if case["i"] % 4 else 6000
    from mon.checks.c08 import distribution, state

    res = M.sample(state(B, int(rng.integers(1000))), num, q.p(x, n0), r.p(xs, 0.5))
    a, b = res[1:]
    ok = ctx.check(a.shape == bs + (n, num) and b.shape == bs + (2, num), "joint sample",
                   got=(a.shape, b.shape), **info)
    if num > 100 and ok:
        from mon.world import block_diag

        for i in list(np.ndindex(*bs))[:2]:
            bl = [(q.pids[0], x[i]), (r.pids[0], xs[i])]
            n0d = np.eye(n) * n0 if np.ndim(dense(n0)) == 0 else (
                np.diag(n0) if np.ndim(dense(n0)) == 1 else dense(n0))
            V = m.shadow.bcov(bl) + block_diag([n0d, 0.5 * np.eye(2)])
            distribution(ctx, np.concatenate([a[i], b[i]]), m.shadow.bmean(bl), V,
                         "joint sample", **info)
    ctx.sig(w.ops, bs, kn)
    if case["i"] < 6:
        ctx.sample = {"batch": bs, "program": w.ops}
