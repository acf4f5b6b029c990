"""C08: samples."""
import numpy as np

from mon import dists, gen
from mon.core import Skip, dense
from mon.world import World, block_diag, grow

RULE = (
    "One case is a random normal or a random model with joint finite-dimensional "
    "distributions under the prior or a posterior; samples are drawn through every call "
    "form. Whitened with the known mean and covariance, tens of thousands of samples must "
    "have zero mean, unit covariance, unit-variance projections with the right fourth moment, "
    "and independent columns (all within 6.5 (fourth moment: 11) standard errors, with fixed seeds); shapes, "
    "reproducibility, threading of the random state, and the split of joint samples are "
    "judged exactly. Distinct by program."
)
ASSUMPTIONS = ["statistical judgements have threshold 6.5 standard errors, seeds are fixed"]
REQUIRED = {
    "judged:distribution": 150,
    "judged:shape": 150,
    "judged:reproducible": 150,
    "judged:state advances": 100,
    "judged:joint split": 60,
    "judged:joint distribution": 40,
    "judged:global state": 60,
    "judged:call form": 60,
    "judged:backend distribution": 60,
    "judged:backend independent draws": 60,
    "judged:backend reproducible": 30,
    "judged:backend type": 60, "judged:backend global state": 90,
}


def cases(tier, seed):
    n = 260 if tier == "quick" else 5000
    return [{"seed": seed, "i": i, "kind": "normal" if i % 3 == 0 else "model"}
            for i in range(n)] + [
        {"seed": seed, "i": i, "kind": "backend", "backend": b}
        for i in range(7 if tier == "quick" else 100)
        for b in ("jax", "tensorflow", "torch")
    ]


def distribution(ctx, s, m, S, name="distribution", **info):
    """Samples `s` of shape `(n, N)`."""
    n, N = s.shape
    w, U = np.linalg.eigh((S + S.T) / 2)
    keep = w > 1e-6 * max(w.max(), 1e-12)
    z = (U[:, keep] / np.sqrt(w[keep])).T @ (s - np.reshape(m, (-1, 1)))
    # Directions without any variance.
    r = U[:, ~keep].T @ (s - np.reshape(m, (-1, 1)))
    if r.size:
        ctx.check(np.abs(r).max() < 1e-2 * np.sqrt(max(w.max(), 1e-12)) + 1e-4, name,
                  problem="variance in deterministic direction", **info)
    t = 6.5
    k = z.shape[0]
    if k == 0:
        return
    ctx.close(z.mean(1), np.zeros(k), name, t / np.sqrt(N), 1.0, what="mean", **info)
    C = z @ z.T / N
    ctx.close(C, np.eye(k), name, t * np.sqrt(2 / N), 1.0, what="covariance", **info)
    ctx.close((z**4).mean(1), np.full(k, 3.0), name, 11 * np.sqrt(96 / N), 1.0,
              what="fourth moment", **info)
    L = z[:, :-1] @ z[:, 1:].T / (N - 1)
    ctx.close(L, np.zeros((k, k)), name, t / np.sqrt(N), 1.0, what="independent columns",
              **info)


def state(B, s):
    return B.create_random_state(np.float64, seed=s)


def run(case, ctx):
    rng = gen.rng_of("C08", case["seed"], case["i"])
    {"normal": run_normal, "model": run_model, "backend": run_backend}[case["kind"]](
        case, ctx, rng
    )


N_BIG = 20000


def run_normal(case, ctx, rng):
    import lab as B

    for _ in range(3):
        n = int(rng.integers(1, 6))
        d, m, S, desc = dists.normal(rng, n)
        ctx.log(desc)
        seed = int(rng.integers(1000))
        st, s = d.sample(state(B, seed), N_BIG)
        ctx.check(isinstance(s, np.ndarray) and s.shape == (n, N_BIG), "shape", what=desc)
        distribution(ctx, s, m, S, what_d=desc)
        # Defaults.
        st1, s1 = d.sample(state(B, seed))
        ctx.check(s1.shape == (n, 1), "shape", what=desc, got=s1.shape)
        st2, s2 = d.sample(state(B, seed))
        ctx.check(np.array_equal(s1, s2), "reproducible", what=desc)
        _, s3 = d.sample(st1)
        ctx.check(not np.allclose(s3, s1), "state advances", what=desc)
        _, s4 = d.sample(st2)
        ctx.check(np.array_equal(s3, s4), "reproducible", what=desc)
        # Global state.
        B.set_random_seed(seed)
        g1 = d.sample(3)
        g2 = d.sample(num=3)
        B.set_random_seed(seed)
        ctx.check(np.array_equal(d.sample(3), g1), "global state", what=desc)
        ctx.check(np.array_equal(d.sample(3), g2), "global state", what=desc)
        ctx.check(not np.allclose(g1, g2), "state advances", what=desc)
        ctx.check(g1.shape == (n, 3) and d.sample().shape == (n, 1), "shape", what=desc)
        # Additional noise.
        v = float(np.round(rng.uniform(0.3, 2), 2))
        _, s = d.sample(state(B, seed + 1), N_BIG, noise=v)
        distribution(ctx, s, m, S + v * np.eye(n), what_d=desc + " + noise")
        B.set_random_seed(seed)
        s = d.sample(N_BIG, noise=v)
        distribution(ctx, s, m, S + v * np.eye(n), what_d=desc + " + noise")
        # Sampling does not change the distribution.
        ctx.close(d.mean, m, "unchanged", 1e-9)
        ctx.close(d.var, S, "unchanged", 1e-9)
        ctx.sig(desc, n)


def run_model(case, ctx, rng):
    import lab as B

    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)))
    if rng.random() < 0.6:
        try:
            w.condition(m, n_sets=1)
        except Skip:
            pass
    meas = w.measures[-1]
    M = meas.real
    q0 = w.choice(w.procs_in(meas))
    pool = [q for q in w.procs_in(meas) if q.measures[0] is q0.measures[0]]
    ps = [q0] + [w.choice(pool) for _ in range(int(rng.integers(0, 3)))]
    fs, blocks, Ns = [], [], []
    kinds = ("none", "scalar", "vector", "matrix") if rng.random() < 0.5 else ("scalar",)
    sizes = []
    for q in ps:
        if rng.random() < 0.15 and q.measures[0] is m and not q.mo:
            # Multiple outputs.
            r = w.choice([r for r in w.procs if r.measures[0] is m and r.din == q.din
                          and meas in r.measures])
            f, b, N = None, None, None
            c = w.cross([q, r])
            X = w.X(q, w.n(1, 3))
            arg, N, _ = gen.noise(rng, 2 * len(X), kinds)
            if not (rng.random() < 0.5):
                f = c.p(gen.present(rng, X), arg)
            else:
                f = c.p((q.p(gen.present(rng, X)), r.p(gen.present(rng, X))), arg)
            b = [(pid, X) for pid in c.pids]
            w.procs.remove(c)
        else:
            f, b, N = w.fdd(q, n=int(rng.integers(1, 4)), kinds=kinds)
        fs.append(f)
        blocks += b
        Ns.append(N)
        sizes.append(len(N))
    mu = meas.shadow.bmean(blocks)
    V = meas.shadow.bcov(blocks) + block_diag(Ns)
    info = dict(measure=meas.label, processes=[q.label for q in ps])
    seed = int(rng.integers(1000))
    # Joint samples.
    num = N_BIG
    res = M.sample(state(B, seed), num, *fs)
    ctx.check(isinstance(res, tuple) and len(res) == 1 + len(fs), "shape", **info)
    st, ss = res[0], res[1:]
    for s, n in zip(ss, sizes):
        ctx.check(isinstance(s, np.ndarray) and s.shape == (n, num), "shape",
                  got=np.shape(s), want=(n, num), **info)
    S = np.concatenate(ss, axis=0)
    if S.shape[0] == len(mu):
        distribution(ctx, S, mu, V, "joint distribution", **info)
    # Other forms of the call.
    k = int(rng.integers(2, 5))
    r1 = M.sample(state(B, seed), k, *fs)
    r2 = M.sample(state(B, seed), k, *fs)
    for a, b, n in zip(r1[1:], r2[1:], sizes):
        ctx.check(np.shape(a) == (n, k), "shape", got=np.shape(a), **info)
        ctx.check(np.array_equal(a, b), "reproducible", **info)
    r3 = M.sample(r1[0], k, *fs)
    noisy = not np.allclose(V, 0, atol=1e-6)
    if noisy:
        ctx.check(any(not np.allclose(a, b) for a, b in zip(r1[1:], r3[1:])),
                  "state advances", **info)
    r4 = M.sample(state(B, seed), *fs)
    r5 = M.sample(state(B, seed), 1, *fs)
    for a, b, n in zip(r4[1:], r5[1:], sizes):
        ctx.check(np.shape(a) == (n, 1) and np.array_equal(a, b), "call form", **info)
    # With the global random state. A single sample is not wrapped in a tuple.
    B.set_random_seed(seed)
    g1 = M.sample(k, *fs)
    g2 = M.sample(k, *fs)
    B.set_random_seed(seed)
    g3 = M.sample(k, *fs)
    if len(fs) == 1:
        ctx.check(isinstance(g1, np.ndarray), "call form", **info)
        g1, g2, g3 = (g1,), (g2,), (g3,)
    ctx.check(isinstance(g1, tuple) and len(g1) == len(fs), "call form", **info)
    for a, b, c, n in zip(g1, g2, g3, sizes):
        ctx.check(np.shape(a) == (n, k), "shape", got=np.shape(a), **info)
        ctx.check(np.array_equal(a, c), "global state", **info)
    if noisy:
        ctx.check(any(not np.allclose(a, b) for a, b in zip(g1, g2)), "state advances",
                  **info)
    B.set_random_seed(seed)
    a = M.sample(*fs)
    B.set_random_seed(seed)
    b = M.sample(1, *fs)
    if len(fs) == 1:
        a, b = (a,), (b,)
    for x, y, n in zip(a, b, sizes):
        ctx.check(np.shape(x) == (n, 1) and np.array_equal(x, y), "call form", **info)
    # The joint sample is split the way that the distributions were given: values at which
    # a process is (almost) known are those of that process.
    i = int(rng.integers(len(fs)))
    f = fs[i]
    j = 0
    for n in sizes[:i]:
        j += n
    mi, Vi = mu[j : j + sizes[i]], V[j : j + sizes[i], j : j + sizes[i]]
    distribution(ctx, ss[i], mi, Vi, "joint split", **info)
    # A distribution by itself.
    if f.p.measure is M:
        _, s = f.sample(state(B, seed + 5), num)
    else:
        _, s = M(f).sample(state(B, seed + 5), num)
    ctx.check(s.shape == (sizes[i], num), "shape", **info)
    distribution(ctx, s, mi, Vi, **info)
    ctx.sig(w.ops)
    if case["i"] < 8:
        ctx.sample = {"program": w.ops, "sizes": sizes, "measure": meas.label}


def run_backend(case, ctx, rng):
    """Random states of the other backends."""
    import stheno as st
    import lab as B

    name = case["backend"]
    if name == "jax":
        import jax
        import jax.numpy as jnp

        jax.config.update("jax_enable_x64", True)
        import stheno.jax  # noqa
        dt, to, kind = jnp.float64, jnp.array, "jax"
    elif name == "tensorflow":
        import tensorflow as tf
        import stheno.tensorflow  # noqa
        dt, to, kind = tf.float64, (lambda a: tf.constant(a, dtype=tf.float64)), "tensorflow"
    else:
        import torch
        import stheno.torch  # noqa
        dt, to, kind = torch.float64, (lambda a: torch.tensor(a, dtype=torch.float64)), "torch"
    n = int(rng.integers(1, 4))
    seed = int(rng.integers(1000))
    big = 4000
    if rng.random() < 0.5:
        S, mu = gen.spd(rng, n), rng.standard_normal(n)
        d = st.Normal(to(mu[:, None]), to(S))
        desc = f"normal {n}"

        def draw(state, *a, **kw):
            return d.sample(state, *a, **kw)

        def implicit(num):
            return d.sample(num)

    else:
        # A joint sample of processes of a posterior.
        m = st.Measure()
        f = st.GP(lambda x: x**2, st.EQ(), measure=m)
        g = 2 * f + st.GP(st.Matern32(), measure=m)
        x0, y0 = np.array([0.1, 1.5]), np.array([0.4, -1.0])
        X = np.linspace(0, 2, n)
        post = m | (f(to(x0), to(0.3)), to(y0))
        k = lambda a, b: np.exp(-0.5 * (a[:, None] - b) ** 2)
        k3 = lambda a, b: (1 + np.sqrt(3) * abs(a[:, None] - b)) * np.exp(
            -np.sqrt(3) * abs(a[:, None] - b))
        K = np.block([[k(X, X), 2 * k(X, X)], [2 * k(X, X), 4 * k(X, X) + k3(X, X)]])
        C = np.concatenate([k(X, x0), 2 * k(X, x0)])
        Kx = k(x0, x0) + 0.3 * np.eye(2)
        mu = np.concatenate([X**2, 2 * X**2]) + C @ np.linalg.solve(Kx, y0 - x0**2)
        S = K - C @ np.linalg.solve(Kx, C.T) + 0.2 * np.eye(2 * n)
        desc = f"posterior {n}"

        def draw(state, num=1, noise=None):
            if noise is not None:
                return post(st.cross(f, g))(to(X), to(0.2)).sample(state, num, noise=noise)
            state, a, b = post.sample(state, num, f(to(X), to(0.2)), g(to(X), to(0.2)))
            return state, B.concat(a, b, axis=0)

        def implicit(num):
            if rng.random() < 0.4:
                return post(st.cross(f, g))(to(X), to(0.2)).sample(num)
            return B.concat(*post.sample(num, f(to(X), to(0.2)), g(to(X), to(0.2))), axis=0)

    ctx.log(name, desc)
    info = dict(backend=name, what_d=desc)
    L = np.linalg.cholesky(S)
    n = len(mu)

    def white(s, extra=0):
        c = np.linalg.cholesky(S + extra * np.eye(n))
        return np.linalg.solve(c, dense(s) - mu[:, None])

    def typed(s):
        ctx.check(type(s).__module__.split(".")[0].startswith(kind[:3])
                  or name in type(s).__module__, "backend type", got=type(s), **info)
        ctx.check(B.dtype(s) == dt, "backend type", got=B.dtype(s), **info)

    v = 0.7
    for noise in (None, v):
        kw = {} if noise is None else dict(noise=to(noise) if rng.random() < 0.5 else noise)
        extra = 0 if noise is None else noise
        state = B.create_random_state(dt, seed=seed)
        draws = []
        # Draw again and again, alternating between draws with and without noise.
        for i in range(3):
            k = kw if i != 1 else {}
            state, s = draw(state, big, **k)
            typed(s)
            ctx.check(np.shape(dense(s)) == (n, big), "shape", got=np.shape(dense(s)), **info)
            e = extra if i != 1 else 0
            z = white(s, e)
            ctx.close(z.mean(1), np.zeros(n), "backend distribution", 6.5 / np.sqrt(big), 1.0,
                      **info)
            ctx.close(z @ z.T / big, np.eye(n), "backend distribution",
                      6.5 * np.sqrt(2 / big), 1.0, **info)
            draws.append(z)
        for i in range(3):
            for j in range(i):
                a, b = draws[i], draws[j]
                ctx.close(a @ b.T / big, np.zeros((n, n)), "backend independent draws",
                          6.5 / np.sqrt(big), 1.0, draws=(i, j), noise=noise, **info)
                # Also when laid out in another way.
                a, b = a.ravel(), b.ravel()
                ctx.close(np.mean(a * b), 0.0, "backend independent draws",
                          6.5 / np.sqrt(a.size), 1.0, noise=noise, **info)
        # The same state gives the same.
        a = draw(B.create_random_state(dt, seed=seed), 3, **kw)[1]
        b = draw(B.create_random_state(dt, seed=seed), 3, **kw)[1]
        ctx.check(np.array_equal(dense(a), dense(b)), "backend reproducible", **info)
    # Without a state, every draw is another one.
    nm = "backend global state"
    B.set_random_seed(seed)
    draws = []
    for i in range(3):
        s = implicit(big)
        typed(s)
        z = white(s)
        ctx.close(z.mean(1), np.zeros(n), nm, 6.5 / np.sqrt(big), 1.0, **info)
        ctx.close(z @ z.T / big, np.eye(n), nm, 6.5 * np.sqrt(2 / big), 1.0, **info)
        for j in range(i):
            ctx.close(z @ draws[j].T / big, np.zeros((n, n)), nm, 6.5 / np.sqrt(big), 1.0,
                      draws=(i, j), **info)
        draws.append(z)
    ctx.sig(name, desc, case["i"])
