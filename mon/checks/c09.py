"""C09: operations on normal distributions have the right closed forms."""
import numpy as np

from mon import dists, gen
from mon.core import dense

RULE = (
    "One case is a random normal distribution in a random representation, transformed by a "
    "random sequence of affine operations and sums; after every step, a random selection of "
    "statistics is compared to NumPy closed forms, and entropy, KL divergence, and "
    "Wasserstein distance are judged between several distributions. Distinct by "
    "representation and operations."
)
ASSUMPTIONS = [
    "float64; tolerance 1e-8 relative, 1e-6 absolute for square roots",
    "operands are scalars, column vectors, matrices, and normals",
]
STATS = ["mean", "var", "var_diag", "mean_var", "m2", "marginals", "bounds", "entropy",
         "diagonalise", "dim", "dtype", "cast", "logpdf", "zero"]
OPS = ["adds", "radds", "addv", "raddv", "subs", "rsubs", "subv", "rsubv", "muls", "rmuls",
       "div", "neg", "addn", "subn", "lmatmul", "rmatmul", "sum"]
REQUIRED = {
    **{"judged:" + s: 40 for s in STATS},
    **{"op:" + o: 20 for o in OPS},
    "judged:kl": 200, "judged:w2": 200,
}


def cases(tier, seed):
    n = 800 if tier == "quick" else 12000
    return [{"seed": seed, "i": i} for i in range(n)]


def op(rng, d, m, S, name, other):
    n = len(m)
    c = float(np.round(rng.choice([-1, 1]) * rng.uniform(0.3, 2), 2))
    if rng.random() < 0.2:
        c = int(rng.choice([-2, 2, 3]))
    v = np.round(rng.standard_normal((n, 1)), 2)
    if name == "adds":
        return d + c, m + c, S
    if name == "radds":
        return c + d, m + c, S
    if name == "addv":
        return d + v, m + v, S
    if name == "raddv":
        return d.__radd__(v), m + v, S
    if name == "subs":
        return d - c, m - c, S
    if name == "rsubs":
        return c - d, c - m, S
    if name == "subv":
        return d - v, m - v, S
    if name == "rsubv":
        return d.__rsub__(v), v - m, S
    if name == "muls":
        return d * c, c * m, c**2 * S
    if name == "rmuls":
        return c * d, c * m, c**2 * S
    if name == "div":
        return d / c, m / c, S / c**2
    if name == "neg":
        return -d, -m, S
    if name == "addn":
        e, me, Se = other(n)
        return d + e, m + me, S + Se
    if name == "subn":
        e, me, Se = other(n)
        return d - e, m - me, S + Se
    if name == "sum":
        e, me, Se = other(n)
        f, mf, Sf = other(n)
        return sum([d, e, f]), m + me + mf, S + Se + Sf
    k = int(rng.integers(1, n + 1))
    if name == "lmatmul":
        A = np.round(rng.standard_normal((k, n)), 2)
        return d.lmatmul(A), A @ m, A @ S @ A.T
    A = np.round(rng.standard_normal((n, k)), 2)
    return d.rmatmul(A), A.T @ m, A.T @ S @ A


def stat(ctx, d, m, S, s, what, rng):
    import lab as B

    sc = max(1.0, np.abs(m).max(), np.abs(S).max(), (m**2).max())
    n, t = len(m), 1e-8
    info = dict(what=what)
    dg = np.diag(S)
    if s == "mean":
        ctx.close(d.mean, m, s, t, sc, **info)
    elif s == "var":
        ctx.close(d.var, S, s, t, sc, **info)
    elif s == "var_diag":
        ctx.close(d.var_diag, dg, s, t, sc, **info)
    elif s == "mean_var":
        a, b = d.mean_var
        ctx.close(a, m, s, t, sc, **info)
        ctx.close(b, S, s, t, sc, **info)
    elif s == "m2":
        ctx.close(d.m2, S + m @ m.T, s, t, sc, **info)
    elif s == "marginals":
        a, b = d.marginals()
        ctx.check(isinstance(a, np.ndarray) and isinstance(b, np.ndarray), s, **info)
        ctx.close(a, m[:, 0], s, t, sc, **info)
        ctx.close(b, dg, s, t, sc, **info)
    elif s == "bounds":
        a, lo, hi = d.marginal_credible_bounds()
        # Central 95% credible interval: the error function decides.
        from math import erf, sqrt

        ctx.close(a, m[:, 0], s, t, sc, **info)
        sd = np.sqrt(dg)
        if (dg > 1e-6 * dg.max()).all():
            z = np.concatenate([(hi - a) / sd, (a - lo) / sd])
            p = np.array([erf(x / sqrt(2)) for x in z])
            ctx.close(p, np.full(2 * n, 0.95), s, 1e-4, 1, **info)
            ctx.check(np.ptp(z) < 1e-6, s, z=z, **info)
    elif s == "entropy":
        sign, ld = np.linalg.slogdet(S)
        if np.linalg.cond(S) < 1e4 and np.linalg.eigvalsh(S)[0] > 1e-2:
            e = 0.5 * (n * (1 + np.log(2 * np.pi)) + ld)
            ctx.close(d.entropy(), e, s, t, max(1, abs(e)), **info)
    elif s == "diagonalise":
        e = d.diagonalise()
        ctx.close(e.mean, m, s, t, sc, **info)
        ctx.close(e.var, np.diag(dg), s, t, sc, **info)
        ctx.close(d.var, S, s, t, sc, **info)
    elif s == "dim":
        ctx.check(int(d.dim) == n, s, got=d.dim, **info)
    elif s == "dtype":
        # Integers may stay integers.
        ok = {np.dtype(float)} | ({np.dtype(int)} if "integers" in str(what) else set())
        ctx.check(np.dtype(d.dtype) in ok, s, got=d.dtype, **info)
        ctx.check(np.dtype(B.dtype(d)) in ok, s, got=B.dtype(d), **info)
    elif s == "cast":
        e = B.cast(np.float32, d)
        ctx.check(np.dtype(e.dtype) == np.float32, s, got=e.dtype, **info)
        ctx.close(e.var, S, s, 1e-5, sc, **info)
        ctx.close(e.mean, m, s, 1e-5, sc, **info)
    elif s == "logpdf":
        from mon.ref import gauss_logpdf

        if np.linalg.cond(S) < 1e4 and np.linalg.eigvalsh(S)[0] > 1e-2:
            y = rng.standard_normal((n, 1))
            e = gauss_logpdf(y, m, S)
            ctx.close(d.logpdf(y), e, s, t, max(1, abs(e)), **info)
    elif s == "zero":
        if d.mean_is_zero:
            ctx.check(np.all(m == 0), s, **info)
        else:
            ctx.check(True, s)


def run(case, ctx):
    rng = gen.rng_of("C09", case["seed"], case["i"])
    import lab as B

    n = int(rng.integers(1, 6))
    d, m, S, desc = dists.normal(rng, n)
    ops = [desc]

    def other(n):
        e, me, Se, de = dists.normal(rng, n)
        ops.append(de)
        return e, me, Se

    for i in range(int(rng.integers(1, 6))):
        for s in rng.permutation(STATS)[:5]:
            stat(ctx, d, m, S, s, ops, rng)
        name = OPS[rng.integers(len(OPS))]
        before = (d, m, S)
        d, m, S = op(rng, d, m, S, name, other)
        ops.append(name)
        ctx.event("op:" + name)
        # The operands are unchanged.
        if rng.random() < 0.3:
            stat(ctx, *before, "mean", ops, rng)
            stat(ctx, *before, "var", ops, rng)
    for s in rng.permutation(STATS):
        stat(ctx, d, m, S, s, ops, rng)
    # Divergences.
    n = int(rng.integers(1, 6))
    ds = [dists.normal(rng, n) for _ in range(3)]

    def kl(a, b):
        (_, ma, Sa, _), (_, mb, Sb, _) = a, b
        r = mb - ma
        return 0.5 * float(
            np.trace(np.linalg.solve(Sb, Sa)) + (r.T @ np.linalg.solve(Sb, r)).item() - n
            + np.linalg.slogdet(Sb)[1] - np.linalg.slogdet(Sa)[1]
        )

    def root(A):
        w, U = np.linalg.eigh((A + A.T) / 2)
        return (U * np.sqrt(np.maximum(w, 0))) @ U.T

    def w2sq(a, b):
        (_, ma, Sa, _), (_, mb, Sb, _) = a, b
        R = root(Sa)
        return float(np.sum((ma - mb) ** 2) + np.trace(Sa + Sb - 2 * root(R @ Sb @ R)))

    for i in range(3):
        for j in range(3):
            a, b = ds[i], ds[j]
            what = a[3] + " vs " + b[3]
            e = kl(a, b)
            g = a[0].kl(b[0])
            ctx.close(g, e, "kl", 1e-8, max(1, abs(e)), what=what)
            ctx.check(float(dense(g)) >= -1e-8, "kl", what=what)
            e = w2sq(a, b)
            g = float(dense(a[0].w2(b[0])))
            # Judge the square: the root has an infinite derivative at zero.
            ctx.close(g**2, max(e, 0), "w2", 1e-7, max(1, abs(e)), what=what)
            ctx.check(np.isfinite(g) and g >= 0, "w2", what=what)
    ctx.sig(ops)
    if case["i"] < 8:
        ctx.sample = {"operations": ops, "mean": m.tolist()}
