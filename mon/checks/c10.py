"""C10: what a distribution says does not depend on what was asked before."""
import numpy as np

from mon import dists, gen
from mon.core import Skip, dense
from mon.world import Pseudo, World, grow

RULE = (
    "One case builds the same distribution several times (normals of every representation, "
    "lazily and directly; finite-dimensional distributions of priors, posteriors, "
    "pseudo-posteriors, and Cartesian products with every kind of noise) and performs a random "
    "sequence of accesses on one of them; every answer must equal the answer of a fresh "
    "distribution that was asked nothing else, and the known mean and variance. Distinct by "
    "distribution and access sequence."
)
ASSUMPTIONS = ["answers of the same distribution agree to 1e-8 of their scale"]
ACCESS = ["mean", "var", "var_diag", "mean_var", "m2", "marginals", "bounds", "entropy",
          "diagonalise", "dim", "dtype", "logpdf", "missing", "zero", "sample", "str",
          "kl", "w2", "add", "mul", "lmatmul", "noisy_sample", "densities", "neg", "radd",
          "sum"]
REQUIRED = {**{"judged:" + a: 60 for a in ACCESS if a not in ("str",)},
            "judged:shadow mean": 100, "judged:shadow variance": 100,
            "kind:normal": 50, "kind:fdd": 100, "kind:joint": 20}


def cases(tier, seed):
    n = 700 if tier == "quick" else 8000
    return [{"seed": seed, "i": i} for i in range(n)]


def ask(d, a, aux):
    import lab as B

    n = aux["n"]
    if a == "mean":
        return [d.mean]
    if a == "var":
        return [d.var]
    if a == "var_diag":
        return [d.var_diag]
    if a == "mean_var":
        return list(d.mean_var)
    if a == "m2":
        return [d.m2]
    if a == "marginals":
        return list(d.marginals())
    if a == "bounds":
        return list(d.marginal_credible_bounds())
    if a == "entropy":
        return [d.entropy()]
    if a == "diagonalise":
        e = d.diagonalise()
        return [e.mean, e.var]
    if a == "dim":
        return [int(d.dim)]
    if a == "dtype":
        return [str(np.dtype(d.dtype))]
    if a == "logpdf":
        return [d.logpdf(aux["y"])]
    if a == "missing":
        return [d.logpdf(aux["z"])]
    if a == "zero":
        return [bool(d.mean_is_zero)]
    if a == "sample":
        _, s = d.sample(B.create_random_state(np.float64, seed=1), 2)
        return [s]
    if a == "noisy_sample":
        _, s = d.sample(B.create_random_state(np.float64, seed=2), 1, noise=0.7)
        return [s]
    if a == "densities":
        return [d.logpdf(np.concatenate([aux["y"], aux["z"], -aux["y"]], 1))]
    if a == "neg":
        e = -d
        return [e.mean, e.var]
    if a == "radd":
        e = 0.5 - d
        return [e.mean, e.var, e.entropy()]
    if a == "sum":
        # Arithmetic between distributions must leave both alone.
        e = d + aux["other"]
        return [e.mean, e.var]
    if a == "str":
        str(d), repr(d)
        return []
    if a == "kl":
        return [d.kl(aux["other"]), aux["other"].kl(d)]
    if a == "w2":
        return [dense(d.w2(aux["other"])) ** 2]
    if a == "add":
        e = d + 1.5
        return [e.mean, e.var]
    if a == "mul":
        e = d * 2.0
        return [e.mean, e.var]
    e = d.lmatmul(aux["A"])
    return [e.mean, e.var]


def run(case, ctx):
    rng = gen.rng_of("C10", case["seed"], case["i"])
    import stheno as st

    kind = case["i"] % 3
    floor = 0.0
    if kind == 0:
        ctx.event("kind:normal")
        n = int(rng.integers(1, 5))
        V, S, kv = dists.variance(rng, n)
        M, mu, km = dists.mean(rng, n)
        lazy = rng.random() < 0.7
        extra = rng.random() < 0.5
        desc = f"{km}/{kv}/{lazy}/{extra}"

        def make():
            if not lazy:
                return st.Normal(V) if M is None else st.Normal(M, V)
            M_ = 0 if M is None else M
            kw = {}
            if extra:
                kw = dict(
                    var_diag=lambda: np.diag(S).copy(),
                    mean_var=lambda: (M_, V),
                    mean_var_diag=lambda: (M_, np.diag(S).copy()),
                )
            if M is None:
                return st.Normal(lambda: V, **kw)
            return st.Normal(lambda: M, lambda: V, **kw)

        cond = 1.0
    else:
        w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
        m = w.measure()
        for _ in range(int(rng.integers(1, 3))):
            w.base(m)
        grow(w, m, int(rng.integers(0, 4)))
        meas = m
        if rng.random() < 0.6:
            try:
                if rng.random() < 0.6:
                    meas = w.condition(m, n_sets=1)
                else:
                    ps = Pseudo(w, m)
                    s = ps.shadow()
                    if s.cond > 2e3:
                        raise Skip
                    meas = w.posterior(m.real | ps.real(), s, m, ps.describe())
            except Skip:
                meas = m
        q = w.choice(w.procs_in(meas))
        kinds = ("scalar", "vector", "matrix", "struct")
        if kind == 1 or rng.random() < 0.5:
            ctx.event("kind:fdd")
            X = w.X(q, w.n(1, 4))
            arg, N, kn = gen.noise(rng, len(X), kinds, lo=0.1)
            x = gen.present(rng, X)
            P = q.p if q.p.measure is meas.real else meas.real(q.p)
            make = lambda: P(x, arg)
            blocks = [(q.pids[0], X)]
            desc = f"{q.label} under {meas.label}, {kn}"
        else:
            ctx.event("kind:joint")
            pool = [r for r in w.procs_in(meas)
                    if r.measures[0] is q.measures[0] and r.din == q.din]
            r = w.choice(pool)
            X = w.X(q, w.n(1, 3))
            Y = w.X(r, w.n(1, 3))
            arg, N, kn = gen.noise(rng, len(X) + len(Y), kinds, lo=0.1)
            c = w.cross([q, r])
            P = c.p if c.p.measure is meas.real else meas.real(c.p)
            x = (q.p(gen.present(rng, X)), r.p(gen.present(rng, Y)))
            make = lambda: P(x, arg)
            blocks = [(q.pids[0], X), (r.pids[0], Y)]
            desc = f"cross of {q.label}, {r.label} under {meas.label}, {kn}"
        mu = meas.shadow.bmean(blocks)[:, None]
        S = meas.shadow.bcov(blocks) + N
        n = len(mu)
        cond = meas.shadow.cond
        floor = w.tol(meas)
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    if max(1, ev[-1]) / ev[0] > 2e3:
        raise Skip
    ctx.log(desc)
    other, *_ = dists.normal(rng, n)
    y = mu + rng.standard_normal((n, 1))
    z = y.copy()
    z[rng.integers(n)] = np.nan
    if n == 1:
        z = y
    aux = dict(n=n, other=other, y=y, z=z, A=rng.standard_normal((max(1, n - 1), n)))
    d = make()
    seq = [ACCESS[i] for i in rng.integers(len(ACCESS), size=7)]
    if rng.random() < 0.5:
        # The paths of access that share work.
        seq = list(rng.permutation(["mean", "var", "var_diag", "mean_var", "marginals",
                                    "bounds", "zero"])) + seq[:3]
    seq = [str(s) for s in seq]
    scale = max(1.0, np.abs(mu).max() ** 2, np.abs(S).max())
    cache = {}
    for i, a in enumerate(seq):
        got = ask(d, a, aux)
        if a not in cache:
            cache[a] = ask(make(), a, aux)
        for u, v in zip(got, cache[a]):
            if isinstance(v, (str, bool, int)):
                ctx.check(u == v, a, got=u, fresh=v, before=seq[:i], what=desc)
            else:
                v = dense(v)
                ctx.close(u, v, a, 1e-8, max(scale, np.abs(v).max()), before=seq[:i],
                          what=desc)
    tol = max(1e-8, floor)
    ctx.close(d.mean, mu, "shadow mean", tol, scale, before=seq, what=desc)
    ctx.close(d.var, S, "shadow variance", tol, scale, before=seq, what=desc)
    a, b = make().marginals()
    ctx.close(a, mu[:, 0], "shadow mean", tol, scale, what=desc)
    ctx.close(b, np.diag(S), "shadow variance", tol, scale, what=desc)
    a, b = d.mean_var
    ctx.close(a, mu, "shadow mean", tol, scale, before=seq, what=desc)
    ctx.close(b, S, "shadow variance", tol, scale, before=seq, what=desc)
    ctx.sig(desc, seq)
    if case["i"] < 8:
        ctx.sample = {"distribution": desc, "accesses": seq}
