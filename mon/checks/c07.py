"""C07: log-densities."""
import numpy as np

from mon import dists, gen
from mon.core import Skip, dense
from mon.ref import gauss_logpdf
from mon.world import World, cond_tol, grow

RULE = (
    "One case is a random normal distribution (every representation of mean and variance), "
    "or a random model with joint observations under the prior or a posterior; values as "
    "scalars, vectors, columns, many columns, structured, and with missing entries; every "
    "call form. Judged against the Gaussian log-density by eigendecomposition. Distinct by "
    "program or representation."
)
ASSUMPTIONS = ["covariance condition number at most 2e3 in models"]
REQUIRED = {
    "judged:Normal.logpdf": 300,
    "judged:Normal.logpdf of columns": 60,
    "judged:Normal.logpdf with missing": 60,
    "judged:FDD.logpdf": 60,
    "judged:Measure.logpdf": 100,
    "judged:logpdf under posterior": 40,
    "judged:additive over independent processes": 20,
    "judged:change of variables": 60,
}


def cases(tier, seed):
    n = 400 if tier == "quick" else 8000
    return [{"seed": seed, "i": i, "kind": "normal" if i % 2 else "model"}
            for i in range(n)]


def run(case, ctx):
    rng = gen.rng_of("C07", case["seed"], case["i"])
    (run_normal if case["kind"] == "normal" else run_model)(case, ctx, rng)


def run_normal(case, ctx, rng):
    for _ in range(5):
        n = int(rng.integers(1, 7))
        d, m, S, desc = dists.normal(rng, n)
        ctx.log(desc, n)
        scale = float(rng.choice([1, 1, 1e-3, 1e3]))
        y = m[:, 0] + scale * rng.standard_normal(n)
        e = gauss_logpdf(y, m, S)
        forms = [y, y[:, None]] + ([float(y[0])] if n == 1 else [])
        for i in rng.permutation(len(forms)):
            ctx.close(d.logpdf(forms[i]), e, "Normal.logpdf", 1e-8, max(1, abs(e)), what=desc, y=y)
        # Several columns at once.
        k = int(rng.integers(2, 5))
        Y = m + scale * rng.standard_normal((n, k))
        es = np.array([gauss_logpdf(Y[:, j], m, S) for j in range(k)])
        ctx.close(d.logpdf(Y), es, "Normal.logpdf of columns", 1e-8,
                  max(1, np.abs(es).max()), what=desc)
        # Missing values are marginalised out.
        if n > 1:
            z = y.copy()
            z[rng.permutation(n)[: int(rng.integers(1, n))]] = np.nan
            e2 = gauss_logpdf(z, m, S)
            x = z if rng.random() < 0.5 else z[:, None]
            ctx.close(d.logpdf(x), e2, "Normal.logpdf with missing", 1e-8,
                      max(1, abs(e2)), what=desc, y=z)
            # Asking with missing values does not change the distribution.
            ctx.close(d.logpdf(y), e, "Normal.logpdf", 1e-8, max(1, abs(e)), what=desc)
        # Density of an affine transformation.
        a = float(rng.choice([-2.0, 0.5, 3.0]))
        b = rng.standard_normal((n, 1))
        t = d * a + b
        ctx.close(t.logpdf(a * y[:, None] + b), e - n * np.log(abs(a)),
                  "change of variables", 1e-8, max(1, abs(e)), what=desc)
        ctx.sig(desc, n, scale)
    if case["i"] < 8:
        ctx.sample = {"normal": desc, "y": y.tolist(), "logpdf": e}


def run_model(case, ctx, rng):
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)))
    metas = [m]
    if rng.random() < 0.7:
        try:
            w.condition(m, n_sets=1)
            metas.append(w.measures[-1])
        except Skip:
            pass
    st = w.st
    for meas in metas:
        M = meas.real
        for _ in range(2):
            # Observations of processes that were constructed with the same measure.
            q0 = w.choice([q for q in w.procs_in(meas)])
            pool = [q for q in w.procs_in(meas) if q.measures[0] is q0.measures[0]]
            ps = [q0] + [w.choice(pool) for _ in range(int(rng.integers(0, 3)))]
            fs, blocks, Ns, ys = [], [], [], []
            for q in ps:
                f, b, N = w.fdd(q, n=int(rng.integers(1, 4)), lo=0.1)
                fs.append(f)
                blocks += b
                Ns.append(N)
            from mon.world import block_diag

            N = block_diag(Ns)
            V = meas.shadow.bcov(blocks) + N
            mu = meas.shadow.bmean(blocks)
            s = np.linalg.eigvalsh(V)
            if max(1, s[-1]) / s[0] > 2e3:
                continue
            y = w.draw(meas.shadow, blocks, N)
            if rng.random() < 0.3:
                y[rng.integers(len(y))] += 5.0
            if rng.random() < 0.3 and len(y) > 1:
                y[rng.integers(len(y))] = np.nan
            i = 0
            for f, b in zip(fs, Ns):
                ys.append(y[i : i + len(b)])
                i += len(b)
            e = gauss_logpdf(y, mu, V)
            tol = max(1e-8, 10 * cond_tol(meas.shadow.cond))
            sc = max(1, abs(e))
            info = dict(measure=meas.label, processes=[q.label for q in ps])
            pairs = [(f, w.y_arg(yi)) for f, yi in zip(fs, ys)]
            name = "Measure.logpdf" if meas is m else "logpdf under posterior"
            if len(pairs) == 1:
                f, yi = pairs[0]
                forms = {
                    "args": lambda: M.logpdf(f, yi),
                    "pair": lambda: M.logpdf((f, yi)),
                    "obs": lambda: M.logpdf(st.Obs(f, yi)),
                    "fdd": lambda: M(f).logpdf(yi),
                }
                if f.p.measure is M:
                    ctx.close(f.logpdf(yi), e, "FDD.logpdf", tol, sc, **info)
                else:
                    ctx.close(M(f.p)(f.x, f.noise).logpdf(yi), e, "FDD.logpdf", tol, sc,
                              **info)
            else:
                forms = {
                    "pairs": lambda: M.logpdf(*pairs),
                    "obs": lambda: M.logpdf(st.Obs(*pairs)),
                }
            for k in rng.permutation(list(forms)):
                ctx.close(forms[k](), e, name, tol, sc, form=k, **info)
            if len(y) == 1:
                continue
            # The order of the sets does not matter.
            if len(pairs) > 1:
                perm = rng.permutation(len(pairs))
                ctx.close(M.logpdf(*[pairs[i] for i in perm]), e, name, tol, sc,
                          form="permuted", **info)
    # Independent processes: log-densities add up.
    a, b = w.base(m), w.base(m)
    fa, ba, Na = w.fdd(a, n=2)
    fb, bb, Nb = w.fdd(b, n=2)
    ya, yb = w.draw(m.shadow, ba, Na), w.draw(m.shadow, bb, Nb)
    tot = dense(fa.logpdf(ya)) + dense(fb.logpdf(yb))
    ctx.close(m.real.logpdf((fa, ya), (fb, yb)), tot, "additive over independent processes",
              1e-8, max(1, abs(tot)))
    ctx.sig(w.ops)
    if case["i"] < 8:
        ctx.sample = {"program": w.ops}
