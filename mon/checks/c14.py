"""C14: processes with multiple outputs are stacks of their components."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.ref import COND_MAX, ShadowExact, gauss_logpdf
from mon.world import World, block_diag, cond_tol, grow

RULE = (
    "One case is a random model with 1-3 (nested) Cartesian products of processes, scaled, "
    "shifted, stretched, transformed, and summed Cartesian products; their means, variances, "
    "cross-covariances with other processes, sizes, and densities are read at plain inputs "
    "(all outputs) and at inputs that name the outputs (any order, with repeats), under the "
    "prior and after conditioning once or twice on (some of) the outputs. Judged against the stack of the "
    "components. Distinct by program."
)
ASSUMPTIONS = [
    "a Cartesian product is not added to, or multiplied by, a function or a number other "
    "than a scale (see the known finding)"
]
REQUIRED = {
    "judged:mean": 100, "judged:variance": 100, "judged:cross-covariance": 50,
    "judged:selected outputs": 100,
    "judged:element-wise covariances": 100, "mixed inputs": 20, "judged:size": 100, "judged:posterior of outputs": 80,
    "judged:posterior of product": 60, "judged:logpdf": 60, "judged:marginals": 80,
    "judged:sum and scale": 40, "nested": 8, "judged:sample": 60, "later process": 60,
    "judged:covariance with later process": 60,
    "conditioned twice on products": 12, "product observations used again": 2,
}


def cases(tier, seed):
    n = 110 if tier == "quick" else 5000
    return [{"seed": seed, "i": i} for i in range(n)] + [
        {"finding": "product-plus-function"}
    ]


def run(case, ctx):
    if "finding" in case:
        return finding(ctx)
    import lab as B

    rng = gen.rng_of("C14", case["seed"], case["i"])
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)), base=0, custom=0)
    if rng.random() < 0.4:
        try:
            w.condition(m, n_sets=1)
        except Skip:
            pass
    singles = [q for q in w.procs if q.measures[0] is m]
    qs = [w.choice(singles)]
    for _ in range(int(rng.integers(1, 3))):
        qs.append(w.choice([q for q in singles if q.din == qs[0].din]))
    c = w.cross(qs)
    top = c
    if rng.random() < 0.3:
        ctx.event("nested")
        r = w.choice([q for q in singles if q.din == c.din])
        order = [c, r] if rng.random() < 0.5 else [r, c]
        top = w.cross(order)
        if rng.random() < 0.3:
            top = w.cross([top, c])
    derived = False
    if rng.random() < 0.4:
        derived = True
        k = w.choice(["scale", "neg", "shift", "stretch", "transform"])
        top = getattr(w, k)(top)
    elif rng.random() < 0.2:
        derived = True
        qs2 = [w.choice([q for q in singles if q.din == c.din]) for _ in c.pids]
        if top is c:
            d = w.cross(qs2)
            top = w.add(c, d)
    d_out = len(top.pids)
    # Construct more processes. These must not be affected by the products.
    later = []
    if rng.random() < 0.7:
        before = len(w.procs)
        if rng.random() < 0.5:
            w.base(m)
        if rng.random() < 0.3:
            w.mulf(w.choice(singles))
        grow(w, m, int(rng.integers(1, 3)), base=0.2, custom=0, post_ops=False)
        later = [q for q in w.procs[before:] if q.measures[0] is m]
        singles = singles + later
        ctx.event("later process", len(later))
    metas = list(top.measures)

    def judge(meas, tol, phase):
        M, s = meas.real, meas.shadow
        X = w.X(top, w.n(1, 4))
        x = gen.present(rng, X)
        blocks = [(pid, X) for pid in top.pids]
        mu, V = s.bmean(blocks)[:, None], s.bcov(blocks)
        sc = max(1, np.abs(mu).max(), np.abs(V).max(), np.abs(m.shadow.bcov(blocks)).max()
                 if all(p in m.shadow for p, _ in blocks) else 1)
        info = dict(measure=meas.label, process=top.label, x=X)
        pre = phase + " of product" if phase else None
        name = "sum and scale" if derived and not pre else None
        ctx.close(M.means[top.p](x), mu, pre or name or "mean", tol, sc, **info)
        ctx.close(M.kernels[top.p](x), V, pre or name or "variance", tol, sc, **info)
        arg, N, nk = gen.noise(rng, len(mu), lo=0.1)
        P = top.p if M is top.p.measure else M(top.p)
        d = P(x, arg)
        info["noise"] = nk
        ctx.close(d.mean, mu, pre or "mean", tol, sc, **info)
        ctx.close(d.var, V + N, pre or "variance", tol, sc, **info)
        a, b = P(x, arg).marginals()
        ctx.close(a, mu[:, 0], "marginals", tol, sc, **info)
        ctx.close(b, np.maximum(np.diag(V + N), 0), "marginals", tol, sc, **info)
        ctx.close(M.kernels[top.p].elwise(x), np.diag(V)[:, None], "marginals", tol, sc,
                  **info)
        # Sizes.
        from mlkernels import num_elements

        ctx.check(int(num_elements(d)) == len(mu), "size", got=num_elements(d), **info)
        ctx.check(int(d.dim) == len(mu), "size", got=d.dim, **info)
        r = M.sample(2, d if M is top.p.measure else top.p(x, arg))
        ctx.check(r.shape == (len(mu), 2), "sample", got=r.shape, **info)
        if later and rng.random() < 0.7:
            q = w.choice(later)
            if meas in q.measures:
                Y = w.X(q, w.n(1, 3))
                y = gen.present(rng, Y)
                e = s.bcov(blocks, [(q.pids[0], Y)])
                cn = "covariance with later process"
                ctx.close(M.kernels[top.p, q.p](x, y), e, cn, tol, sc, other=q.label, **info)
                ctx.close(M.kernels[q.p, top.p](y, x), e.T, cn, tol, sc, other=q.label, **info)
        q = w.choice(singles)
        if meas in q.measures:
            Y = w.X(q, w.n(1, 3))
            y = gen.present(rng, Y)
            e = s.bcov(blocks, [(q.pids[0], Y)])
            if not derived:
                # With processes that were constructed before. Inputs say which one.
                ctx.close(M.kernels[top.p, q.p](x, y), e, pre or "cross-covariance", tol, sc,
                          other=q.label, **info)
                ctx.close(M.kernels[q.p, top.p](y, x), e.T, pre or "cross-covariance", tol,
                          sc, other=q.label, **info)
                # Joint samples of the product and others.
                r = M.sample(3, top.p(x, arg), q.p(y, 0.1))
                ctx.check(r[0].shape == (len(mu), 3) and r[1].shape == (len(Y), 3), "sample",
                          **info)
        # Density.
        ev = np.linalg.eigvalsh(V + N)
        if nk != "none" and max(1, ev[-1]) / ev[0] < COND_MAX:
            v = mu[:, 0] + rng.standard_normal(len(mu))
            e = gauss_logpdf(v, mu, V + N)
            ctx.close(M.logpdf(top.p(x, arg), v), e, "logpdf",
                      max(1e-8, tol * 10), max(1, abs(e)), **info)
        if top is c:
            # Select outputs by naming them.
            sel = [qs[i] for i in rng.integers(len(qs), size=int(rng.integers(1, 4)))]
            Ys = [w.X(q, w.n(1, 3)) for q in sel]
            bl = [(q.pids[0], Y) for q, Y in zip(sel, Ys)]
            inp = tuple(q.p(gen.present(rng, Y)) for q, Y in zip(sel, Ys))
            if len(inp) == 1 and rng.random() < 0.5:
                inp = inp[0]
            if isinstance(inp, tuple) and rng.random() < 0.4:
                # Mixed with inputs at which all outputs are meant.
                ctx.event("mixed inputs")
                Y = w.X(c, int(rng.integers(1, 3)))
                k = int(rng.integers(len(inp) + 1))
                inp = inp[:k] + (gen.present(rng, Y),) + inp[k:]
                bl = bl[:k] + [(q.pids[0], Y) for q in qs] + bl[k:]
                Ys = [Y for _, Y in bl]
            e_m, e_v = s.bmean(bl)[:, None], s.bcov(bl)
            ctx.close(M.means[c.p](inp), e_m, "selected outputs", tol, sc * 3, **info)
            ctx.close(M.kernels[c.p](inp), e_v, "selected outputs", tol, sc * 3, **info)
            ctx.close(M.kernels[c.p].elwise(inp), np.diag(e_v)[:, None], "selected outputs",
                      tol, sc * 3, **info)
            ctx.close(M.kernels[c.p](x, inp), s.bcov(blocks, bl), "selected outputs", tol,
                      sc * 3, **info)
            ctx.close(M.kernels[c.p](inp, x), s.bcov(bl, blocks), "selected outputs", tol,
                      sc * 3, **info)
            n = sum(len(Y) for Y in Ys)
            ctx.check(int(num_elements(c.p(inp))) == n, "size", **info)
            # Covariances between other outputs at other inputs, element by element.
            sel2 = [qs[i] for i in rng.integers(len(qs), size=len(Ys))]
            Zs = [gen.inputs(rng, len(Y), Y.shape[1]) for q, Y in zip(sel2, Ys)]
            bl2 = [(q.pids[0], Z) for q, Z in zip(sel2, Zs)]
            inp2 = tuple(q.p(gen.present(rng, Z)) for q, Z in zip(sel2, Zs))
            if not isinstance(inp, tuple):
                inp2 = inp2[0]
            elif len(inp) != len(inp2):
                # Mixed inputs: keep the same structure.
                inp2 = tuple(a if isinstance(a, w.st.FDD) else np.array(a) for a in inp)
                bl2 = bl
            e = np.diag(s.bcov(bl, bl2))[:, None]
            ctx.close(M.kernels[c.p].elwise(inp, inp2), e, "element-wise covariances", tol,
                      sc * 3, others=[q.label for q in sel2], **info)
            Z = w.X(top, len(X))
            if len(Z) == len(X):
                e = np.diag(s.bcov(blocks, [(pid, Z) for pid in top.pids]))[:, None]
                ctx.close(M.kernels[c.p].elwise(x, gen.present(rng, Z)), e,
                          "element-wise covariances", tol, sc * 3, **info)

    for meas in metas:
        judge(meas, w.tol(meas), "")
    # Condition on the product, and perhaps once more on it.
    par = w.choice(metas)
    last = None
    for step in range(2 if rng.random() < 0.35 else 1):
        try:
            par, last, tol = condition(w, ctx, par, c, top, qs, singles, derived, last)
        except Skip:
            if step == 0:
                raise
            break
        if step == 1:
            ctx.event("conditioned twice on products")
        for _ in range(2):
            q = w.choice([q for q in singles if par in q.measures])
            w.judge_mean(par, q, w.X(q, 2), "posterior of outputs", via="means")
            r = w.choice([q for q in singles if par in q.measures])
            w.judge_cov(par, q, r, w.X(q, 2), w.X(r, 2), "posterior of outputs")
            w.judge_elwise(par, q, w.X(q, 2), "posterior of outputs")
        if not derived:
            judge(par, tol, "posterior")
    ctx.sig(w.ops)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops}


def condition(w, ctx, par, c, top, qs, singles, derived, last):
    """Condition `par` on the product and perhaps another process. `last` are the
    observations of an earlier conditioning, to be used again."""
    rng = w.rng
    if last is not None and rng.random() < 0.4:
        # The very same object.
        o, blocks, N, y = last
        s = ShadowExact(par.shadow, blocks, N, y)
        if s.cond > COND_MAX:
            raise Skip
        ctx.event("product observations used again")
        post = w.posterior(par.real | o, s, par, f"{par.label} | same product")
        return post, last, max(cond_tol(s.cond), 1e-8)
    if derived or rng.random() < 0.6:
        X = w.X(top, w.n(1, 3))
        n = len(X) * len(top.pids)
        arg, N, _ = gen.noise(rng, n, ("scalar", "vector", "matrix", "struct"), lo=0.1)
        fdds = [top.p(gen.present(rng, X), arg)]
        blocks, Ns = [(pid, X) for pid in top.pids], [N]
    else:
        if top is not c:
            raise Skip
        sel = [qs[i] for i in rng.integers(len(qs), size=int(rng.integers(1, 4)))]
        Ys = [w.X(q, w.n(1, 3)) for q in sel]
        blocks = [(q.pids[0], Y) for q, Y in zip(sel, Ys)]
        n = sum(len(Y) for Y in Ys)
        arg, N, _ = gen.noise(rng, n, ("scalar", "vector", "matrix", "struct"), lo=0.1)
        fdds = [c.p(tuple(q.p(gen.present(rng, Y)) for q, Y in zip(sel, Ys)), arg)]
        Ns = [N]
    if rng.random() < 0.5:
        q = w.choice([q for q in singles if par in q.measures])
        f, b, N2 = w.fdd(q, n=1, kinds=("scalar",), lo=0.1)
        fdds.append(f)
        blocks, Ns = blocks + b, Ns + [N2]
    N = block_diag(Ns)
    y = w.draw(par.shadow, blocks, N)
    s = ShadowExact(par.shadow, blocks, N, y)
    if s.cond > COND_MAX:
        raise Skip
    i, full = 0, []
    for f, M in zip(fdds, Ns):
        full.append((f, w.y_arg(y[i : i + len(M)])))
        i += len(M)
    if rng.random() < 0.5:
        given = full[0] if len(full) == 1 else tuple(full)
        o = None
    else:
        given = w.st.Obs(*full[0]) if len(full) == 1 else w.st.Obs(*full)
        o = (given, blocks, N, y)
    post = w.posterior(par.real | given, s, par, f"{par.label} | product")
    return post, o, max(cond_tol(s.cond), 1e-8)


def finding(ctx):
    """Known finding: a Cartesian product plus or times a number or function."""
    import stheno as st

    x = np.linspace(0, 1, 3)
    ctx.event("finding examined")
    for key, op in [
        ("product-plus-number", lambda c: c + 1),
        ("product-plus-function", lambda c: c + (lambda x: x**2)),
        ("product-times-function", lambda c: c * (lambda x: x**2)),
    ]:
        m = st.Measure()
        with m:
            f, g = st.GP(st.EQ()), st.GP(1, 2 * st.EQ())
            c = st.cross(f, g)
            s = op(c)
        K = np.exp(-0.5 * (x[:, None] - x[None]) ** 2)
        V = np.kron(np.diag([1.0, 2.0]), K)
        mu = np.repeat([0.0, 1], 3)
        if key == "product-plus-number":
            mu = mu + 1
        elif key == "product-plus-function":
            mu = mu + np.tile(x**2, 2)
        else:
            w = np.tile(x**2, 2)
            mu, V = w * mu, w[:, None] * V * w[None]
        try:
            d = s(x)
            got_m, got_v = dense(d.mean), dense(d.var)
        except Exception as e:
            ctx.finding(key, f"the distribution cannot be computed: {e!r}")
            continue
        ctx.close(got_m, mu[:, None], "product and function", 1e-8, key=key)
        ctx.close(got_v, V, "product and function", 1e-8, key=key)
