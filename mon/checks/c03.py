"""C03: exact conditioning gives the Gaussian conditional."""
import numpy as np

from mon import gen
from mon.core import Skip
from mon.ref import COND_MAX, ShadowExact
from mon.world import World, cond_tol, grow

RULE = (
    "One case is a random program that builds processes, conditions measures (priors and "
    "posteriors) on 1-3 sets of observations with scalar, vector, matrix, and structured "
    "noise through every call form, and keeps constructing processes afterwards; means, "
    "variances, and cross-covariances in the posteriors are compared to the conditioning "
    "formula. Non-trivial if at least one posterior was judged. Distinct by the program."
)
ASSUMPTIONS = [
    "float64; condition number of the data covariance at most 2e3 (else outside domain)",
    "tolerance max(1e-8, 1e-12 x squared condition number) of the scale of the covariance; 1e-4 "
    "in programs with low-rank kernels",
]
REQUIRED = {
    "judged:posterior covariance": 200,
    "judged:posterior mean": 100,
    "op:condition": 100,
    "repeated conditioning": 10,
    "observations used again": 4,
    "extended after conditioning": 30,
}


def cases(tier, seed):
    n = 220 if tier == "quick" else 6000
    return [{"seed": seed, "i": i} for i in range(n)]


def judge_all(w, ctx, meas, n_pairs=3):
    rng = w.rng
    procs = w.procs_in(meas)
    n = int(rng.integers(1, 4))
    q = w.choice(procs)
    w.judge_mean(meas, q, w.X(q, n), "posterior mean")
    q = w.choice(procs)
    w.judge_elwise(meas, q, w.X(q, n), "posterior variance diagonal")
    q = w.choice(procs)
    w.judge_cov(meas, q, q, w.X(q, n), None, "posterior variance")
    for _ in range(n_pairs):
        a, b = w.choice(procs), w.choice(procs)
        w.judge_cov(
            meas, a, b, w.X(a, w.n(1, 4)), w.X(b, w.n(1, 4)),
            "posterior covariance",
        )
    # Predictions through finite-dimensional distributions.
    q = w.choice(procs)
    X = w.X(q, 3)
    x = gen.present(rng, X)
    arg, N, kind = gen.noise(rng, 3)
    d = meas.real(q.p)(x, arg) if rng.random() < 0.5 else meas.real(q.p(x, arg))
    e_m = meas.shadow.mean(q.pids[0], X)
    e_v = meas.shadow.cov(q.pids[0], X, q.pids[0], X) + N
    tol = w.tol(meas)
    sc = max(1, np.abs(e_m).max(), np.abs(e_v).max())
    info = dict(measure=meas.label, process=q.label, x=X, noise=kind)
    for what in w.rng.permutation(["mean", "var", "marginals", "mean_var"])[:2]:
        if what == "mean":
            ctx.close(d.mean, e_m[:, None], "prediction mean", tol, sc, **info)
        elif what == "var":
            ctx.close(d.var, e_v, "prediction variance", tol, sc, **info)
        elif what == "marginals":
            a, b = d.marginals()
            ctx.close(a, e_m, "prediction marginal mean", tol, sc, **info)
            ctx.close(b, np.maximum(np.diag(e_v), 0), "prediction marginal variance", tol,
                      sc, **info)
        else:
            a, b = d.mean_var
            ctx.close(a, e_m[:, None], "prediction mean", tol, sc, **info)
            ctx.close(b, e_v, "prediction variance", tol, sc, **info)


def run(case, ctx):
    rng = gen.rng_of("C03", case["seed"], case["i"])
    D = int(rng.choice([1, 1, 2, 2, 3]))
    w = World(rng, D, ctx, linear=rng.random() < 0.1)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 6)))
    n_cond = int(rng.choice([1, 1, 2, 2, 3])) if w.D == 1 else 1
    for i in range(n_cond):
        meas = w.choice(w.measures) if rng.random() < 0.6 else w.measures[-1]
        if meas.depth > 2:
            continue
        if meas is not m:
            ctx.event("repeated conditioning")
        kinds = ("scalar", "vector", "matrix", "struct")
        if rng.random() < 0.15:
            kinds = ("none",)
        try:
            kw = {}
            if case["i"] % 12 == 0 and i == 0:
                # Many observations.
                kw = dict(n=int(rng.integers(20, 50)), lo=0.4, hi=1)
                ctx.event("many observations")
            w.condition(meas, kinds=kinds, n_sets=int(rng.choice([1, 1, 2, 3])), **kw)
        except Skip:
            w.condition(meas, kinds=("scalar", "vector", "matrix", "struct"), lo=0.3, hi=1)
        if rng.random() < 0.3:
            try:
                # Read first: whatever the observations remember is of another measure.
                if rng.random() < 0.5:
                    judge_all(w, ctx, w.measures[-1], n_pairs=1)
                again = w.condition_again()
                ctx.event(f"chain of {again.depth}")
                judge_all(w, ctx, again, n_pairs=1)
                ctx.event("observations used again")
            except Skip:
                pass
        if rng.random() < 0.6:
            ctx.event("extended after conditioning")
            grow(w, m, int(rng.integers(1, 4)))
        if rng.random() < 0.5:
            judge_all(w, ctx, w.choice(w.measures[1:]), n_pairs=1)
    for meas in w.measures[1:]:
        judge_all(w, ctx, meas)

    # `GP.condition` conditions the measure that the process was constructed with.
    qs = [q for q in w.procs if q.measures[0] is m]
    q, r = w.choice(qs), w.choice(qs)
    f, b, N = w.fdd(r)
    y = w.draw(m.shadow, b, N)
    shadow = ShadowExact(m.shadow, b, N, y)
    if shadow.cond < COND_MAX:
        form = rng.integers(3)
        if form == 0:
            post = q.p | (f, w.y_arg(y))
        elif form == 1:
            post = q.p.condition(f, w.y_arg(y))
        else:
            post = q.p | w.st.Obs(f, w.y_arg(y))
        X = w.X(q, 3)
        x = gen.present(rng, X)
        tol = max(cond_tol(shadow.cond), w.floor)
        e_v = shadow.cov(q.pids[0], X, q.pids[0], X)
        sc = max(1, np.abs(m.shadow.cov(q.pids[0], X, q.pids[0], X)).max())
        e_m = shadow.mean(q.pids[0], X)
        ctx.close(post.mean(x), e_m[:, None], "GP.condition mean", tol,
                  max(sc, np.abs(e_m).max()))
        ctx.close(post.kernel(x), e_v, "GP.condition variance", tol, sc)
    ctx.sig(w.ops)
    if case["i"] < 8:
        ctx.sample = {"program": w.ops, "judgements": ctx.events.total()}
