"""C05: pseudo-point posteriors are the closed-form VFE, FITC, and DTC posteriors."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import Pseudo, World, cond_tol, grow

RULE = (
    "One case is a random model, 1-2 sets of observations, 1-2 sets of inducing points (of "
    "possibly other processes, possibly with noise), and a method; means, variances, "
    "cross-covariances, and predictions of the posterior are compared to the closed form. "
    "Posteriors are conditioned and extended again. Distinct by program."
)
ASSUMPTIONS = [
    "covariance of the inducing points has condition number at most 1e4",
    "tolerance max(1e-7, 1e-11 x squared condition number)",
]
REQUIRED = {
    "judged:pseudo-point mean": 100,
    "judged:pseudo-point covariance": 100,
    "judged:prediction": 60,
    "method:vfe": 10, "method:fitc": 10, "method:dtc": 10,
    "noise on inducing points": 10,
    "several inducing sets": 10,
    "object used under another measure": 20,
    "judged:recovers exact posterior": 10,
    "judged:optimal distribution": 30,
}


def cases(tier, seed):
    n = 330 if tier == "quick" else 4000
    return [{"seed": seed, "i": i} for i in range(n)]


def judge(w, ctx, meas, k=3):
    rng = w.rng
    procs = w.procs_in(meas)
    for _ in range(k):
        q, r = w.choice(procs), w.choice(procs)
        w.judge_mean(meas, q, w.X(q, 2), "pseudo-point mean")
        w.judge_cov(meas, q, r, w.X(q, 2), w.X(r, 2), "pseudo-point covariance")
    q = w.choice(procs)
    w.judge_elwise(meas, q, w.X(q, 2), "pseudo-point variance diagonal")
    X = w.X(q, 3)
    arg, N, _ = gen.noise(rng, 3)
    d = meas.real(q.p(gen.present(rng, X), arg))
    e_m = meas.shadow.mean(q.pids[0], X)
    e_v = meas.shadow.cov(q.pids[0], X, q.pids[0], X) + N
    tol = w.tol(meas)
    sc = max(1, np.abs(e_m).max(), np.abs(e_v).max())
    if rng.random() < 0.5:
        a, b = d.marginals()
        ctx.close(a, e_m, "prediction", tol, sc)
        ctx.close(b, np.maximum(np.diag(e_v), 0), "prediction", tol, sc)
    else:
        a, b = d.mean_var
        ctx.close(a, e_m[:, None], "prediction", tol, sc)
        ctx.close(b, e_v, "prediction", tol, sc)


def run(case, ctx):
    rng = gen.rng_of("C05", case["seed"], case["i"])
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    w.floor = 1e-7
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)))
    prior = m
    if rng.random() < 0.2:
        try:
            prior = w.condition(m, n_sets=1)
        except Skip:
            pass
    z_is_x = rng.random() < 0.2
    for attempt in range(6):
        ps = Pseudo(w, prior, z_is_x=z_is_x, noisy_z=False if z_is_x else None,
                    missing=rng.random() < 0.2)
        try:
            shadow = ps.shadow()
        except Skip:
            continue
        if shadow.cond < 2e3:
            break
    else:
        raise Skip
    ctx.event("method:" + ps.method)
    if any(a is not None for _, _, a, _ in ps.zs):
        ctx.event("noise on inducing points")
    if len(ps.zs) > 1:
        ctx.event("several inducing sets")
    obs = ps.real()
    M = prior.real
    tol = max(1e-7, cond_tol(shadow.cond))
    # Read the quantities of the approximating distribution in any order.
    for what in rng.permutation(["mu", "A", "K_z", "post"]):
        if what == "mu":
            e = prior.shadow.bmean(shadow.z) + shadow.Kz @ shadow.alpha
            ctx.close(obs.mu(M), e[:, None], "optimal distribution", tol, max(
                1, np.abs(e).max()))
        elif what == "A":
            ctx.close(obs.A(M), shadow.S, "optimal distribution", tol)
        elif what == "K_z":
            ctx.close(obs.K_z(M), shadow.Kz, "optimal distribution", tol)
        else:
            real = M | obs if rng.random() < 0.5 else M.condition(obs)
    post = w.posterior(real, shadow, prior, f"{prior.label} | {ps.describe()}")
    judge(w, ctx, post)
    if z_is_x and not any(np.isnan(s[4]).any() for s in ps.sets):
        # Inducing points at the data recover the exact posterior.
        real = M.condition(*[
            (q.p(gen.present(rng, X), arg), y) for q, X, arg, v, y in ps.sets
        ])
        q = w.choice(w.procs_in(post))
        X = w.X(q, 3)
        x = gen.present(rng, X)
        e = dense(real.means[q.p](x))
        ctx.close(post.real.means[q.p](x), e, "recovers exact posterior", 10 * tol,
                  max(1, np.abs(e).max()))
        e = dense(real.kernels[q.p](x))
        ctx.close(post.real.kernels[q.p](x), e, "recovers exact posterior", 10 * tol,
                  max(10, np.abs(e).max()))
    # Go on: extend and condition again.
    if rng.random() < 0.6:
        grow(w, m, 2)
        judge(w, ctx, post, k=1)
    if rng.random() < 0.3:
        try:
            w.condition(post, n_sets=1, lo=0.3, hi=1)
            judge(w, ctx, w.measures[-1], k=1)
            ctx.event("conditioned again")
        except Skip:
            pass
    # The same object under another measure, and again under the same measure.
    if rng.random() < 0.5:
        pool = [q for q in w.procs_in(prior) if q.measures[0] is ps.sets[0][0].measures[0]]
        try:
            f, b, N = w.fdd(w.choice(pool), kinds=("scalar", "vector"), lo=0.3, hi=1)
            y = w.draw(prior.shadow, b, N)
            second = w.condition(prior, obs=[(f, b, N, y, w.choice(pool))])
            s2 = ps.shadow(parent=second.shadow)
            if s2.cond < 2e3:
                third = w.posterior(second.real | obs, s2, second, f"{second.label} | same object")
                judge(w, ctx, third, k=2)
                ctx.event("object used under another measure")
        except Skip:
            pass
        if rng.random() < 0.5:
            again = w.posterior(M | obs, ps.shadow(), prior, f"{prior.label} | same object")
            judge(w, ctx, again, k=1)
        judge(w, ctx, post, k=1)
    # The method of other observations does not interfere: another method, same data.
    other = w.choice(["vfe", "fitc", "dtc"])
    s2 = ps.shadow(method=other)
    if s2.cond < 2e3:
        p2 = w.posterior(M | ps.real(method=other), s2, prior, f"{prior.label} | {other}")
        judge(w, ctx, p2, k=1)
    ctx.sig(w.ops)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops}
