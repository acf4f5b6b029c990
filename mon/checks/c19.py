"""C19: derivatives of processes are derivatives."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import World, cond_tol, grow

RULE = (
    "One case is a random model in which derivatives and finite-difference approximations of "
    "processes, also of posteriors and of each other, are constructed, combined with other "
    "processes, and conditioned on; all means and covariances are compared with the shadow "
    "model, in which a derivative is a linear functional of order eight. What a "
    "finite-difference approximation denotes is learned from its action on one-hot means, and "
    "must satisfy the moment conditions of the derivative. Distinct by program."
)
ASSUMPTIONS = [
    "kernels and functions are analytic",
    "derivatives are evaluated with TensorFlow inputs, as documented",
    "shadow derivative: error below 1e-5 relative",
]
REQUIRED = {
    "judged:derivative mean": 60, "judged:derivative covariance": 150,
    "judged:derivative variance": 60, "judged:derivative elwise": 60,
    "judged:posterior mean": 40, "judged:posterior covariance": 60,
    "second derivative": 3, "high order derivative": 8, "dimension 1": 2, "derivative of posterior": 5,
    "judged:approximation mean": 100, "judged:approximation covariance": 200,
    "judged:moment conditions": 80, "judged:translation": 8, "judged:close to derivative": 60,
    "judged:process unchanged": 60, "judged:product": 2,
}

TF = None


def setup():
    global TF
    import os

    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    import tensorflow as tf

    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    import stheno.tensorflow  # noqa: F401

    TF = tf


def cases(tier, seed):
    n = 100 if tier == "quick" else 4000
    return [{"seed": seed, "i": i, "kind": "approx" if i % 2 else "diff"} for i in range(n)]


def run(case, ctx):
    rng = gen.rng_of("C19", case["seed"], case["i"])
    (run_diff if case["kind"] == "diff" else run_approx)(case, ctx, rng)


# Central finite differences of order eight.
H = 0.025
STENCIL = [
    (c / H, g * H)
    for g, c in [(-4, 1 / 280), (-3, -4 / 105), (-2, 1 / 5), (-1, -4 / 5),
                 (1, 4 / 5), (2, -1 / 5), (3, 4 / 105), (4, -1 / 280)]
]


class TFWorld(World):
    def present(self, X):
        X = np.array(X)
        if X.shape[1] == 1 and self.rng.random() < 0.4:
            X = X[:, 0]
        return TF.constant(X)

    def noise_arg(self, arg):
        return TF.constant(arg) if isinstance(arg, np.ndarray) else arg

    def y_arg(self, y):
        return TF.constant(y[:, None] if self.rng.random() < 0.5 else y)

    second = False

    def derive_random(self, q, ops=None):
        if self.second:
            ops = ["scale", "neg", "addc", "addf", "mulf", "stretch", "select"]
        return World.derive_random(self, q, ops)

    def diff(self, q):
        dim = int(self.rng.integers(q.din))
        e = np.eye(q.din)[dim]
        how = self.choice(["method", "measure", "default"])
        if how == "default" and dim == 0:
            p = q.p.diff()
        elif how == "measure" and len(q.measures) == 1:
            p = self.st.GP()
            q.measures[0].real.diff(p, q.p, dim)
        else:
            p = q.p.diff(dim)
        if dim:
            self.event("dimension 1")
        if getattr(q, "order", 0):
            self.event("second derivative")
        res = self.functional(q, [(w, g * e) for w, g in STENCIL], p,
                              f"diff(P{q.seq}, {dim}, {how})")
        res.order = getattr(q, "order", 0) + 1
        return res


def run_diff(case, ctx, rng):
    # Sums of low-rank matrices fail with TensorFlow in the matrix library.
    j = case["i"] // 2
    if j % 10 == 9:
        return run_product(ctx, rng)
    w = TFWorld(rng, 2 if j % 3 == 0 else 1, ctx, smooth="analytic", linear=False)
    # Nested derivatives rely on inputs being perturbed, which transforms can undo.
    w.second = rng.random() < 0.4
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(0, 3)))
    plain = list(w.procs)
    if rng.random() < 0.5:
        try:
            w.condition(m, n_sets=1, kinds=("scalar", "vector"), lo=0.2)
        except Skip:
            pass
    n = 2 if w.second else int(rng.integers(1, 3))
    new = []
    for _ in range(n):
        q = new[-1] if new and w.second else w.choice(plain)
        X = w.X(q, 2)
        before = dense(q.p.mean(TF.constant(X))), dense(q.p.kernel(TF.constant(X)))
        d = w.diff(q)
        if len(q.measures) > 1:
            ctx.event("derivative of posterior")
        ctx.close(q.p.mean(TF.constant(X)), before[0], "process unchanged", 1e-12)
        ctx.close(q.p.kernel(TF.constant(X)), before[1], "process unchanged", 1e-12)
        new.append(d)
    for d in new:
        judge_all(w, ctx, d, plain + new)
    # Use a derivative further.
    d = w.choice(new)
    if d.order < 2:
        s = w.choice([w.scale, w.neg, w.addc, w.shift])(d) if rng.random() < 0.5 else \
            w.add(d, w.choice(w.partners(d)))
        s.order = d.order
        judge_all(w, ctx, s, plain)
    ctx.sig(w.ops)
    # Condition on derivatives.
    meas = w.choice(d.measures)
    f, b, N = w.fdd(d, n=int(rng.integers(1, 4)), kinds=("scalar", "vector"), lo=0.3)
    y = w.draw(meas.shadow, b, N)
    obs = [(f, b, N, y, d)]
    if rng.random() < 0.4:
        q = w.choice([q for q in w.partners(d) if meas in q.measures])
        f, b, N = w.fdd(q, n=2, kinds=("scalar", "vector"), lo=0.3)
        obs.append((f, b, N, w.draw(meas.shadow, b, N), q))
    try:
        post = w.condition(meas, obs=obs)
    except Skip:
        return
    for q in [d, w.choice(plain), w.choice([q for q in w.procs_in(post)])]:
        tol = max(cond_tol(post.shadow.cond), 1e-5, w.floor)
        judge(w, ctx, post, q, w.choice(plain + [d]), "posterior mean",
              "posterior covariance", None, tol)
    ctx.sig(w.ops)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops}


def judge_all(w, ctx, d, others):
    for meas in d.measures:
        tol = max(cond_tol(meas.shadow.cond), 1e-5, w.floor)
        for o in [o for o in others if meas in o.measures][:4]:
            judge(w, ctx, meas, d, o, "derivative mean", "derivative covariance",
                  "derivative variance", tol)


def judge(w, ctx, meas, d, o, name_mean, name_cov, name_var, tol):
    s, M, rng = meas.shadow, meas.real, w.rng
    X, Y = w.X(d, w.n(1, 4)), w.X(o, w.n(1, 3))
    info = dict(measure=meas.label, process=d.label, other=o.label, x=X, y=Y)
    bd, bo = [(d.pids[0], X)], [(o.pids[0], Y)]
    x, y = w.present(X), w.present(Y)
    Kd, Ko = s.bcov(bd), s.bcov(bo)
    sc = max(1, np.abs(Kd).max(), np.abs(Ko).max())
    mean = s.bmean(bd)
    ctx.close(M.means[d.p](x), mean[:, None], name_mean, tol, max(sc, np.abs(mean).max()),
              **info)
    c = s.bcov(bd, bo)
    ctx.close(M.kernels[d.p, o.p](x, y), c, name_cov, tol, sc, **info)
    ctx.close(M.kernels[o.p, d.p](y, x), c.T, name_cov, tol, sc, **info)
    if name_var is not None:
        ctx.close(M.kernels[d.p](x), Kd, name_var, tol, sc, **info)
        ctx.close(M.kernels[d.p].elwise(x), np.diag(Kd)[:, None], "derivative elwise", tol,
                  sc, **info)


def run_product(ctx, rng):
    """The derivative of a product of processes."""
    from stheno import EQ, GP, Measure, cross

    m = Measure()
    f, g = GP(EQ(), measure=m), GP(EQ().stretch(2), measure=m)
    x = TF.constant(np.linspace(-1, 1, 3))
    d = cross(f, g).diff()
    e = cross(f.diff(), g.diff())
    ctx.event("judged:product")
    try:
        ok = np.allclose(dense(d.kernel(x)), dense(e.kernel(x)))
    except Exception:
        ok = False
    if not ok:
        ctx.finding("derivative-of-product",
                    "derivative of a product of processes is not the product of derivatives")
    ctx.event("judged:derivative variance")
    ctx.close(e.kernel(x)[:3, :3], dense(f.diff().kernel(x)), "derivative variance", 1e-8)


# Finite differences.

LEARNED = {}


def learn(ctx, deriv, order, explicit):
    """Learn the functional that `diff_approx` denotes from its action on means."""
    from stheno import EQ, GP

    key = (deriv, order, explicit)
    if key in LEARNED:
        return LEARNED[key]
    calls, target = [], [None]

    def mean(x):
        x = np.asarray(x)
        calls.append(x)
        if target[0] is None:
            return np.zeros((len(x), 1))
        return (np.abs(x.reshape(len(x), -1)[:, :1] - target[0]) < 1e-12).astype(float)

    f = GP(mean, EQ())
    df = apply(f, deriv, order, explicit)
    res = {}
    for x0 in (0.0, 0.5):
        calls.clear()
        target[0] = None
        df.mean(np.array([x0]))
        points = np.unique(np.round(np.concatenate([c.ravel() for c in calls]), 13))
        ws = []
        for t in points:
            target[0] = t
            ws.append(float(dense(df.mean(np.array([x0])))[0, 0]))
        res[x0] = [(wt, t - x0) for wt, t in zip(ws, points)]
    same = len(res[0.0]) == len(res[0.5])
    ctx.check(
        same and np.allclose(res[0.0], res[0.5], rtol=1e-8, atol=1e-10),
        "translation", deriv=deriv, order=order, points=res,
    )
    LEARNED[key] = res[0.0]
    return res[0.0]


def apply(p, deriv, order, explicit):
    if not explicit:
        return p.diff_approx()
    return p.diff_approx(deriv, order) if explicit == 1 else p.diff_approx(
        deriv=deriv, order=order)


def run_approx(case, ctx, rng):
    w = World(rng, 1, ctx, smooth="analytic", linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 4))):
        w.base(m)
    grow(w, m, int(rng.integers(0, 4)))
    plain = [q for q in w.procs if q.din == 1]
    if rng.random() < 0.4:
        try:
            w.condition(m, n_sets=1, kinds=("scalar", "vector"), lo=0.2)
        except Skip:
            pass
    for _ in range(2):
        q = w.choice(plain)
        deriv = int(rng.choice([1, 1, 2, 2, 3, 4]))
        order = int(rng.integers(deriv + 3, 10))
        if deriv > 2:
            ctx.event("high order derivative")
        explicit = int(rng.integers(3))
        if not explicit:
            deriv, order = 1, 6
        pts = learn(ctx, deriv, order, explicit)
        W, G = np.array(pts).T
        # Moment conditions: exact on polynomials of degree below the order.
        for k in range(order):
            e = np.prod(range(1, deriv + 1)) if k == deriv else 0.0
            s = np.sum(np.abs(W) * np.abs(G) ** k) + 1
            ctx.check(abs(np.sum(W * G**k) - e) < 1e-9 * s, "moment conditions",
                      deriv=deriv, order=order, k=k, got=np.sum(W * G**k))
        X = w.X(q, 3)
        before = dense(q.p.mean(X)), dense(q.p.kernel(X))
        d = w.functional(q, pts, apply(q.p, deriv, order, explicit),
                         f"diff_approx(P{q.seq}, {deriv}, {order})")
        ctx.close(q.p.mean(X), before[0], "process unchanged", 1e-12)
        ctx.close(q.p.kernel(X), before[1], "process unchanged", 1e-12)
        A = np.abs(W).sum()
        for meas in d.measures:
            s, M = meas.shadow, meas.real
            sc0 = max(1, np.abs(s.cov(q.pids[0], X, q.pids[0], X)).max(),
                      np.abs(s.mean(q.pids[0], X)).max())
            for o in [d] + [o for o in plain if meas in o.measures][:3]:
                X, Y = w.X(d, w.n(1, 4)), w.X(o, w.n(1, 4))
                x, y = w.present(X), w.present(Y)
                tol = max(cond_tol(meas.shadow.cond), w.floor,
                          (1e-13 if deriv > 2 else 1e-14) * A * (A if o is d else 1))
                c = s.cov(d.pids[0], X, o.pids[0], Y)
                sc = max(sc0, np.abs(c).max())
                info = dict(measure=meas.label, process=d.label, other=o.label, x=X, y=Y)
                mu = s.mean(d.pids[0], X)[:, None]
                ctx.close(M.means[d.p](x), mu, "approximation mean", tol,
                          max(sc0, np.abs(mu).max()), **info)
                ctx.close(M.kernels[d.p, o.p](x, y), c, "approximation covariance", tol, sc,
                          **info)
                ctx.close(M.kernels[o.p, d.p](y, x), c.T, "approximation covariance", tol,
                          sc, **info)
                if o is not d and deriv < 3:
                    # The true derivative. Fine steps only.
                    D = sum(a * s.cov(q.pids[0], X + g, o.pids[0], Y)
                            for a, g in true_stencil(deriv))
                    err = np.abs(dense(M.kernels[d.p, o.p](x, y)) - D).max()
                    lim = 3e-2 if order >= deriv + 5 else 0.15
                    ctx.check(err < lim * max(sc, np.abs(D).max()), "close to derivative",
                              error=err, **info)
    # Condition on an approximation.
    meas = d.measures[0]
    f, b, N = w.fdd(d, n=2, kinds=("scalar",), lo=0.3)
    y = w.draw(meas.shadow, b, N)
    try:
        post = w.condition(meas, obs=[(f, b, N, y, d)])
    except Skip:
        return
    if A < 100:
        for q in [d, w.choice(plain)]:
            tol = max(cond_tol(post.shadow.cond), w.floor, 1e-13 * A**2)
            s, M = post.shadow, post.real
            X = w.X(q, 3)
            mu, K = s.mean(q.pids[0], X)[:, None], s.cov(q.pids[0], X, q.pids[0], X)
            sc = max(1, np.abs(mu).max(), np.abs(meas.shadow.cov(q.pids[0], X, q.pids[0], X)).max())
            ctx.close(M.means[q.p](X), mu, "posterior mean", tol, sc, process=q.label)
            ctx.close(M.kernels[q.p](X), K, "posterior covariance", tol, sc, process=q.label)
    ctx.sig(w.ops)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops}


def true_stencil(deriv):
    if deriv == 1:
        return STENCIL
    h = 0.05
    return [
        (c / h**2, g * h)
        for g, c in [(0, -205 / 72), (1, 8 / 5), (-1, 8 / 5), (2, -1 / 5), (-2, -1 / 5),
                     (3, 8 / 315), (-3, 8 / 315), (4, -1 / 560), (-4, -1 / 560)]
    ]
