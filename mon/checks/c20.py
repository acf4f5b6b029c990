"""C20: marginals never build the full covariance."""
import tracemalloc

import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import Pseudo, World, grow

RULE = (
    "One case is a random model whose elementary kernels are instrumented: every evaluation is "
    "logged with its sizes. The log of a query for marginals, in the prior and in exact and "
    "pseudo-point posteriors, is checked for evaluations of a full covariance, for growth "
    "faster than linear in the number of inputs, and for new evaluations of the covariance of "
    "the data; peak memory is measured for thousands of inputs. Distinct by program and query."
)
ASSUMPTIONS = [
    "evaluations of user-supplied kernels are observed; other work through peak memory",
    "the data of a posterior is evaluated again only when it is conditioned once more",
]
REQUIRED = {
    "judged:no full covariance": 150, "judged:linear evaluations": 80,
    "judged:data covariance once": 80, "judged:linear memory": 60,
    "judged:pseudo-points linear": 20, "judged:covariance once": 40,
    "judged:marginals right": 100, "prior": 30, "exact": 30, "pseudo": 20, "multi-output": 20,
    "pairwise": 300, "elwise": 300,
}

LOG = []
Tracked = None


def setup():
    """Define the instrumented kernel."""
    global Tracked
    if Tracked is not None:
        return
    import mlkernels as mk
    from lab import B
    from mlkernels import elwise, num_elements, pairwise

    class Tracked_(mk.Kernel):
        def __init__(self, k):
            self.k = k

        @property
        def _stationary(self):
            return self.k.stationary

        def __eq__(self, other):
            return isinstance(other, Tracked_) and self.k == other.k

        def render(self, formatter):
            return "T"

    @pairwise.dispatch
    def pairwise_(k: Tracked_, x: B.Numeric, y: B.Numeric):
        LOG.append(("pairwise", num_elements(x), num_elements(y)))
        return pairwise(k.k, x, y)

    @elwise.dispatch
    def elwise_(k: Tracked_, x: B.Numeric, y: B.Numeric):
        LOG.append(("elwise", num_elements(x), num_elements(y)))
        return elwise(k.k, x, y)

    Tracked = Tracked_


def cases(tier, seed):
    n = 700 if tier == "quick" else 4000
    return [{"seed": seed, "i": i} for i in range(n)]


class TrackedWorld(World):
    def wrap_kernel(self, k):
        return Tracked(k)


def entries(log):
    return sum(n * m if kind == "pairwise" else max(n, m) for kind, n, m in log)


def run(case, ctx):
    setup()
    rng = gen.rng_of("C20", case["seed"], case["i"])
    w = TrackedWorld(rng, int(rng.choice([1, 1, 2])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 4))):
        w.base(m)
    grow(w, m, int(rng.integers(0, 5)))
    meas, state = m, ["prior", "exact", "pseudo"][case["i"] % 3]
    if state == "exact":
        try:
            meas = w.condition(m)
        except Skip:
            state = "prior"
    elif state == "pseudo":
        meas = pseudo(w, ctx, m)
        if meas is None:
            meas, state = m, "prior"
    ctx.event(state)
    pool = [q for q in w.procs if meas in q.measures]
    # Processes constructed after conditioning, and products.
    if rng.random() < 0.5:
        pool.append(w.derive_random(w.choice(pool)))
        pool = [q for q in pool if meas in q.measures]
    q0 = w.choice(pool)
    both = [r for r in w.partners(q0) if meas in r.measures]
    if rng.random() < 0.5:
        pool = [w.cross([w.choice(both) for _ in range(2)])]
        ctx.event("multi-output")
    n = 24  # Larger than any set of observations.
    warm = False
    for _ in range(4):
        q = w.choice(pool)
        p = meas.real(q.p) if meas.real is not q.p.measure else q.p
        q2 = w.new_proc(p, q.pids, [meas], f"copy(P{q.seq})", q.din, silent=True)
        X = w.X(q, n)
        what = w.choice(["marginals", "bounds", "var_diag", "elwise"])
        kind, arg = noise(rng, n * len(q.pids))
        info = dict(process=q.label, measure=meas.label, what=what, noise=kind, state=state)
        LOG.clear()
        got = query(p, w.present(X), arg, what)
        log = list(LOG)
        for k, *_ in log:
            ctx.event(k)
        ctx.check(
            all(k == "elwise" or min(a, b) < n for k, a, b in log), "no full covariance",
            log=log, **info,
        )
        if warm:
            ctx.check(
                all(n in (a, b) for k, a, b in log), "data covariance once", log=log, **info,
            )
        warm = True
        judge(w, ctx, meas, q, X, arg, got, what, info)
        # Linear growth.
        LOG.clear()
        query(p, w.present(w.X(q, n)), noise_like(arg, n * len(q.pids)), what)
        e1 = entries(LOG)
        LOG.clear()
        query(p, w.present(w.X(q, 4 * n)), noise_like(arg, 4 * n * len(q.pids)), what)
        e4 = entries(LOG)
        ctx.check(e4 <= 4.01 * e1, "linear evaluations", entries=(e1, e4), **info)
        ctx.sig(w.ops, what, kind, state)
    # Memory.
    q = w.choice(pool)
    p = meas.real(q.p) if meas.real is not q.p.measure else q.p
    N = 2000
    X = np.random.default_rng(0).uniform(-2, 2, (N, q.din))
    for what in ("marginals", "bounds"):
        kind, arg = noise(rng, N * len(q.pids))
        tracemalloc.start()
        query(p, X, arg, what)
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
        ctx.check(peak < 0.4 * 8 * N**2, "linear memory", peak=peak, process=q.label,
                  measure=meas.label, noise=kind, state=state)
    # A distribution evaluates its covariance once.
    q = w.choice([q for q in w.procs if meas in q.measures and not q.mo])
    p = meas.real(q.p) if meas.real is not q.p.measure else q.p
    X = w.X(q, n)
    d = p(w.present(X), 0.3)
    d.var
    LOG.clear()
    for what in rng.permutation(["var", "logpdf", "entropy", "sample", "mean", "mean_var",
                                 "var", "logpdf"]):
        if what == "logpdf":
            d.logpdf(np.zeros(n))
        elif what == "entropy":
            d.entropy()
        elif what == "sample":
            d.sample(2)
        else:
            getattr(d, what)
        ctx.check(all(k == "elwise" or min(a, b) < n for k, a, b in LOG), "covariance once",
                  after=what, log=list(LOG), process=q.label, measure=meas.label)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops, "state": state}


def noise(rng, n):
    from matrix import Diagonal

    kind = ["none", "none", "scalar", "vector", "diag"][rng.integers(5)]
    return kind, {"none": None, "scalar": 0.3, "vector": np.linspace(0.1, 0.4, n),
                  "diag": Diagonal(np.linspace(0.1, 0.4, n))}[kind]


def noise_like(arg, n):
    if arg is None or isinstance(arg, float):
        return arg
    if isinstance(arg, np.ndarray):
        return np.linspace(0.1, 0.4, n)
    return type(arg)(np.linspace(0.1, 0.4, n))


def query(p, x, arg, what):
    d = p(x) if arg is None else p(x, arg)
    if what == "marginals":
        return d.marginals()
    if what == "bounds":
        return d.marginal_credible_bounds()
    if what == "var_diag":
        return (d.var_diag,)
    return (p.kernel.elwise(x),)


def judge(w, ctx, meas, q, X, arg, got, what, info):
    s = meas.shadow
    mean = np.concatenate([s.mean(pid, X) for pid in q.pids])
    var = np.concatenate([np.diag(s.cov(pid, X, pid, X)) for pid in q.pids])
    n = len(var)
    v = 0 if arg is None else (arg if isinstance(arg, float) else np.linspace(0.1, 0.4, n))
    tol, sc = 10 * w.tol(meas), max(1, np.abs(mean).max(), np.abs(var).max())
    if what == "marginals":
        want = (mean, np.maximum(var + v, 0))
    elif what == "bounds":
        # Standard deviations magnify errors of variances that almost vanish.
        e = 1.96 * np.sqrt(np.maximum(var + v, 0))
        want = (mean, mean - e, mean + e)
        tol = np.sqrt(tol)
    elif what == "var_diag":
        want = (var + v,)
    else:
        want = (var[:, None],)
    for a, b in zip(got, want):
        ctx.close(a, b, "marginals right", tol, sc, **info)


def pseudo(w, ctx, m):
    """Condition on many observations through few pseudo-points."""
    rng = w.rng
    q = w.choice(w.procs_in(m))
    r = w.choice([r for r in w.partners(q) if m in r.measures])
    res = []
    method = w.choice(["vfe", "fitc", "dtc"])
    cls = {"vfe": w.st.PseudoObs, "fitc": w.st.PseudoObsFITC, "dtc": w.st.PseudoObsDTC}[method]
    Z = w.X(r, 4)
    from mon.ref import ShadowPseudo

    for n in (20, 80):
        X = w.X(q, n)
        y = rng.standard_normal(n)
        LOG.clear()
        obs = cls(r.p(w.present(Z), 0.1), q.p(w.present(X), 0.4), y)
        obs.elbo(m.real)
        log = list(LOG)
        ctx.check(all(k == "elwise" or min(a, b) < n for k, a, b in log),
                  "pseudo-points linear", log=log, process=q.label, method=method)
        res.append(entries(log))
        if n == 20:
            keep = obs, X, y
    ctx.check(res[1] <= 4.01 * res[0], "pseudo-points linear", entries=res, method=method,
              process=q.label)
    obs, X, y = keep
    try:
        shadow = ShadowPseudo(m.shadow, [(r.pids[0], Z)], 0.1 * np.eye(4), [(q.pids[0], X)],
                              np.full(20, 0.4), y, method)
    except Skip:
        return None
    if shadow.cond > 2e3:
        return None
    return w.posterior(m.real | obs, shadow, m, f"{m.label} | pseudo({method})")
