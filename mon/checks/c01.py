"""C01: derived processes follow joint Gaussian algebra."""
import numpy as np

from mon import gen
from mon.core import Skip
from mon.world import World

RULE = (
    "One case is a random program of 3-14 constructor calls over 1-3 independent "
    "processes (sums, differences, scaling, functions, shifts, stretches, selections, "
    "transforms, custom rules, copies), with queries of means and (cross-)covariances "
    "interleaved in random order; non-trivial if at least one derived process was "
    "judged. Distinct by the sequence of operations."
)
ASSUMPTIONS = ["float64; tolerance 1e-8 of the scale of the covariance"]
REQUIRED = {"judged:covariance": 200, "judged:mean": 100, "judged:variance diagonal": 50}


def cases(tier, seed):
    n = 600 if tier == "quick" else 8000
    return [{"seed": seed, "i": i} for i in range(n)]


def run(case, ctx):
    rng = gen.rng_of("C01", case["seed"], case["i"])
    D = int(rng.choice([1, 1, 2, 3]))
    w = World(rng, D, ctx)
    w.floor = 1e-8
    m = w.measure()
    for _ in range(int(rng.integers(1, 4))):
        w.base(m)
    n_ops = int(rng.integers(2, 12))
    for _ in range(n_ops):
        r = rng.random()
        q = w.choice(w.procs)
        if r < 0.05:
            w.base(m)
        elif r < 0.3:
            w.add(q, w.choice(w.partners(q)))
        elif r < 0.36:
            w.custom(m)
        elif r < 0.42:
            w.copy(m, q)
        else:
            w.derive_random(q)
        if rng.random() < 0.3:
            # Interleave queries: these resolve entries of the lazy tensors.
            a, b = w.choice(w.procs), w.choice(w.procs)
            w.judge_cov(
                m, a, b, w.X(a, 2), w.X(b, 3), "covariance"
            )
    # Query all pairs in a random order.
    Xs = {d: gen.inputs(rng, int(rng.integers(1, 4)), d) for d in {1, D}}
    Ys = {d: gen.inputs(rng, int(rng.integers(1, 4)), d) for d in {1, D}}
    pairs = [(a, b) for a in w.procs for b in w.procs]
    rng.shuffle(pairs)
    for a, b in pairs[:40]:
        w.judge_cov(m, a, b, Xs[a.din], Ys[b.din], "covariance")
    for q in w.procs:
        X = Xs[q.din]
        w.judge_mean(m, q, X, "mean")
        w.judge_elwise(m, q, X, "variance diagonal")
        w.judge_cov(m, q, q, X, None, "variance")
        ctx.check(q.p.measure is m.real, "measure of derived process", process=q.label)
    # A finite-dimensional distribution of the process says the same.
    q = w.choice(w.procs)
    X = Xs[q.din]
    d = q.p(gen.present(rng, X))
    ctx.close(d.mean, m.shadow.mean(q.pids[0], X)[:, None], "fdd mean", 1e-8)
    ctx.close(d.var, m.shadow.cov(q.pids[0], X, q.pids[0], X), "fdd variance", 1e-8)
    ctx.sig([o for o in w.ops])
    if case["i"] < 8:
        ctx.sample = {"program": w.ops, "judgements": ctx.events.total()}
