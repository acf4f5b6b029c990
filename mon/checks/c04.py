"""C04: conditioning is coherent."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import World, cond_tol, grow

RULE = (
    "One case is a random model with 2-3 sets of observations. The posterior after "
    "conditioning on everything at once is compared to posteriors through other histories: "
    "sequential in a random order and grouping, permuted rows and sets, a set split in two "
    "sets, every call form, with empty sets inserted; log-evidence is compared to the chain "
    "rule over the same histories. Distinct by model and history."
)
ASSUMPTIONS = ["float64; tolerance from the condition number of the shadow posterior"]
REQUIRED = {
    "judged:sequential conditioning": 30,
    "judged:permuted sets": 30,
    "judged:permuted rows": 30,
    "judged:split set": 25,
    "judged:call form": 30,
    "judged:chain rule": 30,
    "judged:empty set": 20,
    "judged:joint log-evidence": 30,
    "judged:joint of dependent": 60, "judged:chain of dependent": 30,
    "dependence matters": 30,
}


def cases(tier, seed):
    n = 110 if tier == "quick" else 2500
    return [{"seed": seed, "i": i} for i in range(n)]


class Set:
    """Observations of one process with independent noise."""

    def __init__(self, q, X, v, y):
        self.q, self.X, self.v, self.y = q, X, v, y

    def take(self, idx):
        return Set(self.q, self.X[idx], self.v[idx], self.y[idx])

    def pair(self, w):
        v = self.v
        if len(v) and np.all(v == v[0]) and w.rng.random() < 0.5:
            v = float(v[0])
        return self.q.p(gen.present(w.rng, self.X), v), w.y_arg(self.y)


def condition(w, meas, sets, form=None):
    pairs = [s.pair(w) for s in sets]
    st = w.st
    form = w.choice(["or", "star", "obs", "obs-tuple", "args"]) if form is None else form
    if form == "or":
        return meas | (pairs[0] if len(pairs) == 1 else tuple(pairs))
    if form == "star":
        return meas.condition(*pairs)
    if form == "obs":
        return meas.condition(st.Obs(*pairs) if len(pairs) > 1 else st.Obs(*pairs[0]))
    if form == "obs-tuple":
        return meas | st.Obs(*pairs)
    if len(pairs) == 1:
        return meas.condition(*pairs[0])
    return meas.condition(st.Observations(*pairs))


def dependent(w, ctx, rng):
    """Processes that are independent a priori and that observations make dependent."""
    from mon.ref import ShadowExact, gauss_logpdf

    m = w.measure()
    ps = [w.base(m, din=1) for _ in range(int(rng.integers(2, 4)))]
    s = w.add(ps[0], ps[1])
    for p in ps[2:]:
        s = w.add(s, p)
    s = w.derive_random(s) if rng.random() < 0.4 else s
    f, b, N = w.fdd(s, n=3, lo=0.05)
    y = w.draw(m.shadow, b, N)
    shadow = ShadowExact(m.shadow, b, N, y)
    if shadow.cond > 2e3:
        return
    meas = w.posterior(m.real | (f, y), shadow, m, "dependent")
    sets = []
    for p in [ps[i] for i in rng.permutation(len(ps))]:
        X = w.X(p, int(rng.integers(1, 4)))
        v = np.full(len(X), 0.1)
        sets.append(Set(p, X, v, rng.standard_normal(len(X))))
    blocks = [(t.q.pids[0], t.X) for t in sets]
    noise = np.diag(np.concatenate([t.v for t in sets]))
    values = np.concatenate([t.y for t in sets])
    S = shadow.bcov(blocks) + noise
    expected = gauss_logpdf(values, shadow.bmean(blocks), S)
    tol = max(cond_tol(shadow.cond), 1e-7) * max(1, np.linalg.cond(S)) ** 0.5
    sc = max(1, abs(expected))
    joint = meas.real.logpdf(*[t.pair(w) for t in sets])
    ctx.close(joint, expected, "joint of dependent", tol, sc)
    chain, post = 0.0, meas.real
    for t in sets:
        chain += float(post.logpdf(*t.pair(w)))
        post = condition(w, post, [t])
    ctx.close(chain, expected, "chain of dependent", tol, sc)
    obs = w.st.Obs(*[t.pair(w) for t in sets])
    ctx.close(meas.real.logpdf(obs), expected, "joint of dependent", tol, sc)
    # Does independence matter? Only then has something been observed.
    alone = sum(gauss_logpdf(t.y, shadow.bmean([b]), shadow.bcov([b]) + np.diag(t.v))
                for t, b in zip(sets, blocks))
    ctx.event("dependence matters", int(abs(alone - expected) > 1e-3 * sc))


def run(case, ctx):
    rng = gen.rng_of("C04", case["seed"], case["i"])
    D = int(rng.choice([1, 1, 2, 2, 3]))
    w = World(rng, D, ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)))
    prior = m
    if rng.random() < 0.25:
        # Do everything with respect to a posterior.
        try:
            prior = w.condition(m, n_sets=1)
        except Skip:
            pass
    # All processes in the observations are constructed with `m`.
    pool = [q for q in w.procs if q.measures[0] is m and prior in q.measures]
    sets = []
    for _ in range(int(rng.integers(2, 4))):
        q = w.choice(pool)
        n = int(rng.integers(1, 4))
        X = w.X(q, n)
        v = rng.uniform(0.1, 0.5, n) if rng.random() < 0.5 else np.full(n, 0.3)
        b = [(q.pids[0], X)]
        y = w.draw(prior.shadow, b, np.diag(v))
        sets.append(Set(q, X, v, y))
    qs = [w.choice([q for q in w.procs if prior in q.measures]) for _ in range(3)]
    Xs = [w.X(q, 2) for q in qs]
    M = prior.real
    w.log(f"prior {prior.label}; sets {[(s.q.seq, len(s.y)) for s in sets]}")

    # Log-evidence and tolerance from the shadow.
    from mon.ref import ShadowExact, gauss_logpdf

    blocks = [(s.q.pids[0], s.X) for s in sets]
    N = np.diag(np.concatenate([s.v for s in sets]))
    y = np.concatenate([s.y for s in sets])
    shadow = ShadowExact(prior.shadow, blocks, N, y)
    if shadow.cond > 2e3:
        raise Skip
    tol = max(cond_tol(shadow.cond), 1e-8)

    def summary(post):
        """Means of all and cross-covariances of some processes."""
        out = []
        for q, X in zip(qs, Xs):
            x = gen.present(rng, X)
            out.append(dense(post.means[q.p](x)).ravel())
        for i, j in ((0, 0), (0, 1), (1, 2)):
            out.append(
                dense(
                    post.kernels[qs[i].p, qs[j].p](
                        gen.present(rng, Xs[i]), gen.present(rng, Xs[j])
                    )
                ).ravel()
            )
        return np.concatenate(out)

    ref = summary(condition(w, M, sets))
    scale = max(1.0, np.abs(ref).max())

    def same(post, name, **info):
        ctx.close(summary(post), ref, name, tol * 10, scale, **info)

    # Against the formula, so that all histories being wrong together is noticed.
    ctx.close(
        ref[: 2 * len(qs)],
        np.concatenate([shadow.mean(q.pids[0], X) for q, X in zip(qs, Xs)]),
        "all at once", tol * 10, scale,
    )

    # Sequential, in a random order and grouping.
    order = list(rng.permutation(len(sets)))
    cut = int(rng.integers(1, len(sets)))
    groups = [[sets[i] for i in order[:cut]], [sets[i] for i in order[cut:]]]
    post, chain = M, 0.0
    for g in groups:
        pairs = [s.pair(w) for s in g]
        chain += float(
            post.logpdf(*pairs) if len(pairs) > 1 or rng.random() < 0.5
            else post.logpdf(*pairs[0])
        )
        post = condition(w, post, g)
    same(post, "sequential conditioning", order=order, cut=cut)
    expected = gauss_logpdf(y, prior.shadow.bmean(blocks), prior.shadow.bcov(blocks) + N)
    ctx.close(chain, expected, "chain rule", 1e-7, max(1, abs(expected)))
    joint = M.logpdf(*[s.pair(w) for s in [sets[i] for i in order]])
    ctx.close(joint, expected, "joint log-evidence", 1e-7, max(1, abs(expected)))

    # Permuted sets.
    same(condition(w, M, [sets[i] for i in order]), "permuted sets", order=order)

    # Permuted rows within sets.
    rows = [s.take(rng.permutation(len(s.y))) for s in sets]
    same(condition(w, M, rows), "permuted rows")

    # Split a set.
    big = [i for i, s in enumerate(sets) if len(s.y) > 1]
    if big:
        i = w.choice(big)
        k = int(rng.integers(1, len(sets[i].y)))
        split = sets[:i] + [sets[i].take(slice(0, k)), sets[i].take(slice(k, None))]
        split += sets[i + 1 :]
        same(condition(w, M, split), "split set", i=i, k=k)

    # Call forms.
    form = w.choice(["or", "star", "obs", "obs-tuple", "args"])
    same(condition(w, M, sets, form), "call form", form=form)

    # Empty sets.
    if rng.random() < 0.6:
        empty = sets[0].take(slice(0, 0))
        where = rng.integers(3)
        x = np.zeros((0,)) if empty.q.din == 1 else np.zeros((0, empty.q.din))
        pair = (empty.q.p(x, 0.1), np.zeros(0))
        if where == 0:
            post = condition(w, M, sets).condition(*pair)
        elif where == 1:
            post = condition(w, M.condition(pair), sets)
        else:
            post = M.condition(*([s.pair(w) for s in sets] + [pair]))
        same(post, "empty set", where=where)
    dependent(w, ctx, rng)
    ctx.sig(w.ops, order, cut, form)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops, "order": str(order), "first group": cut}
