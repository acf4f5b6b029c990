"""C11: measures are isolated from each other and priors are immutable."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.ref import ShadowExact
from mon.world import World, cond_tol, grow

RULE = (
    "One case is a history of construct/condition/extend/sample/log-density/query steps "
    "over a tree of up to 8 measures. After every step, everything recorded before about "
    "all measures (means, covariances, names, members) is read again and must be "
    "unchanged; memberships of all processes are compared to a model. Distinct by history."
)
ASSUMPTIONS = ["repeated reads of the same quantity agree to 1e-9 of its scale"]
REQUIRED = {
    "judged:unchanged": 300,
    "judged:member": 300,
    "judged:not a member": 30,
    "judged:constructing measure": 100,
    "judged:observations reused": 20,
    "judged:combination with many posteriors": 60,
    "judged:twin model": 20,
}


def cases(tier, seed):
    n = 500 if tier == "quick" else 3000
    return [{"seed": seed, "i": i} for i in range(n)]


def member(meas, p, x):
    try:
        meas.means[p]
        meas.kernels[p]
        return True
    except Exception:
        return False


class Snapshot:
    def __init__(self):
        self.items = []

    def record(self, w, meas):
        rng = w.rng
        procs = w.procs_in(meas)
        q, r = w.choice(procs), w.choice(procs)
        x, y = gen.present(rng, w.X(q, 2)), gen.present(rng, w.X(r, 2))
        self.items.append(
            (
                meas, q, r, x, y,
                dense(meas.real.means[q.p](x)).copy(),
                dense(meas.real.kernels[q.p, r.p](x, y)).copy(),
            )
        )

    def verify(self, w, ctx, what, k=4):
        idx = list(w.rng.permutation(len(self.items)))[:k]
        for i in idx:
            meas, q, r, x, y, mu, K = self.items[i]
            info = dict(after=what, measure=meas.label, left=q.label, right=r.label)
            fresh = w.rng.random() < 0.5
            m = meas.real
            if fresh:
                a, b = m(q.p), m(r.p)  # New processes: nothing is cached.
                ctx.close(a.mean(x), mu, "unchanged", 1e-9, **info)
                got = dense(m.kernels[a, b](x, y))
            else:
                ctx.close(m.means[q.p](x), mu, "unchanged", 1e-9, **info)
                got = dense(m.kernels[q.p, r.p](x, y))
            ctx.close(got, K, "unchanged", 1e-9, max(1, np.abs(K).max()) * 10, **info)


def run(case, ctx):
    rng = gen.rng_of("C11", case["seed"], case["i"])
    w = World(rng, 1, ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(2, 4))):
        w.base(m, din=1)
    grow(w, m, int(rng.integers(0, 3)))
    snap = Snapshot()
    snap.record(w, m)
    prior_ps = list(m.real.ps)

    def verify_structure(what):
        for _ in range(6):
            q = w.choice(w.procs)
            ctx.check(
                q.p.measure is q.measures[0].real, "constructing measure",
                after=what, process=q.label, expected=q.measures[0].label,
            )
            meas = w.choice(w.measures)
            if meas in q.measures:
                ctx.check(
                    member(meas.real, q.p, 0.0), "member",
                    after=what, process=q.label, measure=meas.label,
                )
                ctx.check(any(q.p is z for z in meas.real.ps), "member",
                          after=what, process=q.label, measure=meas.label)
            else:
                ctx.check(
                    not any(q.p is z for z in meas.real.ps), "not a member",
                    after=what, process=q.label, measure=meas.label,
                )
                ctx.check(
                    not member(meas.real, q.p, 0.0), "not a member",
                    after=what, process=q.label, measure=meas.label,
                )

    n_steps = int(rng.integers(4, 8))
    for _ in range(n_steps):
        kind = w.choice(
            ["condition", "condition", "grow", "sample", "logpdf", "base", "post-grow",
             "reuse", "combine"]
        )
        if kind == "condition" and len(w.measures) < 8:
            try:
                w.condition(w.choice(w.measures), n_sets=1, lo=0.2)
            except Skip:
                continue
        elif kind == "grow":
            grow(w, m, 1)
        elif kind == "base":
            w.base(m, din=1)
        elif kind == "post-grow":
            meas = w.measures[-1]
            q = w.choice([q for q in w.procs if meas in q.measures])
            c = w.copy(meas, q)
            ctx.check(c.p.measure is meas.real, "constructing measure", process=c.label)
            w.derive_random(c)
        elif kind == "sample":
            meas = w.choice(w.measures)
            q = w.choice([q for q in w.procs_in(meas)])
            meas.real.sample(q.p(gen.present(rng, w.X(q, 2)), 0.1))
            w.log("sample", meas.label)
        elif kind == "logpdf":
            meas = w.choice(w.measures)
            q = w.choice(w.procs_in(meas))
            meas.real.logpdf(q.p(gen.present(rng, w.X(q, 2)), 0.1), np.zeros(2))
            w.log("logpdf", meas.label)
        elif kind == "reuse":
            # The same observations under several measures.
            q = w.choice([q for q in w.procs if q.measures[0] is m])
            X = w.X(q, 2)
            y = rng.standard_normal(2)
            f = q.p(gen.present(rng, X), 0.4)
            obs = w.st.Obs(f, y)
            r = q if rng.random() < 0.5 else w.choice(
                [r for r in w.procs if r.measures[0] is m])
            metas = [z for z in q.measures if z in r.measures][:4]
            for z in [metas[i] for i in rng.permutation(len(metas))]:
                s = ShadowExact(z.shadow, [(q.pids[0], X)], 0.4 * np.eye(2), y)
                Z = w.X(r, 2)
                post = z.real | obs
                tol = cond_tol(s.cond)
                ctx.close(post.means[r.p](gen.present(rng, Z)), s.mean(r.pids[0], Z)[:, None],
                          "observations reused", tol, measure=z.label, process=r.label)
                e = s.cov(r.pids[0], Z, r.pids[0], Z)
                ctx.close(post.kernels[r.p](gen.present(rng, Z)), e, "observations reused",
                          tol, max(10, np.abs(e).max()), measure=z.label, process=r.label)
                # This measure exists, so track it.
                w.posterior(post, s, z, f"{z.label} | reused")
                if len(w.measures) >= 9:
                    break
        elif kind == "combine":
            q = w.choice([q for q in w.procs if q.measures[0] is m])
            r = w.choice([q for q in w.procs if q.measures[0] is m])
            res = w.add(q, r) if rng.random() < 0.7 else None
            if res is not None:
                ctx.check(res.p.measure is m.real, "combination with many posteriors",
                          measures=len(res.measures))
        w.log("step", kind)
        verify_structure(kind)
        snap.verify(w, ctx, kind)
        snap.record(w, w.choice(w.measures))
        ctx.check(
            all(a is b for a, b in zip(m.real.ps, prior_ps)), "members stay in order"
        )
        prior_ps = list(m.real.ps)
    # Sums and Cartesian products of processes that have many posteriors belong to the
    # measure that the processes were constructed with.
    base = [q for q in w.procs if q.measures[0] is m]
    q, r = w.choice(base), w.choice(base)
    x = np.array([0.3])
    extra = [m.real | (q.p(x, 1.0), np.array([1.0 * i])) for i in range(4)]
    p = r.p + q.p
    c = w.st.cross(q.p, r.p)
    pr = q.p * r.p
    for name, z in (("sum", p), ("cross", c), ("product", pr)):
        ctx.check(z.measure is m.real, "combination with many posteriors", what=name)
        for e in extra + [m.real]:
            ctx.check(member(e, z, 0.0), "member", what=name)
    ctx.close(
        p.mean(x), (m.shadow.mean(r.pids[0], x[:, None]) + m.shadow.mean(q.pids[0], x[:, None]))[:, None],
        "combination mean", 1e-8,
    )
    # A structurally identical model is not affected.
    st = w.st
    ma, mb = st.Measure(), st.Measure()
    k, kf, _ = gen.kernel(rng, linear=False)
    a, b = st.GP(k, measure=ma), st.GP(k, measure=mb)
    before = dense(mb.kernels[b](x)).copy()
    post = ma | (a(x, 0.1), np.ones(1))
    a2 = a + 1
    ctx.check(b.measure is mb and len(mb.ps) == 1, "twin model")
    ctx.close(mb.kernels[b](x), before, "twin model", 1e-12)
    ctx.check(not member(ma, b, 0) and not member(mb, a, 0), "twin model")
    ctx.check(not member(post, b, 0) and not member(mb, a2, 0), "twin model")
    snap.verify(w, ctx, "end", k=6)
    verify_structure("end")
    ctx.sig(w.ops)
    if case["i"] < 6:
        ctx.sample = {"history": w.ops}
