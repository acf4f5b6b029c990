"""C22: invalid use is rejected and changes nothing."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.ref import ShadowExact
from mon.world import World, grow

RULE = (
    "One case is a random history of two models with posteriors, into which 6-10 invalid "
    "calls are injected at random points; each must raise, and a fingerprint of both models "
    "(names, members, default measure, means and covariances) taken "
    "before must match after it. Distinct by program and injected calls."
)
ASSUMPTIONS = [
    "an invalid call may be rejected when it is made or when its result is used",
    "observations of which sizes do not match are made in models of their own (see the known "
    "finding)",
    "auxiliary processes that a rejected call adds to a measure are not a change",
]
KINDS = [
    "add", "sub", "product", "cross", "measure sum", "measure product", "combine", "logpdf",
    "sample", "foreign sample", "columns", "pseudo dense noise", "pseudo no noise",
    "no measure", "duplicate name", "duplicate constructor", "unknown name", "unnamed",
    "foreign mean", "foreign kernel", "foreign copy", "foreign condition", "later process",
    "take", "tuple sizes", "output sizes", "noise size", "value size", "operand",
    "name type", "pseudo foreign", "raise in with",
]
REQUIRED = {f"judged:{k}": 10 for k in KINDS}
REQUIRED["judged:unchanged"] = 1000
REQUIRED["judged:usable afterwards"] = 100
REQUIRED["finding examined"] = 1


def cases(tier, seed):
    n = 400 if tier == "quick" else 6000
    return [{"seed": seed, "i": i} for i in range(n)] + [{"finding": "unusable"}]


def fingerprint(w, names, probes):
    import stheno as st

    out = {"default": st.Measure.default, "values": [], "names": [],}
    for meas in w.measures:
        M = meas.real
        for n in names:
            try:
                out["names"].append(id(M[n]))
            except KeyError:
                out["names"].append(None)
        for q in w.procs:
            try:
                out["names"].append(M[q.p])
            except KeyError:
                out["names"].append(None)
    for meas, q, r, x, y in probes:
        # Do not rely on what is cached.
        M = meas.real
        out["values"].append(dense(M.means[q.p](x)).copy())
        out["values"].append(dense(M.kernels[q.p, r.p](x, y)).copy())
    for q in w.procs:
        out["names"].append(id(q.p.measure))
    return out


def same(a, b):
    if a["default"] is not b["default"] or a["names"] != b["names"]:
        return False
    return all(
        x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)
        for x, y in zip(a["values"], b["values"])
    )


def run(case, ctx):
    import lab as B
    import stheno as st

    if "finding" in case:
        return finding(ctx)
    rng = gen.rng_of("C22", case["seed"], case["i"])
    w = World(rng, 1, ctx, linear=False)
    m1, m2 = w.measure(), w.measure()
    for m in (m1, m2):
        for _ in range(2):
            w.base(m, din=1)
    names = ["a", "b", "c"]
    for m in (m1, m2):
        ps = w.procs_in(m)
        m.real.name(ps[0].p, "a")
        m.real.name(ps[1].p, "b")
    for m in (m1, m2):
        if rng.random() < 0.7:
            q = w.choice(w.procs_in(m))
            f, b, N = w.fdd(q, n=2, lo=0.1)
            y = w.draw(m.shadow, b, N)
            w.posterior(m.real | (f, y), ShadowExact(m.shadow, b, N, y), m, "posterior")
    grow(w, m1, int(rng.integers(1, 4)), custom=0, base=0)
    done = []

    def mine(m):
        return w.choice([q for q in w.procs if q.measures[0] is m]).p

    x = np.linspace(-1, 1, 3)
    y = np.array([0.1, 0.2, 0.3])

    def noise(n):
        return [0.5, np.full(n, 0.5), 0.5 * np.eye(n)][rng.integers(3)]

    def own():
        t = st.Measure()
        p = st.GP(st.EQ(), measure=t)
        return lambda x, N, y: dense((t | (p(x, N), y))(p).mean(x))

    def inject(kind):
        """Returns the invalid call."""
        a, b = (m1, m2) if rng.random() < 0.5 else (m2, m1)
        f, g = mine(a), mine(b)
        h = mine(a)
        A = a.real
        if kind == "add":
            return lambda: f + g
        if kind == "sub":
            return lambda: f - g
        if kind == "product":
            return lambda: f * g
        if kind == "cross":
            return lambda: st.cross(*[[f, g], [f, h, g], [f, g, h]][rng.integers(3)])
        if kind == "measure sum":
            return lambda: A.sum(st.GP(), f, g)
        if kind == "measure product":
            return lambda: A.mul(st.GP(), f, g)
        if kind == "combine":
            return lambda: st.Obs((f(x, noise(3)), y), (g(x, noise(3)), y))
        if kind == "logpdf":
            return lambda: A.logpdf((f(x, 0.5), y), (g(x, 0.5), y))
        if kind == "sample":
            return lambda: A.sample(2, f(x, 0.5), g(x, 0.5))
        if kind == "foreign sample":
            return lambda: A.sample(2, g(x, 0.5))
        if kind == "columns":
            Y = np.stack([y, y], axis=1)
            return [
                lambda: st.Obs(f(x, 0.5), Y),
                lambda: A | (f(x, 0.5), Y),
                lambda: A.condition(f(x, 0.5), Y),
                lambda: st.PseudoObs(f(x), f(x, 0.5), Y),
                lambda: f | (f(x, 0.5), Y),
            ][rng.integers(5)]
        if kind in ("pseudo dense noise", "pseudo no noise"):
            cls = [st.PseudoObs, st.PseudoObsFITC, st.PseudoObsDTC][rng.integers(3)]
            N = 0.5 * np.eye(3) if kind == "pseudo dense noise" else None
            if rng.random() < 0.5:
                return lambda: cls(f(x[:2]), f(x, N), y).elbo(A)

            def con():
                t = st.Measure()
                p = st.GP(st.EQ(), measure=t)
                return dense((t | cls(p(x[:2]), p(x, N), y))(p).mean(x))

            return con
        if kind == "no measure":
            p = st.GP()
            return [
                lambda: p.measure, lambda: p.mean, lambda: p.kernel, lambda: p(x),
                lambda: p + f, lambda: f + p, lambda: p.stationary, lambda: A(p),
                lambda: A.means[p],
            ][rng.integers(9)]
        if kind == "duplicate name":
            p, q = A["a"], A["b"]
            form = rng.integers(3)
            if form == 0:
                return lambda: A.name(p, "b")
            if form == 1:
                return lambda: A.name(h if h is not q else p, "b")

            def rename():
                q.name = "a"

            return rename
        if kind == "duplicate constructor":
            def con():
                with A:
                    st.GP(st.EQ(), name="a")

            return [lambda: st.GP(st.EQ(), measure=A, name="b"), con][rng.integers(2)]
        if kind == "unknown name":
            return lambda: A["nope"]
        if kind == "unnamed":
            ps = [q.p for q in w.procs if not any(q.p is A[n] for n in ("a", "b"))]
            p = w.choice(ps + [st.GP()])
            return lambda: A[p]
        if kind == "foreign mean":
            return lambda: A.means[g]
        if kind == "foreign kernel":
            return [lambda: A.kernels[g], lambda: A.kernels[f, g],
                    lambda: A.kernels[g, f]][rng.integers(3)]
        if kind == "foreign copy":
            return [lambda: A(g), lambda: A(g(x))][rng.integers(2)]
        if kind == "foreign condition":
            o = [
                lambda: A.condition(st.Obs(g(x, 0.5), y)), lambda: A | (g(x, 0.5), y),
                lambda: A.condition(g(x, 0.5), y), lambda: A | ((g(x, 0.5), y), (g(x), y)),
                lambda: A | st.PseudoObs(g(x[:2]), f(x, 0.5), y),
                lambda: A | st.PseudoObsFITC(f(x[:2]), g(x, 0.5), y),
                lambda: A | st.PseudoObsDTC((g(x[:2]), g(x[:1])), g(x, 0.5), y),
            ][rng.integers(7)]
            # Rejected at the latest when the posterior is used.
            return lambda: dense(o().means[f](x))

        if kind == "later process":
            t = st.Measure()
            p = st.GP(st.EQ(), measure=t)
            post = t | (p(x, 0.5), y)
            q = [lambda: st.GP(st.EQ(), measure=t), ][0]()
            return [lambda: post.means[q], lambda: post.kernels[q], lambda: post(q),
                    lambda: post.kernels[p, q], lambda: post.kernels[q, p]][rng.integers(5)]
        if kind == "take":
            ind = [np.array([0, 1]), np.array([1]), np.array([0.0, 1.0, 1.0])][
                rng.integers(3)]
            return lambda: B.take(f(x, 0.5), ind)
        if kind == "tuple sizes":
            t = st.Measure()
            p, q = st.GP(st.EQ(), measure=t), st.GP(st.EQ(), measure=t)
            c = st.cross(p, q)
            sizes = [((p(x), q(x)), (p(x),)), ((p(x),), (p(x), q(x))),
                     ((p(x), q(x), p(x)), (p(x), q(x)))][rng.integers(3)]
            return lambda: dense(c.kernel.elwise(*sizes))
        if kind == "output sizes":
            t = st.Measure()
            ps = [st.GP(st.EQ(), measure=t) for _ in range(3)]
            c2, c3 = st.cross(*ps[:2]), st.cross(*ps)
            return [
                lambda: dense((c2 + c3)(x).var), lambda: (c3 + c2)(x),
                lambda: dense((2 * c2 - c3)(x).mean),
            ][rng.integers(3)]
        if kind == "noise size":
            n = int(rng.choice([2, 4]))
            N = [np.full(n, 0.5), 0.5 * np.eye(n)][rng.integers(2)]
            return [
                lambda: dense(f(x, N).var),
                lambda: own()(x, N, y),
                lambda: A.logpdf(f(x, N), y),
                lambda: f(x, N).sample(),
            ][rng.integers(4)]
        if kind == "value size":
            v = np.zeros(int(rng.choice([2, 4])))
            return [
                lambda: f(x, 0.5).logpdf(v),
                lambda: A.logpdf(f(x, 0.5), v),
                lambda: own()(x, 0.5, v),
                lambda: st.PseudoObs(f(x[:2]), f(x, 0.5), v).elbo(A),
            ][rng.integers(4)]
        if kind == "operand":
            o = ["no", None, object(), {}, [1]][rng.integers(5)]
            return [lambda: f + o, lambda: o + f, lambda: f * o, lambda: f - o,
                    lambda: o - f][rng.integers(5)]
        if kind == "name type":
            def bad():
                f.name = 1

            return [lambda: A.name(f, 1), bad, lambda: A.name(1, "x")][rng.integers(3)]
        if kind == "pseudo foreign":
            return lambda: st.PseudoObs(g(x[:2]), f(x, 0.5), y).elbo(A)
        if kind == "raise in with":
            def con():
                with A:
                    with b.real:
                        raise RuntimeError("Interrupted.")

            return con

    probes = []
    for meas in w.measures:
        ps = w.procs_in(meas)
        for _ in range(2):
            q, r = w.choice(ps), w.choice(ps)
            probes.append((meas, q, r, rng.uniform(-1, 1, 2), rng.uniform(-1, 1, 2)))
    for _ in range(int(rng.integers(6, 11))):
        kind = KINDS[rng.integers(len(KINDS))]
        before = fingerprint(w, names, probes)
        f = inject(kind)
        done.append(kind)
        ctx.log("invalid:", kind)
        ctx.raises(f, kind, history=w.ops[-10:])
        # Conditioning is lazy: it can be rejected when used. A posterior does not change
        # any existing measure.
        after = fingerprint(w, names, probes)
        ctx.check(same(before, after), "unchanged", after=kind)
        if len(ctx.violations) > 3:
            return
        if rng.random() < 0.3:
            grow(w, m1, 1, custom=0, base=0.3)
    # The models can still be used.
    for meas in w.measures:
        q = w.choice(w.procs_in(meas))
        r = w.choice(w.partners(q))
        s = w.add(q, r)
        X = w.X(s, 3)
        tgt = s.measures[0]
        w.judge_mean(tgt, s, X, "usable afterwards", via="means")
        w.judge_cov(tgt, s, q, X, w.X(q, 2), "usable afterwards")
    f, b, N = w.fdd(w.choice([q for q in w.procs if q.measures[0] is m1]), n=2, lo=0.2)
    if all(q.measures[0] is m1 for q in w.procs_in(m1)[:1]):
        y2 = w.draw(m1.shadow, b, N)
        s = ShadowExact(m1.shadow, b, N, y2)
        if s.cond < 2e3:
            meas = w.posterior(m1.real | (f, y2), s, m1, "posterior")
            q = w.choice(w.procs_in(meas))
            w.judge_mean(meas, q, w.X(q, 2), "usable afterwards", via="means")
            w.judge_cov(meas, q, q, w.X(q, 2), None, "usable afterwards")
    ctx.sig(w.ops, done)
    if case["i"] < 4:
        ctx.sample = {"program": w.ops, "invalid": done}


def finding(ctx):
    """Known finding: the posterior given unusable observations."""
    import stheno as st

    x, y = np.linspace(0, 1, 3), np.zeros(3)
    ctx.event("finding examined")
    forms = {
        "noise": lambda f: (f(x, np.ones(2)), y),
        "noise matrix": lambda f: (f(x, np.eye(2)), y),
        "pseudo values": lambda f: st.PseudoObs(f(x), f(x, 0.1), np.ones(2)),
        "pseudo noise": lambda f: st.PseudoObs(f(x), f(x, np.ones(2)), y),
        "pseudo dense": lambda f: st.PseudoObs(f(x), f(x, 0.1 * np.eye(3)), y),
    }
    for name, form in forms.items():
        m = st.Measure()
        f = st.GP(st.EQ(), measure=m)
        ctx.raises(lambda: dense((m | form(f)).means[f](x)), "unusable", form=name)
        ctx.check(np.allclose(dense(f(x).var), np.exp(-0.5 * (x[:, None] - x) ** 2)),
                  "unchanged", after=name)
        try:
            got = dense((f + 1)(x).mean)
        except Exception as e:
            if not any(t in str(e) for t in ("broadcast", "diagonal")):
                raise
            ctx.finding("unusable-posterior-stays", f"{name}: {e!r}")
            continue
        ctx.close(got, np.ones((3, 1)), "usable afterwards", 1e-9)
