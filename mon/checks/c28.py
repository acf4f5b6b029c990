"""C28: models that are dropped are freed."""
import gc
import weakref
from collections import Counter

import numpy as np

from mon import gen
from mon.core import dense

RULE = (
    "One case is a random program that builds models in every way (constructors, operators, "
    "products, names, default measures, conditioning, pseudo-points, samples, densities, "
    "divergences, displays, rejected operations), reads from them, and drops all references "
    "in a random order. After a garbage collection, no object of the program may be left: "
    "all live objects of the library and its matrices, kernels, and means are counted, and "
    "every array and every process, measure, distribution, and observations object is followed "
    "with a weak reference. Other models that stay alive must still be complete, and repeated "
    "reading from a model that stays alive may not keep anything alive. Distinct by program."
)
ASSUMPTIONS = [
    "CPython; objects in reference cycles are freed by a garbage collection",
    "a measure keeps its processes alive and a process keeps its measures alive",
]
REQUIRED = {
    "judged:nothing left": 150, "judged:freed": 150, "judged:arrays freed": 150,
    "judged:reading keeps nothing": 250, "judged:bystander": 200,
    "judged:memory": 1, "op:condition": 200, "op:pseudo": 100, "op:product": 100,
    "op:with": 100, "op:rejected": 100, "op:name": 100, "op:operator": 400, "op:failed with": 40,
    "order:measures first": 40, "order:processes first": 40, "order:at once": 40,
    "backend:torch": 3, "backend:jax": 3, "backend:tensorflow": 3,
}
JOBS = 8
PACKAGES = ("stheno", "mlkernels", "algebra", "matrix")


def cases(tier, seed):
    n = 220 if tier == "quick" else 8000
    k = 4 if tier == "quick" else 60
    out = [{"seed": seed, "i": i} for i in range(n)]
    for b in ["torch", "jax", "tensorflow"]:
        out += [{"seed": seed, "i": i, "backend": b} for i in range(k)]
    return out + [{"seed": seed, "memory": i} for i in range(2 if tier == "quick" else 20)]


def to(backend, x):
    if backend == "torch":
        import stheno.torch  # noqa: F401
        import torch

        return torch.tensor(x, dtype=torch.float64)
    if backend == "jax":
        import jax

        jax.config.update("jax_enable_x64", True)
        import jax.numpy as jnp

        import stheno.jax  # noqa: F401

        return jnp.asarray(x)
    if backend == "tensorflow":
        import tensorflow as tf

        import stheno.tensorflow  # noqa: F401

        return tf.constant(x)
    return np.array(x)


class Program:
    """Models, and weak references to everything in them."""

    def __init__(self, rng, event, backend=None, deterministic=False):
        import stheno as st

        self.st, self.rng, self.event, self.backend = st, rng, event, backend
        self.refs, self.arrays = [], []
        self.measures, self.ps, self.products, self.obs, self.dists, self.out = \
            [], [], [], [], [], []

    def follow(self, x, what):
        self.refs.append((what, weakref.ref(x)))
        return x

    def array(self, x):
        x = to(self.backend, x)
        self.arrays.append(weakref.ref(x))
        return x

    def x(self, n):
        return self.array(np.sort(self.rng.choice(np.arange(-6, 7), n, replace=False)) * 0.4)

    def y(self, n):
        y = self.rng.standard_normal(n)
        if n > 1 and self.backend is None and self.rng.random() < 0.2:
            y[0] = np.nan
        return self.array(y)

    def noise(self, n):
        k = self.rng.integers(3 if self.backend is None else 2)
        if k == 0:
            return 0.3
        v = self.rng.uniform(0.2, 0.5, n)
        return self.array(v if k == 1 else np.diag(v))

    def choice(self, xs):
        return xs[self.rng.integers(len(xs))]

    def fdd(self, p=None, n=None):
        n = int(self.rng.integers(2, 4)) if n is None else n
        p = p or self.choice(self.ps)
        return self.follow(p(self.x(n), self.noise(n)), "distribution")

    # Steps.

    def process(self, m):
        import mlkernels as mk

        st = self.st
        # With other backends, structured matrices are not always supported.
        k = [mk.EQ(), mk.Matern32(), mk.RQ(0.7), mk.Linear()][
            self.rng.integers(4 if self.backend is None else 3)]
        k = self.choice([2.0, 1.5]) * k.stretch(self.choice([1.0, 2.0]))
        mean = self.choice([0, lambda x: x**2] + ([1.5] if self.backend is None else []))
        args = (k,) if self.rng.random() < 0.3 else (mean, k)
        kw = {"name": f"p{len(m.ps)}"} if self.rng.random() < 0.3 else {}
        if self.rng.random() < 0.4:
            self.event("op:with")
            with m:
                p = st.GP(*args, **kw)
        else:
            p = st.GP(*args, measure=m, **kw)
        self.ps.append(self.follow(p, "process"))

    def new(self):
        m = self.follow(self.st.Measure(), "measure")
        self.measures.append(m)
        for _ in range(int(self.rng.integers(1, 4))):
            self.process(m)

    def family(self, p):
        return [q for q in self.ps if q.measure is p.measure]

    def operator(self):
        import lab as B

        self.event("op:operator")
        p = self.choice(self.ps)
        q = self.choice(self.family(p))
        c = float(self.rng.integers(1, 4)) / 2
        o = self.rng.integers(11)
        r = [lambda: p + q, lambda: p - q, lambda: c * p, lambda: p + c, lambda: p.shift(c),
             lambda: p.stretch(c), lambda: (lambda x: B.sin(x)) * p,
             lambda: p.transform(lambda x: x + 0.1), lambda: p * q, lambda: -p,
             lambda: p + (lambda x: c * x)][o]()
        self.ps.append(self.follow(r, "process"))

    def product(self):
        self.event("op:product")
        p = self.choice(self.ps)
        ps = [self.choice(self.family(p)) for _ in range(int(self.rng.integers(1, 3)))]
        c = self.follow(self.st.cross(p, *ps), "product")
        self.products.append(c)

    def known(self):
        """A measure, and processes that it knows."""
        m = self.choice(self.measures)
        return m, [p for p in self.ps if any(p is q for q in m.ps)]

    def condition(self):
        self.event("op:condition")
        m, ps = self.known()
        f, y = self.fdd(self.choice(ps), 2), self.y(2)
        if self.rng.random() < 0.5:
            o = self.follow(self.st.Obs(f, y), "observations")
            self.obs.append((m, o))
            post = m | o
        else:
            post = m | (f, y)
        post = self.follow(post, "measure")
        self.measures.append(post)
        p = self.follow(post(self.choice(ps)), "process")
        self.ps.append(p)

    def pseudo(self):
        self.event("op:pseudo")
        st = self.st
        m, ps = self.known()
        ps = [p for p in ps if p.measure is ps[0].measure]
        v = 0.3 if self.rng.random() < 0.5 else self.array(np.array([0.2, 0.4, 0.3]))
        f = self.follow(self.choice(ps)(self.x(3), v), "distribution")
        u = self.follow(self.choice(ps)(self.x(2), 0.1), "distribution")
        cls = self.choice([st.PseudoObs, st.PseudoObsFITC, st.PseudoObsDTC])
        o = self.follow(cls(u, f, self.y(3)), "observations")
        self.obs.append((m, o))
        self.out.append(o.elbo(m))
        post = self.follow(m | o, "measure")
        self.measures.append(post)
        self.ps.append(self.follow(post(self.choice(ps)), "process"))

    def name(self):
        self.event("op:name")
        m, ps = self.known()
        try:
            m.name(self.choice(ps), self.choice(["a", "b"]))
        except RuntimeError:
            pass

    def rejected(self):
        """Operations that fail, and that are handled by the user."""
        self.event("op:rejected")
        st = self.st
        p = self.choice(self.ps)
        other = st.GP(st.EQ(), measure=self.follow(st.Measure(), "measure"))
        self.follow(other, "process")
        x = self.x(2)
        k = self.rng.integers(5)
        try:
            if k == 0:
                p + other
            elif k == 1:
                st.Obs((p(x), x), (other(x), x))
            elif k == 2:
                p.measure | (other(x, 0.1), x)
            elif k == 3:
                p.measure["no such name"]
            else:
                self.event("op:failed with")
                with p.measure:
                    st.GP(st.EQ(), name="twice")
                    st.GP(st.EQ(), name="twice")
        except Exception as e:
            self.out.append(type(e).__name__)

    def read(self):
        self.dists.append(self.fdd())
        for d in self.dists:
            use(self, d)
        if self.obs:
            m, o = self.choice(self.obs)
            self.out.append(m.logpdf(o) if not hasattr(o, "elbo") else o.elbo(m))
        d, e = self.fdd(n=2), self.fdd(n=2)
        self.out += [d.kl(e), d.entropy(), (d + d).mean, (2.0 * d).var]
        if self.products:
            c = self.choice(self.products)
            self.out.append(c(self.x(2), 0.2).marginals())
        m, ps = self.known()
        self.out.append(m.logpdf(
            (self.fdd(self.choice(ps), 2), self.y(2))))

    def run(self, steps):
        self.new()
        for _ in range(steps):
            r = self.rng.random()
            if r < 0.08 and len(self.measures) < 5:
                self.new()
            elif r < 0.35:
                self.operator()
            elif r < 0.45:
                self.product()
            elif r < 0.6:
                self.condition()
            elif r < 0.68:
                self.pseudo()
            elif r < 0.76:
                self.name()
            elif r < 0.84:
                self.rejected()
            else:
                self.read()
        self.product()
        self.condition()
        self.pseudo()
        self.rejected()
        self.read()
        return self

    def drop(self, how):
        lists = [self.measures, self.ps, self.products, self.obs, self.dists, self.out]
        if how == "processes first":
            lists = [self.ps, self.products, self.dists, self.out, self.obs, self.measures]
        if how != "at once":
            for l in lists:
                self.rng.shuffle(l)
                while l:
                    l.pop()
                if self.rng.random() < 0.5:
                    gc.collect()
        self.measures = self.ps = self.products = self.obs = self.dists = self.out = None


def use(prog, d):
    w = prog.rng.permutation(["mean", "var", "marginals", "bounds", "sample", "display",
                              "logpdf"])[:4]
    for what in w:
        if what == "mean":
            prog.out.append(d.mean)
        elif what == "var":
            prog.out.append(d.var)
        elif what == "marginals":
            prog.out.append(d.marginals())
        elif what == "bounds":
            prog.out.append(d.marginal_credible_bounds())
        elif what == "sample":
            import lab as B

            state = B.create_random_state(B.dtype(d.mean), seed=1)
            prog.out.append(d.sample(state, 2)[1])
        elif what == "display":
            prog.out.append((str(d.p), repr(d.p.kernel)))
        else:
            prog.out.append(d.logpdf(to(prog.backend, np.ones(len(dense(d.mean))))))


def census():
    """All live objects of the library and of matrices, kernels, and means."""
    gc.collect()
    c = Counter()
    for o in gc.get_objects():
        t = type(o)
        if t is not type and t.__module__ and str(t.__module__).split(".")[0] in PACKAGES:
            c[f"{t.__module__}.{t.__name__}"] += 1
    return c


def run(case, ctx):
    import warnings

    warnings.simplefilter("ignore")
    if "memory" in case:
        return memory(case, ctx)
    backend = case.get("backend")
    key = (case["seed"], case["i"], backend or "numpy")
    rng = gen.rng_of("C28", *key)
    ignore = lambda name: None
    # The first time, modules are imported, methods are resolved, and so on.
    Program(gen.rng_of("C28", *key), ignore, backend).run(3).drop("at once")
    # Ignore what is there already: there are many modules.
    gc.collect()
    gc.freeze()
    how = ["measures first", "processes first", "at once"][case["i"] % 3]
    steps = int(rng.integers(3, 12)) if backend is None else 4

    # A bystander that stays alive.
    by = Program(gen.rng_of("C28-by", *key), ignore, backend)
    by.new()
    by.operator()
    by.condition()
    p, post = by.ps[-1], by.measures[-1]
    x = to(backend, np.linspace(0, 1, 3))
    ref = [np.array(v) for v in p(x, 0.1).marginals()]
    n_by, ps_by = len(post.ps), list(post.ps)

    before = census()
    prog = Program(rng, ctx.event, backend).run(steps)
    if backend:
        ctx.event("backend:" + backend)
    during = census()
    alive = sum((during - before).values())
    ctx.event("objects alive", alive)
    ctx.sig(key, steps, alive)
    info = dict(key=key, steps=steps, how=how)

    # Reading from models that stay alive keeps nothing.
    processes = list(prog.ps)
    counts = []
    for _ in range(4):
        refs = []
        for q in processes[:3] + prog.products[:1]:
            d = q(x, 0.1)
            refs.append(weakref.ref(d))
            d.mean_var, d.mean, d.var, d.marginals(), d.entropy()
            d.kl(d), (d + d).var, d.logpdf(to(backend, np.ones(len(dense(d.mean)))))
            d = None
        for m, o in prog.obs[:2]:
            # The log-density constructs a process, which the measure keeps.
            o.elbo(m) if hasattr(o, "elbo") else None
        counts.append(census())
        ctx.check(all(r() is None for r in refs), "reading keeps nothing",
                  problem="distributions", **info)
    ctx.check(not counts[-1] - counts[1], "reading keeps nothing", **info,
              left=dict(counts[-1] - counts[1]))
    # These construct processes, which the measures keep, but not the distributions.
    refs = []
    for q in processes[:3]:
        d, e = q(x, 0.1), q(x, 0.3)
        a = to(backend, np.ones(3))
        refs += [weakref.ref(v) for v in (d, e, a)]
        q.measure(d).var, q.measure.logpdf((d, a), (e, a)), q.measure.logpdf(d, a)
        d = e = a = None
    gc.collect()
    ctx.check(all(r() is None for r in refs), "reading keeps nothing",
              problem="distributions that a measure was given", **info)
    m = o = q = processes = None

    # Drop everything.
    prog.drop(how)
    ctx.event("order:" + how)
    after = census()
    left = after - before
    ctx.check(not left, "nothing left", left=dict(left), **info)
    left = Counter(what for what, r in prog.refs if r() is not None)
    ctx.event("followed", len(prog.refs))
    ctx.check(not left, "freed", left=dict(left), total=len(prog.refs), **info)
    left = [r().shape for r in prog.arrays if r() is not None]
    ctx.check(not left, "arrays freed", left=left, total=len(prog.arrays), **info)

    # The bystander is as it was.
    got = [np.array(v) for v in p(x, 0.1).marginals()]
    ctx.check(
        len(post.ps) == n_by and all(a is b for a, b in zip(post.ps, ps_by))
        and all(np.allclose(a, b, rtol=1e-9, atol=1e-9) for a, b in zip(got, ref)),
        "bystander", **info)
    if case["i"] < 3:
        ctx.sample = {"key": str(key), "objects alive": alive, "followed": len(prog.refs)}


def memory(case, ctx):
    """Whatever kind of objects are left, memory does not grow."""
    import tracemalloc

    ignore = lambda name: None

    def once():
        Program(gen.rng_of("C28-memory", case["seed"], case["memory"]), ignore).run(12).drop(
            "at once")
        gc.collect()
        return tracemalloc.get_traced_memory()

    once()
    once()
    tracemalloc.start()
    try:
        start = [once() for _ in range(3)][-1][0]
        tracemalloc.reset_peak()
        for _ in range(12):
            end, peak = once()
        ctx.log("memory", start, end, peak)
        ctx.event("peak kilobytes", (peak - start) // 1000)
        ctx.sig("memory", case["memory"])
        # The library keeps nothing of twelve runs, each of which takes `peak - start`.
        ctx.check(end - start < 0.2 * (peak - start), "memory", growth=end - start,
                  peak=peak - start)
    finally:
        tracemalloc.stop()
