"""C16: backends agree and gradients are right."""
import numpy as np

from mon import gen
from mon.core import Skip, dense

RULE = (
    "One case is a random model with five hyperparameters and a number of quantities "
    "(evidence, ELBOs, posteriors, predictive densities, divergences, products of processes), "
    "computed by NumPy, AutoGrad, TensorFlow, PyTorch, and JAX; values are compared with "
    "NumPy, gradients with finite differences of order four, just-in-time compiled functions "
    "with eager ones, and the type and precision of every result with those of the inputs. "
    "Distinct by program and quantity."
)
ASSUMPTIONS = ["CPU", "float32 results are compared with a tolerance of 2e-2"]
REQUIRED = {
    "judged:value autograd": 40, "judged:value torch": 40, "judged:value tensorflow": 40,
    "judged:value jax": 40, "judged:gradient autograd": 5, "judged:gradient torch": 20,
    "judged:gradient tensorflow": 20, "judged:gradient jax": 20, "judged:jit jax": 10,
    "judged:jit tensorflow": 3, "judged:jit gradient jax": 2, "judged:type": 150,
    "judged:float32 value": 40, "judged:float32 type": 40, "judged:sample": 40,
    "judged:compiled query jax": 80, "judged:compiled query tensorflow": 60,
    "judged:compiled first read": 2, "finding examined": 1,
}
JOBS = 8
BACKENDS = ["autograd", "torch", "tensorflow", "jax"]
LIB = {}


def setup():
    import os
    import sys

    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    import logging

    logging.getLogger("tensorflow").setLevel(logging.ERROR)
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("JAX_ENABLE_X64", "1")
    import autograd
    import jax
    import tensorflow as tf
    import torch

    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    torch.set_num_threads(1)
    jax.config.update("jax_enable_x64", True)
    import stheno.autograd  # noqa: F401
    import stheno.jax  # noqa: F401
    import stheno.tensorflow  # noqa: F401
    import stheno.torch  # noqa: F401

    LIB.update(autograd=autograd, jax=jax, tensorflow=tf, torch=torch)


def cases(tier, seed):
    n = 22 if tier == "quick" else 1200
    return [{"seed": seed, "i": i} for i in range(n)] + [{"finding": "first read"}]


# Conversion.


def to(backend, x, dtype=np.float64):
    x = np.asarray(x, dtype=dtype)
    if backend in {"numpy", "autograd"}:
        return x
    if backend == "torch":
        return LIB["torch"].tensor(x)
    if backend == "tensorflow":
        return LIB["tensorflow"].constant(x)
    return LIB["jax"].numpy.asarray(x)


def native(backend, x):
    """Whether `x` is a tensor of the backend."""
    if backend in {"numpy", "autograd"}:
        return isinstance(x, (np.ndarray, np.floating, float))
    if backend == "torch":
        return isinstance(x, LIB["torch"].Tensor)
    if backend == "tensorflow":
        return isinstance(x, (LIB["tensorflow"].Tensor, LIB["tensorflow"].Variable))
    return isinstance(x, LIB["jax"].Array)


def dtype_name(x):
    return str(x.dtype).replace("torch.", "").replace("<dtype: '", "").replace("'>", "") \
        if hasattr(x, "dtype") else "float64"


# Models. The same random decisions are made for every backend.


class Model:
    def __init__(self, key, ctx=None):
        self.key = key
        self.ops = None
        rng = gen.rng_of("C16-data", *key)
        self.n = [int(v) for v in rng.integers(2, 5, 3)]
        self.X = [gen.inputs(rng, n, 1)[:, 0] for n in self.n]
        self.Y = [rng.standard_normal(n) for n in self.n]
        self.Z = gen.inputs(rng, 3, 1)[:, 0]
        self.T = gen.inputs(rng, 4, 1)[:, 0]
        self.yT = rng.standard_normal(4)
        self.theta = np.round(rng.uniform(0.5, 1.5, 5), 2)
        self.missing = rng.random() < 0.25 and self.n[0] > 2
        if self.missing:
            self.Y[0][rng.integers(self.n[0])] = np.nan
        self.wM, self.wV = rng.standard_normal(4), rng.standard_normal((4, 4))

    def build(self, th):
        """Processes and observations from hyperparameters."""
        import lab as B
        import stheno
        from stheno import EQ, GP, RQ, Matern52, Measure

        rng = gen.rng_of("C16-model", *self.key)
        ops = []
        # AutoGrad does not give processes a chance to handle multiplication.
        boxed = type(th).__module__.startswith("autograd")

        def kernel():
            k = [EQ, Matern52, lambda: RQ(0.8)][rng.integers(3)]()
            i, j = rng.integers(5, size=2)
            ops.append(f"{k}({i},{j})")
            return th[i] * k.stretch(th[j] + 0.5)

        def mean():
            i = rng.integers(5)
            kind = rng.integers(3)
            ops.append(f"mean{kind}({i})")
            if kind == 0:
                return 0
            if kind == 1:
                return lambda x: th[i] * x
            return lambda x: B.sin(th[i] * x)

        m = Measure()
        ps = [GP(mean(), kernel(), measure=m) for _ in range(2)]
        for _ in range(int(rng.integers(2, 6))):
            p = ps[rng.integers(len(ps))]
            q = ps[rng.integers(len(ps))]
            i = rng.integers(5)
            op = ["add", "sub", "scale", "shift", "stretch", "mulf", "transform", "addc",
                  "addf", "neg", "div"][rng.integers(11)]
            ops.append(f"{op}({i})")
            ps.append({
                "add": lambda: p + q, "sub": lambda: p - B.cast(B.dtype(th), 0.5) * q,
                "scale": lambda: p * th[i] if boxed else th[i] * p, "shift": lambda: p.shift(th[i]),
                "stretch": lambda: p.stretch(th[i]),
                "mulf": lambda: (lambda x: B.sin(th[i] * x)) * p,
                "transform": lambda: p.transform(lambda x: th[i] * x + 0.3 * B.sin(x)),
                "addc": lambda: p + th[i], "addf": lambda: (lambda x: th[i] * x**2) + p,
                "neg": lambda: 1 - p, "div": lambda: p / th[i],
            }[op]())
        pick = lambda: ps[rng.integers(len(ps))]
        self.sel = [pick() for _ in range(3)]
        self.target = [pick() for _ in range(2)]
        self.inducing = pick()
        self.noise_kind = [int(v) for v in rng.integers(3, size=3)]
        self.ops = ops
        return m, ps

    def noise(self, k, th, n, conv):
        import lab as B

        if k == 0:
            return th[2] * 0.4
        if k == 1:
            return th[2] * conv(np.linspace(0.2, 0.6, n))
        return th[2] * 0.3 * B.ones(B.dtype(th), n)

    def compute(self, what, th, conv):
        """A scalar, or a tuple of tensors for `what` starting with `raw`."""
        import lab as B
        import stheno as st

        m, ps = self.build(th)
        X, Y = [conv(x) for x in self.X], [conv(y) for y in self.Y]
        T, Z = conv(self.T), conv(self.Z)
        obs = lambda i: (
            self.sel[i](X[i], self.noise(self.noise_kind[i], th, self.n[i], conv)), Y[i])
        wM, wV = conv(self.wM), conv(self.wV)
        f, g = self.target

        if what == "evidence":
            return m.logpdf(obs(0), obs(1))
        if what == "density":
            fdd, y = obs(0)
            return fdd.logpdf(y)
        if what.startswith("elbo"):
            cls = {"vfe": st.PseudoObs, "fitc": st.PseudoObsFITC, "dtc": st.PseudoObsDTC}
            u = self.inducing(Z, 0.1)
            return cls[what[5:]](u, obs(0), obs(1)).elbo(m)
        if what in {"posterior", "raw posterior"}:
            post = m | (obs(0), obs(1))
            mean, var = post(f(T)).mean_var
            if what.startswith("raw"):
                return mean, var, *post(g)(T).marginal_credible_bounds()
            a, b = post(g)(T, 0.2).marginals()
            return (B.sum(wM * B.dense(mean)[:, 0]) + B.sum(wV * B.dense(var))
                    + B.sum(a * wM) + B.sum(B.log(b)))
        if what in {"pseudo", "raw pseudo"}:
            o = st.PseudoObs(self.inducing(Z, 0.1), *obs(0))
            post = m | o
            mean, var = post(f(T)).mean_var
            if what.startswith("raw"):
                return mean, var, *post(g)(T).marginals()
            return B.sum(wM * B.dense(mean)[:, 0]) + B.sum(wV * B.dense(var))
        if what == "predictive":
            post = m | obs(0)
            return post(f(T, th[2])).logpdf(conv(self.yT))
        if what == "chain":
            post = (m | obs(0)) | obs(1)
            return post(f(T, 0.3)).logpdf(conv(self.yT))
        if what == "kl":
            post = m | obs(1)
            return post(f(T, 0.3)).kl(f(T, th[2]))
        if what == "entropy":
            return f(T, th[2]).entropy()
        if what == "bounds":
            post = m | obs(1)
            a, b, c = post(f)(T, 0.2).marginal_credible_bounds()
            d, e, h = g(T, th[3]).marginal_credible_bounds()
            return B.sum(a * wM) + B.sum(b * wM) + B.sum(d * wM) + B.sum(h * h)
        if what == "arithmetic":
            d = f(T, th[1]) * 2.0 + g(T, 0.3)
            d = (d - th[0]).lmatmul(wV) / 2.0
            return (B.sum(wM * B.dense(d.mean)[:, 0]) + B.sum(wV * B.dense(d.var))
                    + B.sum(B.dense((-d).m2)))
        if what == "nested":
            # Everything at once, read in a hostile order.
            post = m | obs(0)
            h = post(f) + post(g)
            d = h(T, th[4])
            a, b = d.marginals()
            return d.logpdf(conv(self.yT)) + B.sum(wM * a) + post.logpdf(obs(1))
        if what == "w2":
            post = m | obs(1)
            return post(f(T, 0.3)).w2(f(T, th[2]))
        if what == "product":
            p = f * g
            return p(T, th[2]).logpdf(conv(self.yT))
        if what == "cross":
            c = st.cross(f, g)
            return B.sum(B.dense(c(T).mean)) + B.sum(
                B.concat(wM, wM)[:, None] * B.dense(c(T).var)) * 0.1
        if what == "raw prior":
            return (*f(T).mean_var, *g(T, 0.2).marginals(), m.kernels[f, g](T, Z),
                    m.kernels[f, g].elwise(T), f(T, 0.1).m2)
        raise AssertionError(what)


SCALARS = ["evidence", "density", "elbo vfe", "elbo fitc", "elbo dtc", "posterior", "pseudo",
           "predictive", "chain", "kl", "entropy", "product", "cross", "bounds", "arithmetic",
           "nested"]
RAWS = ["raw prior", "raw posterior", "raw pseudo"]


def fd_grad(f, th):
    g = np.zeros(len(th))
    h = 2e-3
    for i in range(len(th)):
        e = np.eye(len(th))[i] * h
        g[i] = (8 * (f(th + e) - f(th - e)) - (f(th + 2 * e) - f(th - 2 * e))) / (12 * h)
    return g


def grad(backend, f, th):
    """Gradient of `f`."""
    if backend == "autograd":
        return LIB["autograd"].grad(f)(th)
    if backend == "jax":
        return np.asarray(LIB["jax"].grad(f)(th))
    if backend == "torch":
        v = th.clone().requires_grad_(True)
        f(v).backward()
        return v.grad.numpy()
    tf = LIB["tensorflow"]
    with tf.GradientTape() as t:
        t.watch(th)
        out = f(th)
    return t.gradient(out, th).numpy()


def run(case, ctx):
    import lab as B

    if "finding" in case:
        return finding(ctx)
    rng = gen.rng_of("C16", case["seed"], case["i"])
    model = Model((case["seed"], case["i"]))
    th = model.theta
    ident = lambda x: x
    # Values and gradients of scalars.
    whats = [SCALARS[case["i"] % len(SCALARS)], str(rng.choice(SCALARS)),
             ["posterior", "pseudo", "cross"][case["i"] % 3]]
    for what in whats:
        f0 = lambda t: float(np.squeeze(dense(model.compute(what, t, ident))))
        ref = f0(th)
        if not np.isfinite(ref) or abs(ref) > 1e4:
            continue
        g0 = fd_grad(f0, th)
        ctx.sig(model.ops, what)
        ctx.log(what, model.ops, th)
        info = dict(what=what, ops=model.ops, theta=th, missing=model.missing)
        scale = max(1, abs(ref), np.abs(g0).max())
        for b in BACKENDS:
            conv = lambda x: to(b, x)
            f = lambda t: model.compute(what, t, conv)
            t = to(b, th)
            out = f(t)
            ctx.check(native(b, out) and dtype_name(out) == "float64", "type",
                      backend=b, type=type(out), dtype=dtype_name(out), **info)
            ctx.close(np.squeeze(dense(out)), ref, f"value {b}", 1e-7, max(1, abs(ref)), **info)
            try:
                got = grad(b, f, t)
            except NotImplementedError as e:
                if b != "autograd" or "make_diagonal" not in str(e):
                    raise
                # AutoGrad cannot differentiate diagonals of matrices.
                ctx.event("autograd: not implemented: " + what)
                continue
            ctx.event(f"gradient of {what}")
            ctx.close(got, g0, f"gradient {b}", 2e-5, scale, **info)
        jit(ctx, model, what, ref, g0, scale, info, rng)
    # Wasserstein distance.
    ref = float(model.compute("w2", th, ident))
    for b in BACKENDS:
        out = model.compute("w2", to(b, th), lambda x: to(b, x))
        ctx.close(np.squeeze(dense(out)), ref, f"value {b}", 1e-5, max(1, abs(ref)), what="w2",
                  ops=model.ops)
    # Arrays.
    what = RAWS[rng.integers(len(RAWS))]
    ref = [dense(v) for v in model.compute(what, th, ident)]
    for b in BACKENDS:
        out = model.compute(what, to(b, th), lambda x: to(b, x))
        for v, r in zip(out, ref):
            ctx.close(v, r, f"value {b}", 1e-7, max(1, np.abs(r).max()), what=what,
                      ops=model.ops)
            ctx.check(native(b, B.dense(v)), "type", backend=b, type=type(v), what=what,
                      ops=model.ops)
    single(ctx, model, rng)
    sample(ctx, model, rng)
    query(ctx, model, case["i"])
    if case["i"] < 5:
        ctx.sample = {"model": model.ops, "theta": list(th)}


def jit(ctx, model, what, ref, g0, scale, info, rng):
    """Just-in-time compilation with LAB, which caches control flow."""
    import lab as B

    b = "jax" if rng.random() < 0.4 else "tensorflow"
    make = lambda b: B.jit(lambda t: model.compute(what, t, lambda x: to(b, x)))
    f = make(b)
    if b == "tensorflow":
        try:
            f(to(b, model.theta))
        except (TypeError, ValueError) as e:
            if "has type float64 that does not match type int" not in str(e):
                raise
            # In a graph, TensorFlow cannot multiply a Python integer by a `float64`.
            # Scales of means and kernels can be Python integers.
            ctx.event("tensorflow graph: Python integer")
            b = "jax"
            f = make(b)
    th2 = model.theta * 1.1
    ref2 = float(np.squeeze(dense(model.compute(what, th2, lambda x: x))))
    for th, r in [(model.theta, ref), (th2, ref2), (model.theta, ref)]:
        out = f(to(b, th))
        ctx.close(np.squeeze(dense(out)), r, f"jit {b}", 1e-7, max(1, abs(r)), **info)
    if rng.random() < 0.6:
        got = grad(b, f, to(b, model.theta))
        ctx.close(got, g0, f"jit gradient {b}", 2e-5, scale, **info)


def compiled(b, f):
    return LIB["jax"].jit(f) if b == "jax" else LIB["tensorflow"].function(
        f, autograph=False)


def query(ctx, model, i):
    """A model constructed and read outside of compiled functions can be used inside of
    them, at inputs of any size, and afterwards outside of them."""
    import lab as B
    import stheno as st

    b = ["tensorflow", "jax"][i % 2]
    kind = ["exact", "pseudo", "prior", "chain"][i // 2 % 4]

    def construct(conv):
        th = conv(model.theta)
        m, ps = model.build(th)
        obs = lambda j: (
            model.sel[j](conv(model.X[j]),
                         model.noise(model.noise_kind[j], th, model.n[j], conv)),
            conv(model.Y[j]))
        if kind == "exact":
            m = m | (obs(0), obs(1))
        elif kind == "pseudo":
            m = m | st.PseudoObs(model.inducing(conv(model.Z), 0.1), *obs(0))
        elif kind == "chain":
            m = (m | obs(0)) | obs(1)
        p = m(model.target[0]) if kind != "prior" else model.target[0]
        q = m(model.target[1]) if kind != "prior" else model.target[1]

        def predict(t):
            mean, var = p(t).mean_var
            a, c = q(t, 0.2).marginals()
            return B.dense(mean), B.dense(var), B.dense(a), B.dense(c)

        return predict

    ref = construct(lambda x: x)
    got = construct(lambda x: to(b, x))
    # The first read is outside of compiled functions. Otherwise, see the known finding.
    got(to(b, model.Z))
    f = compiled(b, got)
    info = dict(backend=b, kind=kind, ops=model.ops)
    for where, t in [(f, model.T[:2]), (f, model.T), (got, model.Z), (f, model.T[:2] + 0.1)]:
        try:
            out = where(to(b, t))
        except (TypeError, ValueError) as e:
            if "has type float64 that does not match type int" not in str(e):
                raise
            # In a graph, TensorFlow cannot multiply a Python integer by a `float64`.
            ctx.event("tensorflow graph: Python integer")
            return
        for v, r in zip(out, ref(t)):
            ctx.close(v, dense(r), f"compiled query {b}", 1e-7, max(1, np.abs(dense(r)).max()),
                      **info)
    ctx.event("compiled query of " + kind)


def finding(ctx):
    """Known finding: the first read of a posterior inside of a compiled function."""
    import lab as B
    import stheno as st

    x, y = np.linspace(0, 1, 4), np.sin(np.linspace(0, 1, 4))

    def construct(conv):
        m = st.Measure()
        f = st.GP(st.EQ(), measure=m)
        g = (m | (f(conv(x), 0.1), conv(y)))(f)
        return lambda t: B.dense(g(t).mean)

    ctx.event("finding examined")
    ref = construct(lambda x: x)
    for b in ["jax", "tensorflow"]:
        got = construct(lambda x: to(b, x))
        f = compiled(b, got)
        for where, n in [(f, 2), (f, 3), (got, 2)]:
            t = np.linspace(0, 1, n)
            try:
                out = where(to(b, t))
            except Exception as e:
                known = "UnexpectedTracerError" in repr(type(e)) or "out of scope" in str(e) \
                    or "cannot be accessed from" in str(e)
                if not known:
                    raise
                ctx.finding("posterior-first-read-compiled", f"{b}: {type(e).__name__}")
                continue
            ctx.close(out, dense(ref(t)), "compiled first read", 1e-7, backend=b)


def single(ctx, model, rng):
    """Single precision stays single precision."""
    what = SCALARS[rng.integers(len(SCALARS))]
    raw = RAWS[rng.integers(len(RAWS))]
    for b in ["numpy"] + BACKENDS:
        if b == "autograd":
            continue
        conv = lambda x: to(b, x, np.float32)
        t = conv(model.theta)
        for w in (what, raw):
            ref = model.compute(w, model.theta, lambda x: x)
            out = model.compute(w, t, conv)
            for v, r in zip(out if isinstance(out, tuple) else (out,),
                            ref if isinstance(ref, tuple) else (ref,)):
                name = str(_dtype(v))
                # With NumPy and JAX, the regularisation that the matrix library adds
                # before a Cholesky decomposition is a `float64`.
                if b in {"torch", "tensorflow"} or w == "raw prior":
                    ctx.check("float32" in name, "float32 type", backend=b, what=w,
                              dtype=name, ops=model.ops, missing=model.missing)
                r = dense(r)
                ctx.close(np.reshape(dense(v), r.shape), r, "float32 value", 2e-2,
                          max(1, np.abs(r).max()), backend=b, what=w, ops=model.ops)


def _dtype(v):
    import lab as B

    return B.dtype(v)


def sample(ctx, model, rng):
    """Samples with the random state of each backend."""
    import lab as B

    for b in BACKENDS:
        if b == "autograd":
            continue
        conv = lambda x: to(b, x)
        t = conv(model.theta)
        m, ps = model.build(t)
        f, g = model.target
        T, Z = conv(model.T), conv(model.Z)
        dtype = B.dtype(t)
        outs = []
        for _ in range(2):
            state = B.create_random_state(dtype, seed=5)
            state, s1 = f(T, 0.1).sample(state)
            state, s2 = f(T, 0.1).sample(state, 3)
            state, s3, s4 = m.sample(state, 2, f(T), g(Z, 0.2))
            outs.append((s1, s2, s3, s4))
            shapes = [(4, 1), (4, 3), (4, 2), (3, 2)]
            for s, shape in zip(outs[-1], shapes):
                ctx.check(native(b, s) and tuple(s.shape) == shape
                          and dtype_name(s) == "float64", "sample", backend=b,
                          shape=tuple(s.shape), want=shape, type=type(s))
        for a, c in zip(*outs):
            ctx.check(np.array_equal(dense(a), dense(c)), "sample", backend=b,
                      problem="not reproducible")
