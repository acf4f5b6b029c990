"""C25: numbers mean the same in every representation."""
import numpy as np

from mon import gen
from mon.core import Skip, dense

RULE = (
    "One case is a random script (models, compositions, conditioning, pseudo-points, queries) "
    "whose inputs, values, noises, and constants are numbers that integers can represent. It "
    "is run once with plain double-precision arrays and several times with a random "
    "representation of every number: integers of various sizes, single precision, Python and "
    "NumPy scalars, zero-dimensional arrays, rows and columns, strided, reversed, Fortran-"
    "ordered, and read-only arrays, and structured matrices. Every answer must be the same. "
    "Distinct by script."
)
ASSUMPTIONS = [
    "signed representations of at least 32 bits (NumPy evaluates functions of smaller "
    "integers in lower precision); the numbers are exactly representable",
    "single precision only for inputs that enter linearly: constants and values",
]
REQUIRED = {
    "judged:mean": 200, "judged:variance": 200, "judged:marginals": 200, "judged:density": 150,
    "judged:sample": 150, "judged:posterior": 150, "judged:joint density": 100,
    "judged:elbo": 40, "judged:pseudo-posterior": 40, "judged:divergence": 100,
    "judged:user arrays": 300, "judged:finite": 300,
    "x:int64": 100, "x:int32": 40, "x:strided": 40, "x:reversed": 40, "x:read-only": 40,
    "x:column": 40, "x:scalar": 20, "x:0-d": 8, "x:fortran": 10,
    "c:int": 30, "c:np.int64": 15, "c:0-d": 15, "c:float32": 15,
    "y:int64": 40, "y:column": 40, "y:strided": 30, "y:matrix": 20,
    "noise:int": 10, "noise:vector-int": 10, "noise:matrix-int": 8, "noise:0-d": 8,
}


def cases(tier, seed):
    n = 130 if tier == "quick" else 4000
    return [{"seed": seed, "i": i} for i in range(n)]


class Plain:
    """Double precision arrays."""

    def x(self, X):
        return X[:, 0].copy() if X.shape[1] == 1 else X.copy()

    def c(self, v, left=False):
        return float(v)

    def k(self, v):
        return float(v)

    def y(self, v):
        return np.array(v, dtype=float)[:, None]

    def noise(self, spec):
        kind, v = spec
        if kind == "none":
            return None
        return float(v) if kind == "scalar" else np.array(v, dtype=float)

    def finish(self, ctx):
        pass


class Hostile:
    """A random representation of every number."""

    def __init__(self, rng, ctx):
        self.rng, self.ctx, self.given = rng, ctx, []

    def keep(self, a):
        if isinstance(a, np.ndarray):
            self.given.append((a, a.copy()))
        return a

    def finish(self, ctx):
        for a, b in self.given:
            ctx.check(np.array_equal(a, b) and a.dtype == b.dtype, "user arrays")

    def layout(self, a, what):
        kinds = ["plain", "strided", "reversed", "read-only"] + ["fortran"] * (a.ndim > 1)
        kind = kinds[self.rng.integers(len(kinds))]
        self.ctx.event(f"{what}:{kind}")
        if kind == "strided":
            b = np.full((2 * a.shape[0],) + a.shape[1:], 77, dtype=a.dtype)
            b[::2] = a
            return self.keep(b)[::2]
        if kind == "reversed":
            return self.keep(a[::-1].copy())[::-1]
        if kind == "fortran":
            return self.keep(np.asfortranarray(a))
        a = self.keep(a.copy())
        if kind == "read-only":
            a.setflags(write=False)
        return a

    def dtype(self, what, single=False):
        names = ["int64", "int64", "int32", "float64"] + ["float32"] * single
        name = names[self.rng.integers(len(names))]
        self.ctx.event(f"{what}:{name}")
        return np.dtype(name)

    def x(self, X):
        d = self.dtype("x")
        if X.shape == (1, 1) and self.rng.random() < 0.5:
            kind = self.rng.integers(3)
            v = X[0, 0]
            if kind == 0:
                self.ctx.event("x:scalar")
                return int(v) if self.rng.random() < 0.5 else float(v)
            if kind == 1:
                self.ctx.event("x:0-d")
                return self.keep(np.array(v, dtype=d))
            self.ctx.event("x:scalar")
            return d.type(v)
        if X.shape[1] == 1 and self.rng.random() < 0.5:
            return self.layout(X[:, 0].astype(d), "x")
        self.ctx.event("x:column")
        return self.layout(X.astype(d), "x")

    def c(self, v, left=False):
        """A constant. On the left of an operator, NumPy would take over."""
        kinds = ["int", "float"] if left else ["int", "float", "np.int64", "0-d", "float32",
                                               "np.float64"]
        kind = kinds[self.rng.integers(len(kinds))]
        self.ctx.event(f"c:{kind}")
        return {"int": int, "float": float, "np.int64": np.int64, "np.float64": np.float64,
                "float32": np.float32,
                "0-d": lambda v: self.keep(np.array(v, dtype=self.dtype("c")))}[kind](v)

    def k(self, v):
        return int(v) if self.rng.random() < 0.7 else float(v)

    def y(self, v):
        from matrix import Dense

        d = self.dtype("y", single=True)
        a = np.array(v).astype(d)
        if len(v) == 1 and self.rng.random() < 0.3:
            self.ctx.event("y:scalar")
            return [int(v[0]), float(v[0]), a.reshape(())][self.rng.integers(3)]
        r = self.rng.random()
        if r < 0.4:
            return self.layout(a, "y")
        if r < 0.8:
            self.ctx.event("y:column")
            return self.layout(a[:, None], "y")
        self.ctx.event("y:matrix")
        return ("matrix", Dense(self.keep(a[:, None].astype(float))))

    def noise(self, spec):
        from matrix import Dense, Diagonal

        kind, v = spec
        if kind == "none":
            return None
        d = self.dtype("noise")
        r = self.rng.random()
        if kind == "scalar":
            if r < 0.35:
                self.ctx.event("noise:int")
                return int(v)
            if r < 0.5:
                return float(v)
            self.ctx.event("noise:0-d")
            return self.keep(np.array(v, dtype=d)) if r < 0.75 else d.type(v)
        v = np.array(v).astype(d)
        if kind == "vector":
            if d.kind == "i":
                self.ctx.event("noise:vector-int")
            if r < 0.6:
                return self.layout(v, "noise")
            return Diagonal(self.keep(v)) if r < 0.8 else self.layout(np.diag(v), "noise")
        if d.kind == "i":
            self.ctx.event("noise:matrix-int")
        return self.layout(v, "noise") if r < 0.7 else Dense(self.keep(v))


def raw(y):
    """Values where a structured matrix is not accepted."""
    return dense(y[1]) if isinstance(y, tuple) else y


def script(rng):
    """A random script: a function from a representation to a list of answers."""
    S = {}
    D = int(rng.choice([1, 1, 2]))
    S["D"] = D
    S["base"] = []
    for _ in range(int(rng.integers(1, 4))):
        S["base"].append((int(rng.integers(6)), int(rng.integers(1, 4)), int(rng.integers(1, 4)),
                          int(rng.integers(5)), int(rng.integers(-2, 3))))
    S["ops"] = []
    n = len(S["base"])
    for _ in range(int(rng.integers(1, 6))):
        S["ops"].append((int(rng.integers(11)), int(rng.integers(n)), int(rng.integers(n)),
                         int(rng.choice([-3, -2, 2, 3])), int(rng.integers(1, 3))))
        n += 1
    S["n"] = n

    def X(k):
        if D == 1:
            return rng.choice(np.arange(-4, 5), k, replace=False)[:, None]
        return np.stack([rng.choice(np.arange(-4, 5), k, replace=False) for _ in range(D)], 1)

    def noise(k):
        kind = ["scalar", "vector", "matrix"][rng.integers(3)]
        if kind == "scalar":
            return kind, int(rng.integers(1, 4))
        if kind == "vector":
            return kind, rng.integers(1, 5, k)
        A = rng.integers(-1, 2, (k, k))
        return kind, A @ A.T + np.eye(k, dtype=int)

    S["obs"] = []
    for _ in range(int(rng.integers(1, 3))):
        k = int(rng.integers(1, 5))
        S["obs"].append((int(rng.integers(n)), X(k), noise(k), rng.integers(-3, 4, k)))
    k = int(rng.integers(1, 4))
    S["pobs"] = (int(rng.integers(n)), X(k), ("scalar", int(rng.integers(1, 3)))
                 if rng.random() < 0.5 else ("vector", rng.integers(1, 4, k)),
                 rng.integers(-3, 4, k))
    S["pz"] = (int(rng.integers(len(S["base"]))), X(2), ("scalar", 1))
    S["method"] = int(rng.integers(3))
    S["queries"] = []
    for _ in range(3):
        k = int(rng.integers(1, 4))
        nz = noise(k)
        S["queries"].append((int(rng.integers(n)), X(k), nz, rng.integers(-3, 4, k)))
    S["seed"] = int(rng.integers(1000))
    return S


def execute(S, R):
    """Execute a script under a representation."""
    import lab as B
    import mlkernels as mk
    import stheno as st

    out = []
    m = st.Measure()
    ps = []
    # The matrix library cannot handle all sums of low-rank matrices.
    low_rank = not any(o in (0, 1, 9) for o, *_ in S["ops"])
    for kern, a, b, mean, c in S["base"]:
        k = [mk.EQ(), mk.Matern32(), mk.Matern52(), mk.RQ(R.k(a)), mk.EQ() + R.k(1),
             mk.Linear() if low_rank else mk.Linear() * mk.EQ()][kern]
        k = R.k(a) * k.stretch(R.k(b))
        if mean == 0:
            p = st.GP(k, measure=m)
        elif mean == 1:
            p = st.GP(R.k(c), k, measure=m)
        elif mean == 2:
            p = st.GP(lambda x: B.uprank(x)[..., :1] ** 2, k, measure=m)
        elif mean == 3:
            p = st.GP(R.k(c) * mk.OneMean(), k, measure=m)
        else:
            p = st.GP(lambda x: 2 * B.uprank(x)[..., :1], k, measure=m)
        ps.append(p)
    for o, i, j, c, s in S["ops"]:
        p, q = ps[i], ps[j]
        if o == 0:
            r = p + q
        elif o == 1:
            r = p - q
        elif o == 2:
            r = p * R.c(c)
        elif o == 3:
            r = R.c(c, left=True) * p
        elif o == 4:
            r = p + R.c(c)
        elif o == 5:
            r = R.c(c, left=True) - p
        elif o == 6:
            r = p.shift(R.c(c))
        elif o == 7:
            r = p.stretch(R.c(s))
        elif o == 8:
            r = p / R.c(s)
        elif o == 9:
            r = p * (lambda x: B.uprank(x)[..., :1])
        else:
            r = p.transform(lambda x: 2 * x)
        ps.append(r)

    def dist(d, pre, y, values):
        order = values
        for what in order:
            if what == "mean":
                out.append((pre or "mean", dense(d.mean)))
            elif what == "var":
                out.append((pre or "variance", dense(d.var)))
            elif what == "marginals":
                out.extend((pre or "marginals", np.asarray(v))
                           for v in d.marginal_credible_bounds())
            elif what == "logpdf":
                out.append((pre or "density", dense(d.logpdf(y))))

    def sample(d):
        # The scheme for sampling depends on the structure of the variance, which is the
        # same for all representations of a number as noise.
        B.set_random_seed(S["seed"])
        out.append(("sample", dense(d.sample(2))))

    orders = [["mean", "var", "marginals", "logpdf"], ["marginals", "logpdf", "mean", "var"],
              ["marginals", "var", "mean", "logpdf"]]
    ds = []
    for t, (i, X, nz, y) in enumerate(S["queries"]):
        d = ps[i](R.x(X), R.noise(nz))
        dist(d, None, raw(R.y(y)), orders[t])
        # Without noise.
        e = ps[i](R.x(X))
        out.append(("mean", dense(e.mean)))
        out.append(("variance", dense(e.var)))
        sample(ps[i](R.x(X), R.noise(("scalar", 2))))
        ds.append(d)
    d = ds[0]
    e = d.lmatmul(np.eye(int(d.dim))) + 1
    out.append(("divergence", dense(d.kl(e))))
    out.append(("divergence", dense(d.w2(e))))
    out.append(("divergence", dense(d.entropy())))
    # Joint density and posterior.
    def obs():
        return [(ps[i](R.x(X), R.noise(nz)), R.y(y)) for i, X, nz, y in S["obs"]]

    out.append(("joint density", dense(m.logpdf(*[(f, raw(y)) for f, y in obs()]))))
    pairs = [(f, raw(y)) for f, y in obs()]
    post = m | (pairs[0] if len(pairs) == 1 else tuple(pairs))
    o = obs()
    if len(o) == 1:
        f, y = o[0]
        post = m | st.Obs(f, y[1] if isinstance(y, tuple) else y)
    for t, (i, X, nz, y) in enumerate(S["queries"][:2]):
        dist(post(ps[i])(R.x(X), R.noise(nz)), "posterior", raw(R.y(y)), orders[t])
    out.append(("posterior", dense(post.logpdf(*[(f, raw(y)) for f, y in obs()]))))
    # Pseudo-points.
    i, X, nz, y = S["pobs"]
    j, Z, nzz = S["pz"]
    cls = [st.PseudoObs, st.PseudoObsFITC, st.PseudoObsDTC][S["method"]]
    if nz[0] == "vector":
        f = ps[i](R.x(X), dvec(R, nz))
    else:
        f = ps[i](R.x(X), R.noise(nz))
    o = cls(ps[j](R.x(Z), R.noise(nzz)), f, raw(R.y(y)))
    out.append(("elbo", dense(o.elbo(m))))
    i, X, nz, y = S["queries"][2]
    d = (m | o)(ps[i])(R.x(X), R.noise(nz))
    out.append(("pseudo-posterior", dense(d.mean)))
    out.append(("pseudo-posterior", dense(d.var)))
    return out


def dvec(R, nz):
    """Diagonal noise must be recognisable as diagonal."""
    while True:
        v = R.noise(nz)
        if not (isinstance(v, np.ndarray) and v.ndim == 2):
            return v


def run(case, ctx):
    rng = gen.rng_of("C25", case["seed"], case["i"])
    S = script(rng)
    ref = execute(S, Plain())
    for name, v in ref:
        ctx.check(np.isfinite(v).all(), "finite", what=name)
    ctx.log(str({k: v for k, v in S.items() if k in ("base", "ops", "D")}))
    for _ in range(3):
        R = Hostile(rng, ctx)
        got = execute(S, R)
        assert len(got) == len(ref)
        for t, ((name, a), (name2, b)) in enumerate(zip(ref, got)):
            assert name == name2
            sc = max(1.0, np.abs(a).max(initial=0))
            # A square root of rounding errors.
            tol = 1e-6 if name in ("divergence", "sample") else 1e-8
            ctx.close(b, a, name, tol, sc, answer=t)
        R.finish(ctx)
    ctx.sig(str(S))
    if case["i"] < 4:
        ctx.sample = {"script": {k: str(v)[:300] for k, v in S.items()}}
