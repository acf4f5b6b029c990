"""Random inputs, kernels, means, functions, and noises, each as a pair: the object that
is given to the code under test and its NumPy meaning."""
import numpy as np
import lab as B


def rng_of(*key):
    import hashlib

    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(list(h))


def sqdist(X, Y):
    return np.sum((X[:, None, :] - Y[None, :, :]) ** 2, axis=-1)


# Kernels.


def _m32(r):
    r = np.sqrt(3) * r
    return (1 + r) * np.exp(-r)


def _m52(r):
    r = np.sqrt(5) * r
    return (1 + r + r**2 / 3) * np.exp(-r)


def base_kernel(rng, linear=True, smooth=False):
    """Element kernel. Returns kernel, NumPy function, description."""
    import mlkernels as mk

    names = ["EQ", "M52", "M32", "RQ"]
    if smooth == "analytic":
        names = ["EQ", "EQ", "RQ"] + ["Lin"] * bool(linear)
    elif smooth:
        names = ["EQ", "M52", "RQ"]
    elif linear:
        names += ["Lin"]
    n = names[rng.integers(len(names))]
    if n == "EQ":
        return mk.EQ(), lambda X, Y: np.exp(-0.5 * sqdist(X, Y)), n
    if n == "M52":
        return mk.Matern52(), lambda X, Y: _m52(np.sqrt(sqdist(X, Y))), n
    if n == "M32":
        return mk.Matern32(), lambda X, Y: _m32(np.sqrt(sqdist(X, Y))), n
    if n == "RQ":
        a = float(np.round(rng.uniform(0.3, 2), 2))
        return (
            mk.RQ(a),
            lambda X, Y: (1 + sqdist(X, Y) / (2 * a)) ** (-a),
            f"RQ({a})",
        )
    return mk.Linear(), lambda X, Y: X @ Y.T, "Lin"


def kernel(rng, depth=2, linear=True, smooth=False):
    """Random kernel that accepts inputs of any dimension."""
    k, f, d = base_kernel(rng, linear, smooth)
    s = float(np.round(rng.uniform(0.5, 2.5), 2))
    if rng.random() < 0.7:
        k, f, d = k.stretch(s), (lambda f: lambda X, Y: f(X / s, Y / s))(f), f"{d}>{s}"
    v = float(np.round(rng.uniform(0.3, 2), 2))
    if rng.random() < 0.7:
        k, f, d = v * k, (lambda f: lambda X, Y: v * f(X, Y))(f), f"{v}*{d}"
    if depth > 1 and rng.random() < 0.35:
        k2, f2, d2 = kernel(rng, depth - 1, linear, smooth)
        if rng.random() < 0.5:
            return k + k2, lambda X, Y: f(X, Y) + f2(X, Y), f"({d}+{d2})"
        return k * k2, lambda X, Y: f(X, Y) * f2(X, Y), f"({d}*{d2})"
    return k, f, d


# Functions of the input with one output. They accept inputs of any rank.


def function(rng, positive=False):
    a = float(np.round(rng.uniform(0.4, 1.6), 2))
    b = float(np.round(rng.uniform(-1, 1), 2))
    kind = rng.integers(4)
    if positive:
        return (
            lambda x: 1.5 + B.sin(a * B.uprank(x)[..., :1] + b),
            lambda X: 1.5 + np.sin(a * X[:, 0] + b),
            f"1.5+sin({a}x+{b})",
        )
    if kind == 0:
        return (
            lambda x: B.sin(a * B.uprank(x)[..., :1] + b),
            lambda X: np.sin(a * X[:, 0] + b),
            f"sin({a}x+{b})",
        )
    if kind == 1:
        return (
            lambda x: a * B.uprank(x)[..., :1] ** 2 + b,
            lambda X: a * X[:, 0] ** 2 + b,
            f"{a}x^2+{b}",
        )
    if kind == 2:
        return (
            lambda x: B.exp(-a * B.uprank(x)[..., -1:] ** 2) + b,
            lambda X: np.exp(-a * X[:, -1] ** 2) + b,
            f"exp(-{a}x^2)+{b}",
        )
    return (
        lambda x: a * B.uprank(x)[..., :1] + b,
        lambda X: a * X[:, 0] + b,
        f"{a}x+{b}",
    )


def transform(rng, din, D):
    """Input transform for a process with `din`-dimensional inputs. Returns function, NumPy
    function, description, and the dimension of the inputs that the transform takes."""
    a = float(np.round(rng.uniform(0.4, 1.4), 2))
    kind = rng.integers(4 if din == 1 else 3)
    if kind == 0:
        return (lambda x: a * x + 0.3 * B.sin(x)), (
            lambda X: a * X + 0.3 * np.sin(X)
        ), f"{a}x+.3sin(x)", din
    if kind == 1:
        return (lambda x: a * B.tanh(x)), (lambda X: a * np.tanh(X)), f"{a}tanh", din
    if kind == 2:
        return (lambda x: 0.5 * x**2 + a), (
            lambda X: 0.5 * X**2 + a
        ), f".5x^2+{a}", din
    return (lambda x: B.uprank(x)[..., :1] * a), (
        lambda X: X[:, :1] * a
    ), f"{a}x[:,0]", D


def mean(rng, functions=True):
    """Argument for the mean of a GP. Returns argument, NumPy function, description."""
    import mlkernels as mk

    kind = rng.integers(5 if functions else 3)
    if kind == 0:
        return None, lambda X: np.zeros(len(X)), "0"
    c = float(np.round(rng.uniform(-2, 2), 2))
    if kind == 1:
        return c, lambda X: np.full(len(X), c), f"{c}"
    if kind == 2:
        return c * mk.OneMean(), lambda X: np.full(len(X), c), f"{c}*1"
    f, g, d = function(rng)
    if kind == 3:
        return f, g, d
    return mk.OneMean() * c + f, lambda X: c + g(X), f"{c}+{d}"


# Inputs.


def inputs(rng, n, D, lo=-2.0, hi=2.0):
    """`n` well-separated inputs."""
    if D == 1:
        grid = np.linspace(lo, hi, max(n, 2) * 2 + 1)
        step = grid[1] - grid[0]
        X = rng.choice(grid, n, replace=False) if n else np.zeros(0)
        X = X + rng.uniform(-0.3, 0.3, n) * step
        return X[:, None]
    return rng.uniform(lo, hi, (n, D))


def present(rng, X):
    """One of the ways to give the inputs `X` to the code under test."""
    X = np.array(X)
    n, D = X.shape
    if D == 1:
        kind = rng.integers(3)
        if kind == 0 and n == 1:
            return float(X[0, 0])
        if kind <= 1:
            return X[:, 0].copy()
    return X.copy()


# Noises.


def spd(rng, n, scale=1.0):
    A = rng.standard_normal((n, n + 2))
    return scale * (A @ A.T / (n + 2) + 0.2 * np.eye(n))


def noise(rng, n, kinds=("none", "scalar", "vector", "matrix", "struct"), lo=0.05, hi=0.6):
    """Noise argument. Returns argument, NumPy matrix, kind."""
    from matrix import Dense, Diagonal

    kind = kinds[rng.integers(len(kinds))]
    s = float(np.round(rng.uniform(lo, hi), 3))
    if kind == "none":
        return None, np.zeros((n, n)), kind
    if kind == "scalar":
        return s, s * np.eye(n), kind
    v = np.round(rng.uniform(lo, hi, n), 3)
    if kind == "vector":
        return v, np.diag(v), kind
    M = spd(rng, n, s) if n else np.zeros((0, 0))
    if kind == "matrix":
        return M, M, kind
    if rng.random() < 0.5:
        return Diagonal(v), np.diag(v), "struct-diag"
    return Dense(M), M, "struct-dense"
