"""Random variances in every representation that a normal distribution can be given."""
import numpy as np


def variance(rng, n, kinds=None, lo=0.2):
    """Positive-definite variance. Returns argument, NumPy matrix, kind."""
    from matrix import Constant, Dense, Diagonal, Kronecker, LowRank, Woodbury

    kinds = kinds or ["ndarray", "dense", "diagonal", "diag-fill", "woodbury",
                      "diag-constant", "kronecker", "integers", "diagonal-integers"]
    kind = kinds[rng.integers(len(kinds))]
    A = rng.standard_normal((n, n + 2))
    S = A @ A.T / (n + 2) * rng.uniform(0.3, 2) + lo * np.eye(n)
    v = rng.uniform(lo, 1.5, n)
    if kind == "ndarray":
        return S, S, kind
    if kind == "dense":
        return Dense(S), S, kind
    if kind == "diagonal":
        return Diagonal(v), np.diag(v), kind
    if kind == "diag-fill":
        import lab as B

        s = float(v[0])
        return B.fill_diag(s, n), s * np.eye(n), kind
    if kind == "woodbury":
        L = rng.standard_normal((n, max(1, n // 2)))
        return Diagonal(v) + LowRank(L), np.diag(v) + L @ L.T, kind
    if kind == "diag-constant":
        c = float(rng.uniform(0.1, 1))
        return Diagonal(v) + Constant(c, n, n), np.diag(v) + c, kind
    if kind == "integers":
        A = rng.integers(-1, 2, (n, n))
        S = A @ A.T + np.eye(n, dtype=int)
        return S, S.astype(float), kind
    if kind == "diagonal-integers":
        v = rng.integers(1, 4, n)
        return Diagonal(v), np.diag(v).astype(float), kind
    # Kronecker.
    p = 2 if n % 2 == 0 else 1
    q = n // p
    A, B_ = [M @ M.T / len(M) + 0.5 * np.eye(len(M))
             for M in (rng.standard_normal((p, p)), rng.standard_normal((q, q)))]
    return Kronecker(Dense(A), Dense(B_)), np.kron(A, B_), kind


def mean(rng, n):
    """Mean argument. Returns argument, NumPy column vector, kind."""
    from matrix import Constant, Dense, Zero

    kind = ["zero", "none", "column", "dense", "zero-matrix", "constant-matrix",
            "integers"][rng.integers(7)]
    m = np.round(rng.standard_normal((n, 1)), 2)
    if kind == "none":
        return None, 0 * m, kind
    if kind == "zero":
        return 0, 0 * m, kind
    if kind == "column":
        return m, m, kind
    if kind == "integers":
        m = np.round(3 * m)
        return m.astype(int), m, kind
    if kind == "dense":
        return Dense(m), m, kind
    if kind == "zero-matrix":
        return Zero(float, n, 1), 0 * m, kind
    c = float(m[0, 0])
    return Constant(c, n, 1), np.full((n, 1), c), kind


def normal(rng, n, kinds=None):
    """Random normal. Returns real object, mean, variance, description."""
    from stheno import Normal

    V, S, kv = variance(rng, n, kinds)
    M, m, km = mean(rng, n)
    how = rng.integers(2)
    if how == 0:
        d = Normal(V) if M is None else Normal(M, V)
    else:
        d = Normal(lambda: V) if M is None else Normal(lambda: M, lambda: V)
    return d, m, S, f"{km}/{kv}/{['value', 'lazy'][how]}"
