"""Shadow model: an executable specification of stheno in plain NumPy.

A *shadow measure* assigns to every process (an integer `pid`) a mean function and to
every pair of processes a covariance function. Inputs are arrays of shape `(n, D)`. The
model is written directly from the mathematical definition of the operations and shares
no code with the implementation under test:

* a *base* process has its own mean and kernel and is independent of everything else;
* a *derived* process is an affine functional of other processes,
  `p(x) = sum_t w_t(x) child_t(T_t(x)) + o(x)`, which covers sums, scaling, function
  multiplication, shifts, stretches, selections, transforms, and finite differences;
* in a *posterior* measure, the processes of the parent measure are *atoms* whose mean
  and covariance come from the Gaussian conditioning formula (or the pseudo-point
  formula), with respect to the parent.
"""
import numpy as np

from .core import Skip

COND_MAX = 2e3


def col(v):
    return np.asarray(v, dtype=float).reshape(-1)


class Base:
    def __init__(self, mean, kernel):
        self.mean, self.kernel = mean, kernel


class Derived:
    """Terms are `(w, pid, T)`, where `w` and `T` can be `None`."""

    def __init__(self, terms, offset=None):
        self.terms, self.offset = list(terms), offset


class Atom:
    pass


class ShadowMeasure:
    def __init__(self):
        self.nodes = {}
        self.cond = 1.0  # Worst condition number used so far.

    def __contains__(self, pid):
        return pid in self.nodes

    def define(self, pid, node):
        assert pid not in self.nodes
        self.nodes[pid] = node

    # Atoms only exist in posteriors.

    def atom_mean(self, p, X):
        raise NotImplementedError

    def atom_cov(self, p, X, q, Y):
        raise NotImplementedError

    def mean(self, p, X):
        node = self.nodes[p]
        if isinstance(node, Base):
            return col(node.mean(X))
        elif isinstance(node, Atom):
            return self.atom_mean(p, X)
        out = np.zeros(len(X))
        for w, c, T in node.terms:
            m = self.mean(c, X if T is None else T(X))
            out = out + (m if w is None else col(w(X)) * m)
        if node.offset is not None:
            out = out + col(node.offset(X))
        return out

    def cov(self, p, X, q, Y):
        a, b = self.nodes[p], self.nodes[q]
        if isinstance(a, Derived):
            out = np.zeros((len(X), len(Y)))
            for w, c, T in a.terms:
                k = self.cov(c, X if T is None else T(X), q, Y)
                out = out + (k if w is None else col(w(X))[:, None] * k)
            return out
        if isinstance(b, Derived):
            return self.cov(q, Y, p, X).T
        if isinstance(a, Base) or isinstance(b, Base):
            if p == q:
                return np.asarray(a.kernel(X, Y), dtype=float)
            return np.zeros((len(X), len(Y)))
        return self.atom_cov(p, X, q, Y)

    # Collections of processes and inputs: `blocks` is a list of `(pid, X)`.

    def bmean(self, blocks):
        return np.concatenate([self.mean(p, X) for p, X in blocks] or [np.zeros(0)])

    def bcov(self, left, right=None):
        right = left if right is None else right
        nl, nr = sum(len(X) for _, X in left), sum(len(X) for _, X in right)
        out = np.zeros((nl, nr))
        i = 0
        for p, X in left:
            j = 0
            for q, Y in right:
                if len(X) and len(Y):
                    out[i : i + len(X), j : j + len(Y)] = self.cov(p, X, q, Y)
                j += len(Y)
            i += len(X)
        return out


class _Posterior(ShadowMeasure):
    def __init__(self, parent):
        ShadowMeasure.__init__(self)
        self.parent = parent
        self.cond = parent.cond
        for pid in parent.nodes:
            self.nodes[pid] = Atom()

    def _use(self, K):
        """Track the condition number, relative to prior variances of at least one:
        the implementation adds an absolute jitter."""
        if K.size:
            s = np.linalg.eigvalsh((K + K.T) / 2)
            self.cond = max(self.cond, max(1.0, s[-1]) / max(s[0], 1e-300))
            if self.cond > 1e9:
                raise Skip


class ShadowExact(_Posterior):
    """Condition on `y = p(blocks) + N(0, noise)`. NaNs in `y` are not observed."""

    def __init__(self, parent, blocks, noise, y):
        _Posterior.__init__(self, parent)
        self.blocks = [(p, np.asarray(X, dtype=float)) for p, X in blocks]
        y = col(y)
        self.keep = ~np.isnan(y)
        m = parent.bmean(self.blocks)[self.keep]
        K = (parent.bcov(self.blocks) + noise)[np.ix_(self.keep, self.keep)]
        self._use(K)
        self.Kinv = np.linalg.inv(K) if K.size else K
        self.alpha = self.Kinv @ (y[self.keep] - m)

    def atom_mean(self, p, X):
        k = self.parent.bcov([(p, X)], self.blocks)[:, self.keep]
        return self.parent.mean(p, X) + k @ self.alpha

    def atom_cov(self, p, X, q, Y):
        kl = self.parent.bcov([(p, X)], self.blocks)[:, self.keep]
        kr = self.parent.bcov(self.blocks, [(q, Y)])[self.keep, :]
        return self.parent.cov(p, X, q, Y) - kl @ self.Kinv @ kr


class ShadowPseudo(_Posterior):
    """Pseudo-point posterior. `noise_z` is the noise (a matrix) on the inducing points
    and `noise` the diagonal (a vector) of the observation noise."""

    def __init__(self, parent, zblocks, noise_z, blocks, noise, y, method):
        _Posterior.__init__(self, parent)
        self.z = [(p, np.asarray(X, dtype=float)) for p, X in zblocks]
        y = col(y)
        keep = ~np.isnan(y)
        Kz = parent.bcov(self.z) + noise_z
        Kzx = parent.bcov(self.z, blocks)[:, keep]
        Kx = parent.bcov(blocks)[np.ix_(keep, keep)]
        N = np.asarray(noise, dtype=float)[keep]
        self._use(Kz)
        Q = Kzx.T @ np.linalg.solve(Kz, Kzx)
        r = y[keep] - parent.bmean(blocks)[keep]
        diag = np.diag(Kx) - np.diag(Q)
        D = N + diag if method == "fitc" else N
        S = Kz + (Kzx / D) @ Kzx.T
        self._use(S)
        self.Kzinv = np.linalg.inv(Kz)
        self.Sinv = np.linalg.inv(S)
        self.alpha = self.Sinv @ (Kzx @ (r / D))
        M = Q + np.diag(D)
        self._use(M)
        elbo = gauss_logpdf(r, np.zeros_like(r), M)
        if method == "vfe":
            elbo -= 0.5 * np.sum(diag / N)
        self.elbo = elbo
        self.diag, self.S, self.Kz, self.Kzx, self.D, self.r = diag, S, Kz, Kzx, D, r
        # Exact evidence for comparison.
        self.evidence = gauss_logpdf(r, np.zeros_like(r), Kx + np.diag(N))

    def atom_mean(self, p, X):
        return self.parent.mean(p, X) + self.parent.bcov([(p, X)], self.z) @ self.alpha

    def atom_cov(self, p, X, q, Y):
        kl = self.parent.bcov([(p, X)], self.z)
        kr = self.parent.bcov(self.z, [(q, Y)])
        return self.parent.cov(p, X, q, Y) - kl @ self.Kzinv @ kr + kl @ self.Sinv @ kr


def gauss_logpdf(y, m, V):
    """Log-density through an eigendecomposition; NaNs are marginalised out."""
    y, m = col(y), col(m)
    keep = ~np.isnan(y)
    r, V = (y - m)[keep], np.asarray(V, dtype=float)[np.ix_(keep, keep)]
    if r.size == 0:
        return 0.0
    s, U = np.linalg.eigh((V + V.T) / 2)
    z = U.T @ r
    return float(-0.5 * (np.sum(z**2 / s) + np.sum(np.log(s)) + r.size * np.log(2 * np.pi)))
