"""Random programs against the code under test and the shadow model in lockstep."""
import numpy as np

from . import gen
from .core import Skip, dense
from .ref import COND_MAX, Atom, Base, Derived, ShadowExact, ShadowMeasure, ShadowPseudo


def cond_tol(cond):
    """Tolerance: the implementation adds a jitter of 1e-12 to the diagonal, which changes
    a conditional by at most 1e-12 times the square of the condition number."""
    return max(1e-8, 1e-12 * cond**2)


class Meas:
    """A measure: the real one and its shadow."""

    def __init__(self, real, shadow, label, parent=None):
        self.real, self.shadow, self.label, self.parent = real, shadow, label, parent
        # The cost of evaluating a posterior is exponential in the length of the chain.
        self.depth = 0 if parent is None else parent.depth + 1


class Proc:
    """A process: the real one and its shadow.

    Attributes:
        p: Real process.
        pids: Shadow processes; more than one for a process with multiple outputs.
        measures: Measures that the process should be associated to; the first is the
            one that it was constructed with.
        din: Dimension of the inputs.
        seq: Time of construction.
        unsafe: Time of construction of the latest ancestor that interacts with the
            known finding about multi-output processes (see `known_findings.txt`).
    """

    def __init__(self, p, pids, measures, label, din, seq, unsafe):
        self.p, self.pids, self.measures = p, pids, measures
        self.label, self.din, self.seq, self.unsafe = label, din, seq, unsafe

    @property
    def mo(self):
        return len(self.pids) > 1


class World:
    def __init__(self, rng, D=1, ctx=None, linear=True, smooth=False, fn_means=True):
        import stheno

        self.st = stheno
        self.rng, self.D, self.ctx = rng, D, ctx
        self.linear, self.smooth, self.fn_means = linear, smooth, fn_means
        self.measures, self.procs = [], []
        # Over-complete low-rank matrices lose digits in the Woodbury identity of the
        # matrix library. This is not a matter of the code under test.
        self.floor = 1e-4 if linear else 1e-8
        self._pid = 0
        self.seq = 0
        self.nobs = 0
        self.ops = []
        # Observations that are kept to be used again.
        self.kept = []

    # Helpers.

    def log(self, *a):
        self.ops.append(" ".join(str(x) for x in a))
        if self.ctx is not None:
            self.ctx.log(*a)

    def event(self, name):
        if self.ctx is not None:
            self.ctx.event(name)

    def pid(self):
        self._pid += 1
        return self._pid

    def choice(self, xs):
        return xs[self.rng.integers(len(xs))]

    def procs_in(self, meas, mo=False):
        return [q for q in self.procs if meas in q.measures and (mo or not q.mo)]

    def new_proc(self, p, pids, measures, label, din, unsafe=None, silent=False):
        self.seq += 1
        q = Proc(
            p, tuple(pids), list(measures), label, din, self.seq,
            self.seq if unsafe is None else unsafe,
        )
        self.procs.append(q)
        if not silent:
            self.log(f"P{q.seq} = {label}")
        self.event("op:" + label.split("(")[0])
        return q

    def present(self, X):
        """One of the ways to give inputs to the code under test."""
        return gen.present(self.rng, X)

    def wrap_kernel(self, k):
        return k

    def noise_arg(self, arg):
        return arg

    def n(self, lo, hi):
        """Number of inputs. Sometimes many."""
        n = int(self.rng.integers(lo, hi))
        return n if self.rng.random() > 0.05 else int(self.rng.integers(7, 16))

    def X(self, q, n):
        """Inputs for a process."""
        return gen.inputs(self.rng, n, q.din)

    # Measures and base processes.

    def measure(self):
        m = Meas(self.st.Measure(), ShadowMeasure(), f"M{len(self.measures)}")
        self.measures.append(m)
        self.log(f"{m.label} = Measure()")
        return m

    def base(self, meas, how=None, din=None):
        rng, st = self.rng, self.st
        if din is None:
            din = self.D if rng.random() < 0.75 else 1
        k, kf, kd = gen.kernel(rng, linear=self.linear, smooth=self.smooth)
        k = self.wrap_kernel(k)
        mn, mf, md = gen.mean(rng, functions=self.fn_means)
        how = self.choice(["kw", "ctx", "add"]) if how is None else how
        args = (k,) if mn is None else (mn, k)
        if how == "kw":
            p = st.GP(*args, measure=meas.real)
        elif how == "ctx":
            with meas.real:
                p = st.GP(*args)
        else:
            m = mn
            if mn is None:
                m = st.ZeroMean()
            elif isinstance(mn, (float, int)) or callable(mn) and not hasattr(mn, "shift"):
                m = mn * st.OneMean()
            p = st.GP()
            meas.real.add_independent_gp(p, m, k)
        pid = self.pid()
        meas.shadow.define(pid, Base(mf, kf))
        return self.new_proc(p, [pid], [meas], f"base({md}, {kd}; {meas.label}, {how})", din)

    # Derived processes.

    def _derive(self, p, parents, terms, offset, label, measures=None, din=None):
        """`terms` as a function from output index to list of terms."""
        if measures is None:
            measures = [
                m for m in parents[0].measures
                if all(m in q.measures for q in parents[1:])
            ]
        n_out = len(parents[0].pids)
        pids = []
        for i in range(n_out):
            pid = self.pid()
            for m in measures:
                m.shadow.define(pid, Derived(terms(i), offset))
            pids.append(pid)
        return self.new_proc(
            p, pids, measures, label,
            parents[0].din if din is None else din,
            unsafe=max(q.unsafe for q in parents),
        )

    def scale(self, q):
        c = float(np.round(self.rng.uniform(-2, 2), 2))
        if abs(c) < 0.2:
            c = 0.7
        if self.rng.random() < 0.08:
            c = self.choice([1.0, -1.0, 0.0])
        how = self.choice(["r", "l", "div", "meas", "int"] if c else ["r", "l"])
        if how == "r":
            p = q.p * c
        elif how == "l":
            p = c * q.p
        elif how == "div":
            p = q.p / c
            c = 1 / c
        elif how == "int":
            c = self.choice([2, 3, -2])
            p = c * q.p
        else:
            if len(q.measures) == 1:
                p = self.st.GP()
                a = (q.p, c) if self.rng.random() < 0.5 else (c, q.p)
                q.measures[0].real.mul(p, *a)
            else:
                p = q.p * c
        return self._derive(
            p, [q], lambda i: [(lambda X: np.full(len(X), c), q.pids[i], None)], None,
            f"scale(P{q.seq}, {c}, {how})",
        )

    def neg(self, q):
        return self._derive(
            -q.p, [q], lambda i: [(lambda X: -np.ones(len(X)), q.pids[i], None)], None,
            f"neg(P{q.seq})",
        )

    def addc(self, q):
        c = float(np.round(self.rng.uniform(-2, 2), 2))
        how = self.choice(["r", "l", "sub", "rsub", "meas"])
        if self.rng.random() < 0.05:
            c = 0.0
        sign = 1
        if how == "meas" and len(q.measures) > 1:
            how = "r"
        if how == "r":
            p, o = q.p + c, c
        elif how == "l":
            p, o = c + q.p, c
        elif how == "sub":
            p, o = q.p - c, -c
        elif how == "meas":
            p, o = self.st.GP(), c
            a = (q.p, c) if self.rng.random() < 0.5 else (c, q.p)
            q.measures[0].real.sum(p, *a)
        else:
            p, o, sign = c - q.p, c, -1
        return self._derive(
            p, [q], lambda i: [(lambda X: np.full(len(X), sign), q.pids[i], None)],
            lambda X: np.full(len(X), o), f"addc(P{q.seq}, {c}, {how})",
        )

    def addf(self, q):
        f, g, d = gen.function(self.rng)
        if len(q.measures) == 1 and self.rng.random() < 0.2:
            p = self.st.GP()
            q.measures[0].real.sum(p, *[(q.p, f), (f, q.p)][self.rng.integers(2)])
        else:
            p = q.p + f if self.rng.random() < 0.5 else f + q.p
        return self._derive(
            p, [q], lambda i: [(None, q.pids[i], None)], g, f"addf(P{q.seq}, {d})"
        )

    def functional(self, q, points, p, label):
        """A linear combination of shifts: `points` is a list of weights and shifts."""
        return self._derive(
            p, [q],
            lambda i: [
                ((lambda w: lambda X: np.full(len(X), w))(w), q.pids[i],
                 (lambda g: lambda X: X + g)(g))
                for w, g in points
            ],
            None, label,
        )

    def add(self, q, r):
        how = self.choice(["+", "-", "sum", "meas"])
        s = 1
        if how == "+":
            p = q.p + r.p
        elif how == "-":
            p, s = q.p - r.p, -1
        elif how == "sum":
            p = sum([q.p, r.p])
        else:
            shared = [m for m in q.measures if m in r.measures]
            if len(shared) == 1:
                p = self.st.GP()
                shared[0].real.sum(p, q.p, r.p)
            else:
                p = q.p + r.p
        return self._derive(
            p, [q, r],
            lambda i: [
                (None, q.pids[i], None),
                (lambda X: np.full(len(X), s), r.pids[i], None),
            ],
            None, f"add(P{q.seq}, P{r.seq}, {how})",
        )

    def mulf(self, q):
        f, g, d = gen.function(self.rng)
        if len(q.measures) == 1 and self.rng.random() < 0.2:
            p = self.st.GP()
            q.measures[0].real.mul(p, *[(q.p, f), (f, q.p)][self.rng.integers(2)])
        else:
            p = q.p * f if self.rng.random() < 0.5 else f * q.p
        res = self._derive(
            p, [q], lambda i: [(g, q.pids[i], None)], None, f"mulf(P{q.seq}, {d})"
        )
        res.unsafe = res.seq
        return res

    def shift(self, q):
        if q.din > 1 and self.rng.random() < 0.4:
            c = np.round(self.rng.uniform(-1, 1, q.din), 2)
        else:
            c = float(np.round(self.rng.uniform(-1, 1), 2))
        return self._derive(
            q.p.shift(c), [q], lambda i: [(None, q.pids[i], lambda X: X - c)], None,
            f"shift(P{q.seq}, {c})",
        )

    def stretch(self, q):
        if q.din > 1 and self.rng.random() < 0.4:
            c = np.round(self.rng.uniform(0.5, 2, q.din), 2)
        else:
            c = float(np.round(self.rng.uniform(0.5, 2), 2))
        if self.rng.random() < 0.1:
            c = -c
        return self._derive(
            q.p.stretch(c), [q], lambda i: [(None, q.pids[i], lambda X: X / c)], None,
            f"stretch(P{q.seq}, {c})",
        )

    def transform(self, q):
        f, g, d, din = gen.transform(self.rng, q.din, self.D)
        return self._derive(
            q.p.transform(f), [q], lambda i: [(None, q.pids[i], g)], None,
            f"transform(P{q.seq}, {d})", din=din,
        )

    def select(self, q):
        repeats = self.rng.random() < 0.15
        dims = [int(d) for d in self.rng.choice(self.D, q.din, replace=repeats)]
        return self._derive(
            q.p.select(*dims), [q], lambda i: [(None, q.pids[i], lambda X: X[:, dims])],
            None, f"select(P{q.seq}, {dims})", din=self.D,
        )

    def custom(self, meas):
        """A process given by explicit rules: `a p(x) + b q(x)` plus a new component."""
        rng, st = self.rng, self.st
        ps = [q for q in self.procs_in(meas)]
        q = self.choice(ps)
        r = self.choice([r for r in ps if r.din == q.din])
        a, b = [float(np.round(v, 2)) for v in rng.uniform(-1.5, 1.5, 2)]
        k, kf, kd = gen.kernel(rng, depth=1, linear=self.linear, smooth=self.smooth)
        k = self.wrap_kernel(k)
        m = meas.real
        K = m.kernels
        mean = m.means[q.p] * a + m.means[r.p] * b
        kern = K[q.p] * a**2 + K[r.p] * b**2 + (K[q.p, r.p] + K[r.p, q.p]) * (a * b) + k
        left = lambda j: K[q.p, j] * a + K[r.p, j] * b
        right = lambda i: K[i, q.p] * a + K[i, r.p] * b
        how = self.choice(["left", "both"])
        p = m.add_gp(mean, kern, left, right) if how == "both" else m.add_gp(mean, kern, left)
        pid, hid = self.pid(), self.pid()
        meas.shadow.define(hid, Base(lambda X: np.zeros(len(X)), kf))
        meas.shadow.define(
            pid,
            Derived(
                [
                    (lambda X: np.full(len(X), a), q.pids[0], None),
                    (lambda X: np.full(len(X), b), r.pids[0], None),
                    (None, hid, None),
                ]
            ),
        )
        return self.new_proc(
            p, [pid], [meas], f"custom(P{q.seq}*{a}+P{r.seq}*{b}, {kd}, {how})",
            q.din,
        )

    def copy(self, meas, q):
        """`measure(p)`."""
        p = meas.real(q.p)
        return self._derive(
            p, [q], lambda i: [(None, q.pids[i], None)], None,
            f"copy({meas.label}, P{q.seq})", measures=[meas],
        )

    def product(self, q, r):
        p = q.p * r.p
        measures = [m for m in q.measures if m in r.measures]
        pid, hid = self.pid(), self.pid()
        a, b = q.pids[0], r.pids[0]
        for m in measures:
            s = m.shadow

            def diag(X, s=s):
                return np.array([s.cov(a, X[i : i + 1], b, X[i : i + 1])[0, 0]
                                 for i in range(len(X))])

            def mean(X, s=s, diag=diag):
                return -s.mean(a, X) * s.mean(b, X) + diag(X)

            def kern(X, Y, s=s):
                return s.cov(a, X, a, Y) * s.cov(b, X, b, Y) + s.cov(
                    a, X, b, Y
                ) * s.cov(b, X, a, Y)

            s.define(hid, Base(mean, kern))
            s.define(
                pid,
                Derived(
                    [
                        (lambda X, s=s: s.mean(a, X), b, None),
                        (lambda X, s=s: s.mean(b, X), a, None),
                        (None, hid, None),
                    ]
                ),
            )
        return self.new_proc(
            p, [pid], measures, f"product(P{q.seq}, P{r.seq})", q.din
        )

    def cross(self, qs):
        p = self.st.cross(*[q.p for q in qs])
        measures = [
            m for m in qs[0].measures if all(m in q.measures for q in qs[1:])
        ]
        pids = [pid for q in qs for pid in q.pids]
        res = self.new_proc(
            p, pids, measures, f"cross({', '.join(f'P{q.seq}' for q in qs)})",
            qs[0].din,
        )
        res.parts = list(qs)
        return res

    def derive_random(self, q, ops=None):
        ops = ops or [
            "scale", "neg", "addc", "addf", "mulf", "shift", "stretch", "transform",
            "select",
        ]
        return getattr(self, self.choice(ops))(q)

    def partners(self, q):
        """Processes that `q` can be combined with: constructed with the same measure."""
        return [
            r for r in self.procs
            if r.measures[0] is q.measures[0]
            and len(r.pids) == len(q.pids)
            and r.din == q.din
        ]

    # Observations.

    def fdd(self, q, n=None, kinds=("scalar", "vector", "matrix", "struct"), X=None, **kw):
        """Returns real FDD, shadow blocks, noise matrix."""
        if n is None:
            n = self.n(1, 5)
        if X is None:
            X = self.X(q, n)
        arg, N, kind = gen.noise(self.rng, len(X) * len(q.pids), kinds, **kw)
        x = self.present(X)
        return q.p(x, self.noise_arg(arg)), [(pid, X) for pid in q.pids], N

    def draw(self, shadow, blocks, N):
        """Values of observations that are plausible under a shadow."""
        m = shadow.bmean(blocks)
        K = shadow.bcov(blocks) + N
        s, U = np.linalg.eigh((K + K.T) / 2)
        return m + U @ (np.sqrt(np.maximum(s, 0)) * self.rng.standard_normal(len(m)))

    def observe(self, meas, n_sets=None, **kw):
        """Construct a set of observations of processes in a measure. Returns list of
        `(fdd, blocks, N, y)`."""
        if n_sets is None:
            n_sets = int(self.rng.integers(1, 4))
            if self.rng.random() < 0.06:
                n_sets = int(self.rng.integers(4, 7))
        # All processes must have been constructed with the same measure.
        q0 = self.choice(self.procs_in(meas))
        pool = [r for r in self.procs_in(meas) if r.measures[0] is q0.measures[0]]
        res = []
        for i in range(n_sets):
            q = q0 if i == 0 else self.choice(pool)
            f, b, N = self.fdd(q, **kw)
            y = self.draw(meas.shadow, b, N)
            res.append((f, b, N, y, q))
        return res

    def y_arg(self, y):
        if self.rng.random() < 0.5:
            return y[:, None].copy()
        if len(y) == 1 and self.rng.random() < 0.3:
            return float(y[0])
        return y.copy()

    def condition(self, meas, how=None, obs=None, **kw):
        """Condition a measure. Returns the new measure."""
        obs = self.observe(meas, **kw) if obs is None else obs
        st, m = self.st, meas.real
        blocks = [b for o in obs for b in o[1]]
        N = block_diag([o[2] for o in obs])
        y = np.concatenate([o[3] for o in obs])
        shadow = ShadowExact(meas.shadow, blocks, N, y)
        if shadow.cond > COND_MAX:
            raise Skip
        pairs = [(o[0], self.y_arg(o[3])) for o in obs]
        hows = ["or", "cond", "obs", "obs-or"] + (["args"] if len(pairs) == 1 else ["star"])
        how = self.choice(hows) if how is None else how
        if how == "or":
            real = m | (pairs[0] if len(pairs) == 1 else tuple(pairs))
        elif how == "cond":
            real = m.condition(pairs[0]) if len(pairs) == 1 else m.condition(tuple(pairs))
        elif how == "obs":
            o = st.Obs(*pairs[0]) if len(pairs) == 1 else st.Obs(*pairs)
            real = m.condition(o)
            self.kept.append((o, obs, blocks, N, y))
        elif how == "obs-or":
            o = st.Observations(pairs[0]) if len(pairs) == 1 else st.Observations(*pairs)
            real = m | o
            self.kept.append((o, obs, blocks, N, y))
        elif how == "args":
            real = m.condition(*pairs[0])
        else:
            real = m.condition(*pairs)
        return self.posterior(real, shadow, meas, f"{meas.label} | "
                              + ", ".join(f"P{o[4].seq}[{len(o[3])}]" for o in obs)
                              + f" ({how})")

    def condition_again(self):
        """Condition a measure on an observations object that was used before."""
        if not self.kept:
            raise Skip
        o, obs, blocks, N, y = self.choice(self.kept)
        meas = self.choice([m for m in self.measures if all(m in e[4].measures for e in obs)
                            and m.depth < 3])
        shadow = ShadowExact(meas.shadow, blocks, N, y)
        if shadow.cond > COND_MAX:
            raise Skip
        return self.posterior(meas.real | o, shadow, meas, f"{meas.label} | same object")

    def posterior(self, real, shadow, meas, label):
        new = Meas(real, shadow, f"M{len(self.measures)}", parent=meas)
        self.measures.append(new)
        for q in self.procs:
            if meas in q.measures:
                q.measures.append(new)
        self.log(f"{new.label} = {label}")
        self.event("op:condition")
        return new

    # Judgements.

    def tol(self, meas):
        return max(cond_tol(meas.shadow.cond), self.floor)

    def judge_mean(self, meas, q, X, name, via=None):
        x = self.present(X)
        blocks = [(pid, X) for pid in q.pids]
        expected = meas.shadow.bmean(blocks)[:, None]
        via = via or self.choice(["means", "copy", "call"])
        if via == "means":
            got = meas.real.means[q.p](x)
        elif via == "copy":
            got = meas.real(q.p).mean(x)
        else:
            got = meas.real(q.p(x)).mean if meas.real is not q.p.measure else q.p(x).mean
        sc = self.scale_of(meas, [q])
        return self.ctx.close(
            got, expected, name, tol=self.tol(meas), scale=max(1, sc, np.abs(expected).max(initial=0)),
            measure=meas.label, process=q.label, x=X, via=via,
        )

    def scale_of(self, meas, qs):
        """Rough magnitude of the prior variance, which drives rounding errors."""
        return 1.0

    def judge_cov(self, meas, q, r, X, Y, name, via=None):
        x = self.present(X)
        same = Y is None
        Y = X if same else Y
        y = x if same else self.present(Y)
        bx, by = [(pid, X) for pid in q.pids], [(pid, Y) for pid in r.pids]
        expected = meas.shadow.bcov(bx, by)
        got = meas.real.kernels[q.p, r.p](x, y)
        big = max(
            1,
            np.abs(expected).max(initial=0),
            np.abs(meas.shadow.bcov(bx)).max(initial=0),
            np.abs(meas.shadow.bcov(by)).max(initial=0),
        )
        return self.ctx.close(
            got, expected, name, tol=self.tol(meas), scale=big,
            measure=meas.label, left=q.label, right=r.label, x=X, y=Y,
        )

    def judge_elwise(self, meas, q, X, name):
        x = self.present(X)
        e = np.concatenate(
            [
                [meas.shadow.cov(pid, X[i : i + 1], pid, X[i : i + 1])[0, 0]
                 for i in range(len(X))]
                for pid in q.pids
            ]
        )[:, None]
        got = meas.real.kernels[q.p].elwise(x)
        return self.ctx.close(
            got, e, name, tol=self.tol(meas), measure=meas.label, process=q.label, x=X,
        )


def block_diag(Ms):
    n = sum(len(M) for M in Ms)
    out = np.zeros((n, n))
    i = 0
    for M in Ms:
        out[i : i + len(M), i : i + len(M)] = M
        i += len(M)
    return out


def grow(w, m, n_ops, custom=0.06, base=0.1, post_ops=True):
    """Random constructor calls on processes of any measure."""
    rng = w.rng
    for _ in range(n_ops):
        r = rng.random()
        q = w.choice([q for q in w.procs if not q.mo])
        if r < base:
            w.base(w.choice(w.measures) if post_ops else m)
        elif r < 0.4:
            w.add(q, w.choice(w.partners(q)))
        elif r < 0.4 + custom:
            meas = w.choice(w.measures)
            if w.procs_in(meas):
                w.custom(meas)
        elif r < 0.56:
            w.copy(w.choice(q.measures), q)
        else:
            w.derive_random(q)


DIAG = ("scalar", "vector", "diag")


def diag_noise(rng, n, kinds=DIAG, lo=0.05, hi=0.6):
    """Diagonal noise. Returns argument and the diagonal."""
    from matrix import Diagonal

    kind = kinds[rng.integers(len(kinds))]
    s = float(np.round(rng.uniform(lo, hi), 3))
    if kind == "scalar":
        return s, np.full(n, s)
    v = np.round(rng.uniform(lo, hi, n), 3)
    return (v if kind == "vector" else Diagonal(v)), v


class Pseudo:
    """A random sparse approximation: real objects and what they mean."""

    def __init__(self, w, meas, method=None, z_is_x=False, n_sets=None, missing=False,
                 noisy_z=None, z_extra=0):
        rng = w.rng
        self.w, self.meas = w, meas
        q0 = w.choice(w.procs_in(meas))
        pool = [r for r in w.procs_in(meas) if r.measures[0] is q0.measures[0]]
        n_sets = int(rng.choice([1, 1, 2])) if n_sets is None else n_sets
        self.sets = []
        for i in range(n_sets):
            q = q0 if i == 0 else w.choice(pool)
            n = int(rng.integers(1, 5))
            X = w.X(q, n)
            arg, v = diag_noise(rng, n)
            b = [(q.pids[0], X)]
            y = w.draw(meas.shadow, b, np.diag(v))
            if missing and n > 1:
                y[rng.integers(n)] = np.nan
            self.sets.append((q, X, arg, v, y))
        self.method = method or w.choice(["vfe", "fitc", "dtc"])
        self.zs = []
        if z_is_x:
            zsets = [(q, X) for q, X, *_ in self.sets]
        else:
            zsets = []
            for i in range(int(rng.choice([1, 1, 2]))):
                q = w.choice(pool) if rng.random() < 0.5 else self.sets[0][0]
                zsets.append((q, w.X(q, int(rng.integers(1, 4)))))
        for q, Z in zsets:
            # Noise on the inducing points.
            noisy = (rng.random() < 0.3) if noisy_z is None else noisy_z
            arg, N = None, np.zeros((len(Z), len(Z)))
            if noisy:
                arg, N, _ = gen.noise(rng, len(Z), ("scalar", "vector", "matrix"))
            self.zs.append((q, Z, arg, N))

    def shadow(self, method=None, parent=None):
        return ShadowPseudo(
            parent or self.meas.shadow,
            [(q.pids[0], Z) for q, Z, _, _ in self.zs],
            block_diag([N for *_, N in self.zs]),
            [(s[0].pids[0], s[1]) for s in self.sets],
            np.concatenate([s[3] for s in self.sets]),
            np.concatenate([s[4] for s in self.sets]),
            method or self.method,
        )

    def real(self, method=None):
        w, rng, st = self.w, self.w.rng, self.w.st
        cls = {
            "vfe": w.choice([st.PseudoObs, st.PseudoObservations, st.SparseObs,
                             st.SparseObservations]),
            "fitc": w.choice([st.PseudoObsFITC, st.PseudoObservationsFITC]),
            "dtc": w.choice([st.PseudoObsDTC, st.PseudoObservationsDTC]),
        }[method or self.method]
        us = [q.p(gen.present(rng, Z), arg) for q, Z, arg, _ in self.zs]
        u = us[0] if len(us) == 1 and rng.random() < 0.7 else tuple(us)
        pairs = [
            (q.p(gen.present(rng, X), arg), w.y_arg(y)) for q, X, arg, v, y in self.sets
        ]
        if len(pairs) == 1 and rng.random() < 0.5:
            return cls(u, *pairs[0])
        return cls(u, *pairs)

    def describe(self):
        return (
            f"{self.method}: z "
            + ", ".join(f"P{q.seq}[{len(Z)}]{'' if a is None else '+noise'}"
                        for q, Z, a, _ in self.zs)
            + "; x "
            + ", ".join(f"P{s[0].seq}[{len(s[4])}]" for s in self.sets)
        )
