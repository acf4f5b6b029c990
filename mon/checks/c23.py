"""C23: a process that claims stationarity is stationary."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.world import World, grow

RULE = (
    "One case is a random model with posteriors and Cartesian products; the flag of every "
    "process is read, and for each process whose flag is set the covariance at inputs and at "
    "inputs shifted by a random vector are compared. Processes built only from stationary "
    "kernels by scaling, shifting, stretching, and summing must have the flag set, processes "
    "whose variance varies must not. Distinct by program."
)
ASSUMPTIONS = [
    "the flag of a process with several outputs is not set, or also right",
]
REQUIRED = {
    "judged:shift invariance": 300, "judged:flag set": 200, "judged:flag not set": 200,
    "claims": 300, "op:transform": 20, "op:mulf": 20, "op:copy": 10, "op:condition": 20,
    "judged:stable flag": 300,
}


def cases(tier, seed):
    n = 600 if tier == "quick" else 8000
    return [{"seed": seed, "i": i} for i in range(n)]


def run(case, ctx):
    import stheno as st

    rng = gen.rng_of("C23", case["seed"], case["i"])
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=True)
    m = w.measure()
    closed = set()  # Processes which must have the flag.
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < 0.6:
            # Stationary for sure.
            k, f, d = gen.kernel(rng, linear=False)
            p = st.GP(float(np.round(rng.uniform(-1, 1), 2)), k, measure=m.real)
            from mon.ref import Base

            pid = w.pid()
            m.shadow.define(pid, Base(lambda X: np.zeros(len(X)), f))
            q = w.new_proc(p, [pid], [m], f"base({d})", w.D)
            closed.add(q.seq)
        else:
            w.base(m)
    for _ in range(int(rng.integers(3, 9))):
        r = rng.random()
        if r < 0.1 and m is w.measures[-1]:
            try:
                w.condition(m, n_sets=1)
            except Skip:
                pass
        elif r < 0.45:
            q = w.choice(w.procs)
            op = w.choice(["scale", "neg", "addc", "shift", "stretch", "add", "copy"])
            if op == "add":
                r = w.choice(w.partners(q))
                s = w.add(q, r)
                # A sum of two different processes can relate them by a shift.
                if q.seq in closed and r.seq in closed and q is r:
                    closed.add(s.seq)
            elif op == "copy":
                s = w.copy(q.measures[0], q)
                if q.seq in closed:
                    closed.add(s.seq)
            else:
                s = getattr(w, op)(q)
                if q.seq in closed:
                    closed.add(s.seq)
        else:
            grow(w, m, 1)
    procs = list(w.procs)
    if rng.random() < 0.5:
        q = w.choice(procs)
        r = w.choice(w.partners(q))
        procs.append(w.cross([q, r]))
    for q in procs:
        flag = q.p.stationary
        ctx.check(isinstance(flag, (bool, np.bool_)), "flag is a Boolean", flag=flag)
        meas = q.measures[0]
        X = w.X(q, 3)
        c = rng.uniform(-1.5, 1.5, q.din)
        K = dense(q.p.kernel(X, X))
        Kc = dense(q.p.kernel(X + c, X + c))
        e = meas.shadow.bcov([(pid, X) for pid in q.pids])
        ec = meas.shadow.bcov([(pid, X + c) for pid in q.pids])
        sc = max(1, np.abs(e).max(), np.abs(ec).max())
        info = dict(process=q.label, x=X, shift=c)
        if flag:
            ctx.event("claims")
            ctx.close(Kc, K, "shift invariance", 1e-8, sc, **info)
            Y = w.X(q, 2)
            ctx.close(dense(q.p.kernel(X + c, Y + c)), dense(q.p.kernel(X, Y)),
                      "shift invariance", 1e-8, sc, **info)
            d = dense(q.p.kernel.elwise(X))
            ctx.check(np.ptp(d) < 1e-8 * sc, "constant variance", **info)
        # Judged by the model.
        if np.abs(e - ec).max() > 1e-4 * sc:
            ctx.check(not flag, "flag not set", **info)
        if q.seq in closed:
            ctx.check(bool(flag), "flag set", **info)
        ctx.check(q.p.stationary == flag, "stable flag", **info)
        # Posterior flags.
        for meas in q.measures[1:]:
            f2 = meas.real(q.p).stationary
            if f2:
                K2, K3 = (dense(meas.real.kernels[q.p](Z, Z)) for Z in (X, X + c))
                ctx.close(K3, K2, "shift invariance", 1e-7, sc, measure=meas.label, **info)
    ctx.sig(w.ops)
    if case["i"] < 5:
        ctx.sample = {"program": w.ops, "flags": [bool(q.p.stationary) for q in procs]}
