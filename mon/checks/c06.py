"""C06: the ELBO."""
import numpy as np

from mon import gen
from mon.core import Skip, dense
from mon.ref import ShadowExact
from mon.world import Pseudo, World, cond_tol, grow

RULE = (
    "One case is a random model with sparse observations; the ELBO is compared to its "
    "definition under several measures (prior and posteriors) in random order with repeats, "
    "through every access path, and bounds on the evidence are checked. Distinct by program."
)
ASSUMPTIONS = ["covariance of the inducing points has condition number at most 2e3"]
REQUIRED = {
    "judged:elbo": 200,
    "judged:elbo through measure": 60,
    "judged:elbo repeated": 60,
    "judged:lower bound": 40,
    "judged:more inducing points": 15,
    "judged:tight at the data": 10,
    "judged:tight at the data, large": 80,
    "method:vfe": 20, "method:fitc": 10, "method:dtc": 10,
    "several measures": 30,
}


def cases(tier, seed):
    n = 600 if tier == "quick" else 6000
    large = 60 if tier == "quick" else 1500
    return [{"seed": seed, "i": i} for i in range(n)] + [
        {"seed": seed, "large": i} for i in range(large)
    ]


def run_large(case, ctx):
    """Inducing points at the data, with more points and larger variances."""
    import stheno as st

    rng = gen.rng_of("C06-large", case["seed"], case["large"])
    n = int(rng.integers(20, 60))
    v, s = 10 ** rng.uniform(0, 4), 10 ** rng.uniform(-1.3, 0.5)
    kn = ["Matern12", "Matern32", "Matern52", "EQ"][rng.integers(4)]
    if kn == "EQ" and rng.random() < 0.3:
        # The repaired defect: rounding makes the trace correction slightly negative.
        n, v, s, x = 50, 1000.0, 0.1, np.linspace(0, 5, 50)
    else:
        x = np.linspace(0, rng.uniform(2, 20), n)
        if kn == "EQ":
            x = np.linspace(0, n * rng.uniform(0.5, 1), n)
    f = st.GP(v * getattr(st, kn)(), measure=st.Measure())
    y = np.sin(x) * np.sqrt(v) + rng.standard_normal(n) * np.sqrt(s)
    try:
        ev = float(f.measure.logpdf(f(x, s), y))
        for c in (st.PseudoObs, st.PseudoObsFITC, st.PseudoObsDTC):
            e = float(c(f(x), f(x, s), y).elbo(f.measure))
            ctx.close(e, ev, "tight at the data, large", 1e-5, max(1, abs(ev)), kernel=kn,
                      n=n, variance=v, noise=s, cls=c.__name__)
    except np.linalg.LinAlgError:
        raise Skip
    ctx.sig(kn, n, v, s)


def run(case, ctx):
    if "large" in case:
        return run_large(case, ctx)
    rng = gen.rng_of("C06", case["seed"], case["i"])
    w = World(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 5)))
    z_is_x = rng.random() < 0.2
    for attempt in range(6):
        ps = Pseudo(w, m, z_is_x=z_is_x, noisy_z=False if z_is_x else None,
                    missing=rng.random() < 0.2)
        try:
            shadow = ps.shadow()
        except Skip:
            continue
        if shadow.cond < 2e3:
            break
    else:
        raise Skip
    w.log(ps.describe())
    obs = ps.real()
    ctx.event("method:" + ps.method)
    # Other measures in which the observed processes live.
    metas = [m]
    qs = [s[0] for s in ps.sets] + [z[0] for z in ps.zs]
    for _ in range(int(rng.integers(0, 3))):
        parent = w.choice([z for z in metas if all(z in q.measures for q in qs)])
        try:
            q = w.choice(w.procs_in(parent))
            X = w.X(q, 2)
            f, b, N = w.fdd(q, X=X, lo=0.2)
            y = rng.standard_normal(2)
            s = ShadowExact(parent.shadow, b, N, y)
            if s.cond > 2e3:
                continue
            # `obs` was made before: it lives in the new measure too.
            real = parent.real | (f, y)
            metas.append(w.posterior(real, s, parent, f"{parent.label} | P{q.seq}[2]"))
        except Skip:
            continue
    if len(metas) > 1:
        ctx.event("several measures")
    reads = [metas[i] for i in rng.integers(len(metas), size=len(metas) + 2)]
    reads += [m]
    seen = {}
    for meas in reads:
        try:
            s = ps.shadow(parent=meas.shadow)
        except Skip:
            continue
        if s.cond > 2e3:
            continue
        tol = max(1e-7, 10 * cond_tol(s.cond))
        how = w.choice(["elbo", "logpdf", "mu-first"])
        if how == "mu-first":
            obs.mu(meas.real)
        got = meas.real.logpdf(obs) if how == "logpdf" else obs.elbo(meas.real)
        sc = max(1.0, abs(s.elbo))
        ctx.close(got, s.elbo, "elbo", tol, sc, measure=meas.label, how=how,
                  method=ps.method, what=ps.describe())
        if how == "logpdf":
            ctx.event("judged:elbo through measure")
        if meas.label in seen:
            ctx.check(float(got) == seen[meas.label], "elbo repeated", a=float(got),
                      b=seen[meas.label])
        seen[meas.label] = float(got)
        if ps.method == "vfe":
            ctx.check(float(got) <= s.evidence + tol * sc, "lower bound",
                      elbo=float(got), evidence=s.evidence)
        ctx.check(np.ndim(dense(got)) == 0, "elbo is a scalar")
    # Asking for the evidence the way it is computed for exact observations.
    fdds = [(q.p(gen.present(rng, X), arg), w.y_arg(y)) for q, X, arg, v, y in ps.sets]
    ev = m.real.logpdf(*fdds)
    sc = max(1.0, abs(shadow.evidence))
    ctx.close(ev, shadow.evidence, "evidence", 1e-7, sc)
    elbo = float(obs.elbo(m.real))
    if ps.method == "vfe":
        ctx.check(elbo <= float(ev) + 1e-6 * sc, "lower bound", elbo=elbo, evidence=ev)
    if z_is_x and ps.method in ("vfe", "fitc", "dtc"):
        if not any(np.isnan(s[4]).any() for s in ps.sets):
            ctx.close(elbo, float(ev), "tight at the data",
                      max(1e-6, 100 * cond_tol(shadow.cond)), sc)
    # More inducing points tighten the bound. The old inducing points are kept.
    if ps.method == "vfe" and not any(z[2] is not None for z in ps.zs):
        q = ps.sets[0][0]
        Z = w.X(q, 1)
        ps.zs.append((q, Z, None, np.zeros((1, 1))))
        try:
            s2 = ps.shadow()
            if s2.cond < 2e3:
                e2 = float(ps.real().elbo(m.real))
                tol = max(1e-6, 100 * cond_tol(s2.cond)) * sc
                ctx.check(e2 >= elbo - tol, "more inducing points", before=elbo, after=e2)
                ctx.close(e2, s2.elbo, "elbo", max(1e-7, 10 * cond_tol(s2.cond)), sc)
        except Skip:
            pass
    ctx.sig(w.ops)
    if case["i"] < 6:
        ctx.sample = {"program": w.ops, "elbo": elbo, "evidence": float(ev)}
