"""C27: displays are faithful and harmless."""
import re

import numpy as np

from mon import dists, gen
from mon.checks import c20
from mon.core import Skip, dense
from mon.world import Pseudo, World, grow

RULE = (
    "One case is a random model with instrumented kernels and means, in priors, posteriors, "
    "and pseudo-posteriors, of which processes, means, kernels, and distributions are shown "
    "by str, repr, and display with formatters, with names and without, before and after "
    "distributions are computed. The log of evaluations must stay empty, what is shown must "
    "match what is computed, formatters must see every number, and everything must be the "
    "same afterwards. Distinct by program."
)
ASSUMPTIONS = ["numbers with a decimal point are values"]
REQUIRED = {
    "judged:process": 500, "judged:formatter": 500, "judged:nothing evaluated": 1000,
    "judged:distribution": 200, "judged:unresolved": 200, "judged:fdd": 200,
    "judged:own measure": 100, "judged:repeatable": 500, "judged:multi-output": 100,
    "judged:unattached": 20, "judged:after": 100, "formatted": 300,
}


def cases(tier, seed):
    n = 1200 if tier == "quick" else 6000
    return [{"seed": seed, "i": i} for i in range(n)]


CALLS = []


class Watched(World):
    def wrap_kernel(self, k):
        return c20.Tracked(k)


def strip(s):
    """Names and numbers, without how collections are shown."""
    return [t for t in re.findall(r"[\w.]+|[^\w\s]", re.sub("[«»]", "", s))
            if t not in ["'", "array", "(", ")", "[", "]", ","]]


def run(case, ctx):
    import mlkernels as mk
    import stheno as st

    c20.setup()
    rng = gen.rng_of("C27", case["seed"], case["i"])
    w = Watched(rng, int(rng.choice([1, 1, 2, 2, 3])), ctx, linear=False, fn_means=False)
    m = w.measure()
    for _ in range(int(rng.integers(1, 3))):
        w.base(m)
    grow(w, m, int(rng.integers(1, 6)))
    meas, state = m, "prior"
    try:
        if case["i"] % 3 == 1:
            meas, state = w.condition(m), "exact"
        elif case["i"] % 3 == 2:
            ps = Pseudo(w, m)
            s = ps.shadow()
            if s.cond < 2e3:
                meas, state = w.posterior(m.real | ps.real(), s, m, ps.describe()), "pseudo"
    except Skip:
        pass
    pool = [q for q in w.procs if meas in q.measures]
    q0 = w.choice(pool)
    both = [r for r in w.partners(q0) if meas in r.measures]
    pool += [w.cross([w.choice(both) for _ in range(2)])]
    if rng.random() < 0.5:
        pool.append(w.cross([pool[-1], pool[-1]]))
    names = {}

    def quiet(f, name, **info):
        """Nothing may be evaluated."""
        c20.LOG.clear()
        out = f()
        ctx.check(not c20.LOG and isinstance(out, str), "nothing evaluated", what=name,
                  log=list(c20.LOG), out=out, **info)
        return out

    F = lambda x: f"«{x}»"
    for _ in range(6):
        q = w.choice(pool)
        p = q.p
        if rng.random() < 0.4 and id(p) not in names:
            names[id(p)] = f"name {len(names)}"
            p.name = names[id(p)]
        if rng.random() < 0.3 and meas.real is not p.measure:
            p = meas.real(p)
        info = dict(process=q.label, state=state)
        if p.measure is not m.real:
            # What a posterior shares between all inputs is computed once.
            p.mean, p.kernel
            if q.mo:
                [(p.measure.means[r], p.measure.kernels[r]) for r in p.measure.ps]
        s = quiet(lambda: str(p), "str", **info)
        # In its own measure.
        mean, kernel = p.measure.means[p], p.measure.kernels[p]
        want = f"GP({quiet(lambda: str(mean), 'mean')}, {quiet(lambda: str(kernel), 'kernel')})"
        ctx.check(s == want, "process", got=s, want=want, **info)
        ctx.check(quiet(lambda: repr(p), "repr", **info) == s, "process", got=repr(p), want=s)
        ctx.check(quiet(lambda: p.display(), "display", **info) == s, "process", **info)
        ctx.check(str(p) == s, "repeatable", **info)
        if q.mo and p is q.p:
            ctx.check(s.count("MultiOutput") >= 2, "multi-output", got=s, **info)
        # Formatters.
        for obj in (p, p.mean, p.kernel, *[
                p.measure.kernels[p, r.p] for r in (w.choice(pool),) if p.measure in
                [x.real for x in r.measures] and r.p in p.measure.ps]):
            seen = []

            def formatter(x):
                seen.append(x)
                return F(x)

            f = quiet(lambda: obj.display(formatter), "formatted", **info)
            ctx.event("formatted", int("«" in f))
            ctx.check(strip(f) == strip(str(obj)), "formatter", got=f, want=str(obj), **info)
            rest = re.sub("«[^«»]*»", "", f)
            ctx.check(not re.search(r"\d\.\d", rest), "formatter", got=f, **info)
        # Another measure shows its own.
        if meas is not m and m in q.measures and meas in q.measures:
            a, b = str(m.real.kernels[q.p]), str(meas.real.kernels[q.p])
            ctx.check("Posterior" not in a and ("Posterior" in b or not re.search("[A-Z1-9]", b.replace("MultiOutputKernel", ""))),
                      "own measure", prior=a, posterior=b, **info)
        # Distributions.
        X = w.X(q, w.n(1, 3))
        x = gen.present(rng, X)
        n = len(X) * len(q.pids)
        arg, N, kind = gen.noise(rng, n, ("none", "scalar", "vector", "matrix"), lo=0.1)
        fdd = p(x, arg)
        for show in (str, repr):
            out = quiet(lambda: show(fdd), "fdd", **info)
            for part in (show(p), show(x), show(fdd.noise)):
                ctx.check("".join(part.split()) in "".join(out.split()), "fdd", got=out,
                          part=part, **info)
        # Displaying changes nothing.
        blocks = [(pid, X) for pid in q.pids]
        sh = (meas if p.measure is meas.real else m if p.measure is m.real else None)
        if sh is not None:
            t = max(1e-8, 10 * w.tol(sh))
            mu, K = sh.shadow.bmean(blocks), sh.shadow.bcov(blocks) + N
            sc = max(1, np.abs(mu).max(), np.abs(K).max())
            ctx.close(fdd.mean, mu[:, None], "after", t, sc, **info)
            ctx.close(fdd.var, K, "after", t, sc, **info)
    normals(ctx, rng, st)
    out = [str(st.GP()), repr(st.GP()), st.GP().display()]
    ctx.check(out == ["GP()"] * 3, "unattached", got=out)
    ctx.sig(w.ops, state)
    if case["i"] < 5:
        ctx.sample = {"program": w.ops, "state": state}


def normals(ctx, rng, st):
    """Distributions show what has been computed and compute nothing."""
    n = int(rng.integers(1, 4))
    V, S, kv = dists.variance(rng, n)
    M, mu, km = dists.mean(rng, n)
    calls = []
    mean = lambda: calls.append("mean") or (0 if M is None else M)
    var = lambda: calls.append("var") or V
    d = st.Normal(var) if M is None and rng.random() < 0.5 else st.Normal(mean, var)
    todo = [str(s) for s in rng.permutation(["mean", "var", "var_diag", "logpdf", "mean"])]
    for t in ["nothing"] + todo:
        if t == "logpdf":
            d.logpdf(np.zeros(n))
        elif t != "nothing":
            getattr(d, t)
        k = len(calls)
        have = {"mean": "mean" in calls, "var": "var" in calls}
        for show in (str, repr):
            out = show(d)
            ctx.check(len(calls) == k, "nothing evaluated", what="normal", calls=calls)
            ctx.check(out.count("unresolved") == 2 - have["var"] - _mean_known(out, have),
                      "unresolved", got=out, have=have)
            flat = "".join(out.split())
            if have["var"]:
                ctx.check("".join(show(d.var).split()) in flat, "distribution", got=out,
                          var=show(d.var), representation=kv)
            if have["mean"]:
                ctx.check("".join(show(d.mean).split()) in flat, "distribution", got=out,
                          mean=show(d.mean), representation=km)
    e = st.Normal(V) if M is None else st.Normal(M, V)
    str(e), repr(e), e.mean_var
    out = "".join(str(e).split())
    ctx.check("".join(str(e.var).split()) in out, "distribution", got=out, var=str(e.var), representation=kv)
    if M is not None:
        ctx.check("".join(str(e.mean).split()) in out, "distribution", got=out,
                  representation=km)


def _mean_known(out, have):
    """A zero mean may be known from the start."""
    return 0 if re.search(r"mean=\s*unresolved", out) and not have["mean"] else 1
