"""C13: names."""
import numpy as np

from mon import gen

RULE = (
    "One case is a history of naming, renaming, swapping names through a temporary, naming on "
    "construction, rejected names, and look-ups in 1-3 measures and their posteriors; after "
    "every step, all look-ups in both directions are compared to a pair of dictionaries per "
    "measure. Distinct by history."
)
ASSUMPTIONS = []
REQUIRED = {
    "rejected by some measures": 100, "judged:rejected constructor": 100,
    "judged:name of process": 500, "judged:process of name": 500, "judged:unnamed": 300,
    "judged:rejected": 100, "judged:free name": 300, "renamed": 100, "name reused": 50,
    "posterior": 50,
}


def cases(tier, seed):
    n = 3000 if tier == "quick" else 20000
    return [{"seed": seed, "i": i} for i in range(n)]


def run(case, ctx):
    import stheno as st

    rng = gen.rng_of("C13", case["seed"], case["i"])
    choice = lambda xs: xs[rng.integers(len(xs))]
    pool = ["f", "g", "h", "a b", "f_1"]
    ms = [st.Measure() for _ in range(int(rng.integers(1, 3)))]
    procs = []  # (process, measures)
    names = {id(m): {} for m in ms}  # Name to process.
    ever = set()
    trace = []

    def verify(after):
        for k, m in enumerate(ms):
            d = names[id(m)]
            for n in pool:
                if n in d:
                    try:
                        got = m[n]
                    except Exception as e:
                        got = e
                    ctx.check(got is d[n], "process of name", which=n, measure=k, after=after)
                else:
                    ctx.raises(lambda: m[n], "free name", KeyError, which=n, measure=k,
                               after=after)
            for p, metas in procs:
                if not any(m is z for z in metas):
                    continue
                want = [n for n, q in d.items() if q is p]
                if want:
                    try:
                        got = m[p]
                    except Exception as e:
                        got = e
                    ctx.check(got == want[0], "name of process", got=got, want=want[0],
                              measure=k, after=after)
                else:
                    ctx.raises(lambda: m[p], "unnamed", KeyError, measure=k, after=after)
        for p, metas in procs:
            want = [n for n, q in names[id(metas[0])].items() if q is p]
            if want:
                ctx.check(p.name == want[0], "name of process", after=after)
            else:
                ctx.raises(lambda: p.name, "unnamed", KeyError, after=after)

    def model(m, p, n):
        """Returns whether it is accepted."""
        d = names[id(m)]
        if n in d and d[n] is not p:
            return False
        for k in [k for k, q in d.items() if q is p]:
            if k != n:
                ctx.event("renamed")
            del d[k]
        if (id(m), n) in ever:
            ctx.event("name reused")
        ever.add((id(m), n))
        d[n] = p
        return True

    def free(m, p, n):
        d = names[id(m)]
        return n not in d or d[n] is p

    for _ in range(int(rng.integers(6, 18))):
        kind = choice(["new", "new-named", "name", "name", "name", "measure", "posterior",
                       "derive", "same", "dup"])
        if kind in ("new", "new-named") or not procs:
            m = choice([m for m in ms])
            if kind == "new-named" and len(ms):
                n = choice(pool)
                if n in names[id(m)]:
                    # Rejected, and the process is not constructed.
                    before = list(m.ps)
                    ctx.raises(lambda: st.GP(st.EQ(), measure=m, name=n), "rejected",
                               RuntimeError)
                    ctx.check(len(m.ps) == len(before)
                              and all(a is b for a, b in zip(m.ps, before)),
                              "rejected constructor")
                    trace.append("rejected-new")
                    verify("rejected-new")
                    continue
                if rng.random() < 0.5:
                    p = st.GP(st.EQ(), measure=m, name=n)
                else:
                    with m:
                        p = st.GP(1, st.EQ(), name=n)
                procs.append((p, [m]))
                ctx.check(model(m, p, n), "process of name")
            else:
                procs.append((st.GP(st.EQ(), measure=m), [m]))
        elif kind == "derive":
            p, metas = choice(procs)
            procs.append((p + 1 if rng.random() < 0.5 else 2 * p, list(metas)))
        elif kind == "posterior" and len(ms) < 5:
            m = choice(ms)
            mine = [t for t in procs if t[1][0] is m]
            if not mine:
                continue
            ctx.event("posterior")
            p = choice(mine)[0]
            post = m | (p(0.3, 1.0), 1.0)
            ms.append(post)
            names[id(post)] = {}
            for p, metas in procs:
                if any(z is m for z in metas):
                    metas.append(post)
        elif kind == "measure":
            # Name in one measure.
            p, metas = choice(procs)
            m = choice(metas)
            n = choice(pool)
            if free(m, p, n):
                m.name(p, n)
                model(m, p, n)
            else:
                ctx.raises(lambda: m.name(p, n), "rejected", RuntimeError)
        else:
            p, metas = choice(procs)
            n = choice(pool)
            if kind == "same":
                mine = [k for k, q in names[id(metas[0])].items() if q is p]
                n = mine[0] if mine else n
            elif kind == "dup":
                taken = [k for k, q in names[id(metas[0])].items() if q is not p]
                n = choice(taken) if taken else n
            ok = [free(m, p, n) for m in metas]
            if all(ok):
                p.name = n
                for m in metas:
                    model(m, p, n)
            else:
                # Rejected by a measure, so nothing changes in any.
                if any(ok):
                    ctx.event("rejected by some measures")

                def f():
                    p.name = n

                ctx.raises(f, "rejected", RuntimeError)
        trace.append(kind)
        ctx.log(kind)
        verify(kind)
    ctx.sig(trace, [len(d) for d in names.values()])
    if case["i"] < 5:
        ctx.sample = {"history": trace}
