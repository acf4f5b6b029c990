"""C26: a program means the same whatever else happens in the interpreter."""
import gc
import hashlib
import json
import os
import subprocess
import sys
from pathlib import Path

import numpy as np

from mon import gen
from mon.core import dense

RULE = (
    "One case is a random program that creates, queries, reuses, and drops measures, processes, "
    "distributions, and observations. The reference run keeps every object alive. The program "
    "is repeated while objects are freed and addresses are reused at once, with garbage "
    "collection at every step, interleaved with other programs in one interpreter under a "
    "random schedule, and in other interpreters with other hash seeds. All answers, names, "
    "orders, and displays must be the same. Distinct by program and schedule."
)
ASSUMPTIONS = ["numbers are compared up to 1e-9 (linear algebra depends on alignment)",
               "programs that share an interpreter share no objects and use explicit measures"]
REQUIRED = {
    "judged:freed": 1500, "judged:collected": 1500, "judged:interleaved": 3000,
    "judged:repeated": 1500, "judged:other interpreter": 300, "dropped": 60,
    "address reused": 20, "switch": 1000, "judged:completed": 300,
    "step:obs": 40, "step:pseudo": 40, "step:name": 40, "step:display": 60, "step:sample": 60,
}
JOBS = 8


def cases(tier, seed):
    n = 64 if tier == "quick" else 4000
    out = [{"seed": seed, "i": i, "kind": "here"} for i in range(n)]
    k = 2 if tier == "quick" else 30
    return out + [{"seed": seed, "i": i, "kind": "elsewhere"} for i in range(k)]


class Model:
    def __init__(self):
        import stheno as st

        self.m = st.Measure()
        self.ps, self.posts, self.products = [], [], []


def program(key, keep=None, event=lambda name: None):
    """A generator that performs one step at a time and yields answers."""
    import lab as B
    import mlkernels as mk
    import stheno as st

    rng = gen.rng_of("C26-program", *key)
    models, dists = [], []
    ids = set()

    def note(*xs):
        # Observe whether addresses are used again.
        for x in xs:
            if id(x) in ids:
                event("address reused")
            ids.add(id(x))
        if keep is not None:
            keep.extend(xs)

    def pick(l):
        return l[rng.integers(len(l))]

    def grid(k):
        return rng.choice(np.arange(-5, 6), k, replace=False) * 0.4

    def new():
        M = Model()
        note(M.m)
        for _ in range(int(rng.integers(1, 3))):
            k = [mk.EQ(), mk.Matern32(), mk.RQ(0.7)][rng.integers(3)]
            k = float(rng.integers(1, 4)) * k.stretch(float(rng.integers(1, 3)))
            mean = [0, 1.5, lambda x: x**2][rng.integers(3)]
            M.ps.append(st.GP(mean, k, measure=M.m))
            note(M.ps[-1])
        models.append(M)

    def operate(M):
        p, q = pick(M.ps), pick(M.ps)
        c = float(rng.integers(1, 4)) / 2
        o = rng.integers(10)
        r = [lambda: p + q, lambda: p - q, lambda: c * p, lambda: p + c, lambda: p.shift(c),
             lambda: p.stretch(c), lambda: (lambda x: B.sin(x)) * p,
             lambda: p.transform(lambda x: x + 0.1), lambda: p * q,
             lambda: st.cross(p, q)][o]()
        note(r)
        if o < 9:
            M.ps.append(r)
        else:
            event("product")
            M.products.append(r)
        return r

    def order(M, m):
        # The processes of a measure, in order.
        known = {id(p): i for i, p in enumerate(M.ps)}
        return [known.get(id(p), -1) for p in m.ps]

    def outputs(M):
        # Sizes of products of processes and of others must not be mixed up.
        m, out = measure(M), []
        for p in [pick(M.products), pick(M.ps), 1.5 * pick(M.products)]:
            if any(p is q for q in m.ps):
                x = grid(2)
                d = (m(p) if m is not M.m else p)(x, 0.3)
                out += [d.noise.shape[0], dense(d.mean), dense(d.var)]
                out.append(dense(d.logpdf(np.ones(d.dim))))
        return out

    def measure(M):
        return pick([M.m] + M.posts)

    def observation(M):
        k = int(rng.integers(1, 4))
        fdd = pick(M.ps)(grid(k), [0.3, np.array([0.2, 0.5, 0.4])[:k]][rng.integers(2)])
        note(fdd)
        return fdd, rng.standard_normal(k)

    def answer(d, y):
        what = rng.permutation(["mean", "var", "marginals", "logpdf", "mean_var"])[:3]
        out = []
        for w in what:
            if w == "mean":
                out.append(dense(d.mean))
            elif w == "var":
                out.append(dense(d.var))
            elif w == "marginals":
                out.extend(np.asarray(v) for v in d.marginals())
            elif w == "logpdf":
                out.append(dense(d.logpdf(y)))
            else:
                out.extend(dense(v) for v in d.mean_var)
        return out

    new()
    yield []
    for step in range(22):
        if not models:
            new()
        M = pick(models)
        s = rng.random()
        out = []
        if s < 0.08 and len(models) < 4:
            event("step:new")
            new()
        elif s < 0.25:
            event("step:operate")
            r = operate(M)
            out = [dense(r.kernel(grid(2))) if len(M.ps) and r is M.ps[-1] else str(r)]
        elif s < 0.36 and len(M.posts) < 3:
            event("step:condition")
            prior = measure(M)
            # A process that the prior knows.
            post = prior | observation_known(prior, M, observation, rng)
            note(post)
            M.posts.append(post)
            out = [order(M, post)]
        elif s < 0.46:
            # The same observations under several measures.
            event("step:obs")
            fdd, y = observation(M)
            o = st.Obs(fdd, y)
            note(o)
            for _ in range(int(rng.integers(1, 4))):
                tmp = M.m | o
                note(tmp)
                d = tmp(pick(M.ps))(grid(2), 0.2)
                note(d)
                out += answer(d, np.zeros(2))
                del tmp, d
        elif s < 0.56:
            event("step:pseudo")
            cls = [st.PseudoObs, st.PseudoObsFITC, st.PseudoObsDTC][rng.integers(3)]
            o = cls(pick(M.ps)(grid(2), 0.1), *observation(M))
            note(o)
            out.append(dense(o.elbo(M.m)))
            tmp = M.m | o
            note(tmp)
            d = tmp(pick(M.ps))(grid(2), 0.2)
            out += answer(d, np.zeros(2))
            out.append(dense(o.elbo(M.m)))
            del tmp, d
        elif s < 0.66:
            event("step:query")
            d = pick(M.ps)(grid(2), 0.2)
            note(d)
            out = answer(d, np.ones(2))
            m = measure(M)
            d = m(d) if d.p in m.ps else d
            out += answer(d, np.ones(2))
            dists.append(d)
        elif s < 0.69 and dists:
            event("step:old")
            out = answer(pick(dists), np.ones(2))
        elif s < 0.72 and M.products:
            event("step:outputs")
            out = outputs(M)
        elif s < 0.80:
            event("step:sample")
            state = B.create_random_state(np.float64, seed=int(rng.integers(100)))
            _, a, b = M.m.sample(state, 2, pick(M.ps)(grid(2), 0.3), pick(M.ps)(grid(1), 0.3))
            out = [dense(a), dense(b), len(M.m.ps)]
        elif s < 0.88:
            event("step:name")
            m = measure(M)
            free = [p for p in M.ps if p in m.ps]
            name = "n" + str(rng.integers(5))
            try:
                m.name(pick(free), name)
                out.append("named")
            except Exception as e:
                out.append(type(e).__name__)
            for n in ["n" + str(i) for i in range(5)]:
                try:
                    out.append(f"{n}: {M.ps.index(m[n])}")
                except Exception as e:
                    out.append(f"{n}: {type(e).__name__}")
        elif s < 0.92:
            event("step:display")
            p = pick(M.ps)
            out = [str(p), repr(p), str(p.mean), str(p.kernel),
                   order(M, M.m), len(M.m.ps)]
        else:
            # Drop a model and everything that refers to it, and start over.
            models.remove(M)
            dists.clear()
            event("dropped")
            M = d = r = m = o = p = post = prior = fdd = free = None
            gc.collect(0)
            new()
        # Local variables would keep things alive.
        M = d = r = m = o = p = post = prior = fdd = free = None
        yield out
    for M in models:
        yield [order(M, m) for m in [M.m] + M.posts]
        if M.products:
            yield outputs(M)
        for p in M.ps[:4]:
            yield answer(p(grid(2), 0.1), np.ones(2))


def observation_known(prior, M, observation, rng):
    while True:
        fdd, y = observation(M)
        if fdd.p in prior.ps:
            return fdd, y


def collect(key):
    return [a for step in program(key) for a in step]


def plain(a):
    """Something that JSON can handle."""
    return np.asarray(a).tolist() if isinstance(a, (np.ndarray, np.generic)) else a


def compare(ctx, got, want, name, **info):
    ctx.check(len(got) == len(want), "completed", mode=name, got=len(got), want=len(want))
    for t, (a, b) in enumerate(zip(got, want)):
        if isinstance(b, (str, int, list)) and not isinstance(b, np.ndarray):
            ctx.check(a == b, name, answer=t, got=a, want=b, **info)
        else:
            sc = max(1, np.abs(b).max(initial=0))
            ctx.close(a, b, name, 1e-9, sc, answer=t, **info)


def run(case, ctx):
    key = (case["seed"], case["i"])
    if case["kind"] == "elsewhere":
        return elsewhere(case, ctx)
    rng = gen.rng_of("C26", *key)
    keep = []
    want = [a for step in program(key, keep) for a in step]
    ctx.sig(key, [str(a)[:40] for a in want[:20]])
    # Once more.
    compare(ctx, collect(key), want, "repeated")
    del keep[:]
    # With reference counting only.
    gc.collect()
    gc.disable()
    try:
        compare(ctx, [a for s in program(key, event=ctx.event) for a in s], want, "freed")
    finally:
        gc.enable()
    # With collection at every step and allocations in between.
    got, trash = [], []
    for s in program(key, event=ctx.event):
        got += s
        gc.collect()
        trash.append([object() for _ in range(int(rng.integers(200)))])
        if rng.random() < 0.5:
            trash.clear()
    compare(ctx, got, want, "collected")
    # Interleaved.
    others = [(case["seed"], 10000 + case["i"]), key][: int(rng.integers(1, 3))]
    wants = [want] + [want if o == key else collect(o) for o in others]
    runs = [program(k) for k in [key] + others]
    gots = [[] for _ in runs]
    alive = list(range(len(runs)))
    last = None
    while alive:
        i = alive[rng.integers(len(alive))]
        ctx.event("switch", int(i != last))
        last = i
        try:
            gots[i] += next(runs[i])
        except StopIteration:
            alive.remove(i)
    for a, b in zip(gots, wants):
        compare(ctx, a, b, "interleaved")
    if case["i"] < 4:
        ctx.sample = {"program": str(key), "answers": [str(a)[:80] for a in want[:12]]}


def elsewhere(case, ctx):
    """Other interpreters with other hash seeds."""
    keys = [(case["seed"], 100 * case["i"] + j) for j in range(8)]
    wants = [collect(k) for k in keys]
    root = str(Path(__file__).resolve().parent.parent.parent)
    for h in ("1", "4242"):
        r = subprocess.run(
            [sys.executable, "-W", "ignore", "-m", "mon.checks.c26", json.dumps(keys)],
            cwd=root, env={**os.environ, "PYTHONHASHSEED": h, "PYTHONDONTWRITEBYTECODE": "1"},
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
        if not ctx.check(r.returncode == 0, "completed", mode="other interpreter",
                         error=r.stderr[-1500:]):
            continue
        gots = json.loads(r.stdout.splitlines()[-1])
        for got, want in zip(gots, wants):
            got = [g if isinstance(w, (str, int, list)) else np.array(g)
                   for g, w in zip(got, want)]
            compare(ctx, got, want, "other interpreter", hash_seed=h)
    ctx.sig("elsewhere", case["i"])


if __name__ == "__main__":
    sys.path.insert(0, str(Path(__file__).resolve().parent.parent.parent))
    from mon import repo

    repo.setup()
    print(json.dumps([[plain(a) for a in collect(tuple(k))] for k in json.loads(sys.argv[1])]))
