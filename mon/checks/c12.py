"""C12: the default measure follows the nesting of contexts."""
import numpy as np

from mon import gen
from mon.core import dense

RULE = (
    "One case is a random tree of nested `with measure:` blocks over 1-4 measures (with "
    "re-entry of measures that are already active, in any position), whose bodies construct "
    "processes with and without an explicit measure, derive, condition, sample, call functions "
    "that enter contexts themselves, and leave normally, by an exception, by a return, or by "
    "closing a generator; a stack is the model. Distinct by trace."
)
ASSUMPTIONS = ["contexts are left in the reverse order of being entered; one thread"]
REQUIRED = {
    "judged:default": 500, "judged:measure of process": 500, "judged:fresh measure": 100,
    "judged:members": 200, "left by exception": 50, "left by return": 50,
    "re-entered": 100, "judged:explicit measure": 100, "left by generator": 30,
}


class Boom(Exception):
    pass


def cases(tier, seed):
    n = 3000 if tier == "quick" else 20000
    return [{"seed": seed, "i": i} for i in range(n)]


def run(case, ctx):
    import stheno as st

    rng = gen.rng_of("C12", case["seed"], case["i"])
    ms = [st.Measure() for _ in range(int(rng.integers(1, 5)))]
    members = {id(m): [] for m in ms}
    stack, trace, keep = [], [], []
    choice = lambda xs: xs[rng.integers(len(xs))]
    budget = [40]

    def note(*a):
        trace.append(" ".join(map(str, a)))
        ctx.log(*a)

    def check_default(where):
        want = stack[-1] if stack else None
        ctx.check(st.Measure.default is want, "default", where=where,
                  depth=len(stack), want=None if want is None else ms.index(want),
                  got=st.Measure.default)

    def act():
        kind = choice(["gp", "gp", "explicit", "derive", "condition", "sample", "copy",
                       "construct"])
        v = float(np.round(rng.uniform(0.5, 2), 2))
        if kind == "gp":
            form = rng.integers(3)
            p = [lambda: st.GP(v * st.EQ()), lambda: st.GP(1, v * st.EQ()),
                 lambda: st.GP(lambda x: x, v * st.EQ())][form]()
            if stack:
                ctx.check(p.measure is stack[-1], "measure of process", depth=len(stack))
                members[id(stack[-1])].append(p)
            else:
                new = p.measure
                ctx.check(not any(new is m for m in ms + keep), "fresh measure")
                ctx.check(len(new.ps) == 1 and new.ps[0] is p, "fresh measure")
                keep.append(new)
            note("gp", len(stack))
        elif kind == "explicit":
            m = choice(ms)
            p = st.GP(v * st.EQ(), measure=m)
            ctx.check(p.measure is m, "explicit measure", depth=len(stack))
            members[id(m)].append(p)
            note("explicit", ms.index(m))
        elif kind == "construct":
            # Constructing a measure does not make it the default.
            keep.append(st.Measure())
        else:
            m = choice(ms)
            if not members[id(m)]:
                return
            p = choice(members[id(m)])
            if kind == "derive":
                q = choice([lambda: 2 * p, lambda: p + 1, lambda: p + p, lambda: -p,
                            lambda: p.stretch(2), lambda: p.shift(1)])()
                ctx.check(q.measure is m, "measure of process", op="derive")
                members[id(m)].append(q)
            elif kind == "copy":
                q = m(p)
                ctx.check(q.measure is m, "measure of process", op="copy")
                members[id(m)].append(q)
            elif kind == "condition":
                post = m | (p(0.5, 1.0), v)
                ctx.check(not any(post is z for z in ms), "fresh measure")
                q = post(p)
                ctx.check(q.measure is post, "measure of process", op="condition")
                g = p | (p(0.5, 1.0), v)
                ctx.check(not any(g.measure is z for z in ms), "fresh measure")
                # The process now also lives in the posterior, but was constructed here.
                ctx.check(p.measure is m, "measure of process", op="condition")
            else:
                m.sample(p(0.5, 1.0))
            note(kind, ms.index(m))

    def body(depth):
        for _ in range(int(rng.integers(1, 4))):
            if budget[0] <= 0:
                return
            budget[0] -= 1
            if depth < 5 and rng.random() < 0.55:
                enter(depth)
            else:
                act()
            check_default("body")

    def enter(depth):
        m = choice(ms)
        if any(m is s for s in stack):
            ctx.event("re-entered")
        how = choice(["normal", "exception", "return", "generator", "many", "error"])
        note("enter", ms.index(m), how)

        def inside():
            stack.append(m)
            check_default("entered")
            body(depth + 1)

        if how == "normal":
            with m as got:
                ctx.check(got is m, "default", where="as")
                inside()
            stack.pop()
        elif how == "many":
            k = choice(ms)
            with m, k:
                stack.append(m)
                stack.append(k)
                check_default("entered two")
                body(depth + 2)
            stack.pop()
            stack.pop()
        elif how in ("exception", "error"):
            try:
                with m:
                    inside()
                    if how == "exception":
                        raise Boom
                    # An operation of the library that fails.
                    st.GP(st.EQ(), measure=m).select(0, name="no such argument")
            except Boom:
                ctx.event("left by exception")
            except TypeError:
                ctx.event("left by exception")
                members[id(m)].append(m.ps[-1])
            stack.pop()
        elif how == "return":
            def f():
                with m:
                    inside()
                    return 1

            f()
            ctx.event("left by return")
            stack.pop()
        else:
            def g():
                with m:
                    yield 1

            it = g()
            next(it)
            inside()
            it.close()
            ctx.event("left by generator")
            stack.pop()
        note("exit")
        check_default("left")

    check_default("start")
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < 0.7:
            enter(0)
        act()
        check_default("top")
    for i, m in enumerate(ms):
        # Sampling can add auxiliary processes.
        got = [p for p in m.ps if any(p is q for z in ms for q in members[id(z)])]
        want = members[id(m)]
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                  "members", measure=i, n=len(got), want=len(want))
    ctx.check(st.Measure.default is None, "default", where="end")
    st.Measure.default = None
    ctx.sig(trace)
    if case["i"] < 5:
        ctx.sample = {"trace": trace}
