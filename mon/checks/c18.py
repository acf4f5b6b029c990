"""C18: lazy tensors resolve by stored values, then rules."""
import numpy as np

from mon import gen

RULE = (
    "One case is a history of up to 80 operations (store, add rule, grow the set that a rule "
    "was given, look up, failing and recursive builders) on a lazy vector and a lazy matrix, "
    "with indices that are objects that all compare equal, objects that cannot be hashed, "
    "arrays, and integers. An automaton decides which value every look-up must give and which "
    "builder calls it must cause; the log of builder calls is compared. Distinct by history."
)
ASSUMPTIONS = ["indices stay alive (they are identified by identity)"]
REQUIRED = {
    "judged:vector": 2000, "judged:matrix": 4000, "judged:rejected": 500,
    "judged:builder calls": 6000, "hit:store": 500, "hit:cache": 500, "hit:universal": 300,
    "hit:left": 300, "hit:right": 300, "ambiguous": 200, "judged:failing builder": 100,
    "falsy value": 100, "override": 100, "recursive": 60, "set grown": 200, "many elements": 40,
}


def cases(tier, seed):
    n = 2400 if tier == "quick" else 40000
    return [{"seed": seed, "i": i, "long": i % 60 == 0} for i in range(n)]


class Same:
    """All are equal."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Unhashable:
    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError("Compared indices.")


class Fail(Exception):
    pass


def run(case, ctx):
    from stheno.lazy import LazyMatrix, LazyVector

    rng = gen.rng_of("C18", case["seed"], case["i"])
    keys = []
    for _ in range(int(rng.integers(20, 60) if case["long"] else rng.integers(2, 7))):
        k = rng.integers(4)
        keys.append([Same, Unhashable, lambda: np.zeros(2), object][k]())
    if rng.random() < 0.5:
        keys += [1, 2]
    res = lambda k: k if isinstance(k, int) else id(k)
    name = {res(k): i for i, k in enumerate(keys)}
    calls, expected_calls = [], []
    token = iter(range(10**6))
    falsy = [None, 0, False, (), "", 0.0]

    def value():
        if rng.random() < 0.1:
            ctx.event("falsy value")
            return falsy[rng.integers(len(falsy))]
        return ("v", next(token))

    for kind in ("vector", "matrix"):
        t = LazyVector() if kind == "vector" else LazyMatrix()
        mat = kind == "matrix"
        store, cache, rules = {}, set(), []  # Rules: kind, fixed, domain, outcome, label.
        live_sets = []
        hist = []

        def lookup(idx):
            """What the automaton says: outcome and call."""
            if idx in store:
                ctx.event("hit:cache" if idx in cache else "hit:store")
                return ("value", store[idx]), None
            apps = []
            for which in ("universal", "left", "right"):
                for r in rules:
                    if r["kind"] != which:
                        continue
                    if which == "universal":
                        ok, args = all(i in r["domain"] for i in idx), idx
                    elif which == "left":
                        ok, args = idx[0] == r["fixed"] and idx[1] in r["domain"], idx[1:]
                    else:
                        ok, args = idx[1] == r["fixed"] and idx[0] in r["domain"], idx[:1]
                    if ok:
                        apps.append((r, args))
            if not apps:
                return ("error", None), None
            if len(apps) > 1:
                ctx.event("ambiguous")
            r, args = apps[0]
            ctx.event("hit:" + r["kind"])
            return ("rule", r), args

        def make_rule(which, fixed):
            dom = {res(keys[i]) for i in range(len(keys)) if rng.random() < 0.55}
            r = {"kind": which, "fixed": fixed, "domain": frozenset(dom),
                 "label": f"r{next(token)}", "fail": 0, "rec": None, "values": {}}
            if rng.random() < 0.15:
                r["fail"] = int(rng.integers(1, 3))
            elif rng.random() < 0.15 and store:
                # Depends on an element that is stored already.
                r["rec"] = list(store)[int(rng.integers(len(store)))]
                ctx.event("recursive")
            left = [r["fail"]]

            def builder(*args):
                calls.append((r["label"], args))
                if left[0] > 0:
                    left[0] -= 1
                    raise Fail(r["label"])
                if r["rec"] is not None:
                    inner = t[tuple(r["rec"])] if mat else t[r["rec"][0]]
                    r["values"][args] = ("rec", inner)
                else:
                    r["values"][args] = value()
                return r["values"][args]

            arg = set(dom)
            if which == "universal":
                t.add_rule(arg, builder)
            elif which == "left":
                t.add_left_rule(fixed, arg, builder)
            else:
                t.add_right_rule(fixed, arg, builder)
            rules.append(r)
            live_sets.append(arg)
            hist.append(("rule", which, name.get(fixed), sorted(name[d] for d in dom),
                         bool(r["fail"]), r["rec"] is not None))

        for step in range(int(rng.integers(800, 2500) if case["long"]
                              else rng.integers(10, 80))):
            op = rng.random()
            if case["long"] and step > 60 and op < 0.3 and rng.random() < 0.7:
                # Mostly look up, also what was looked up long ago.
                op = 1
            a, b = (keys[i] for i in rng.integers(len(keys), size=2))
            if op < 0.12:
                v = value()
                if mat:
                    form = rng.integers(2)
                    if form == 0:
                        t[a], idx = v, (res(a), res(a))
                    else:
                        t[a, b], idx = v, (res(a), res(b))
                else:
                    t[a], idx = v, (res(a),)
                if idx in store:
                    ctx.event("override")
                store[idx] = v
                cache.discard(idx)
                hist.append(("store", [name[i] for i in idx]))
            elif op < 0.3:
                which = ["universal", "left", "right"][rng.integers(3)] if mat else "universal"
                make_rule(which, res(a))
            elif op < 0.38 and live_sets:
                # The domain of a rule is what it was when the rule was added.
                s = live_sets[int(rng.integers(len(live_sets)))]
                if rng.random() < 0.7:
                    s.add(res(a))
                else:
                    s.discard(res(a))
                ctx.event("set grown")
                hist.append(("grow", name[res(a)]))
            else:
                if mat:
                    if rng.random() < 0.25:
                        idx, get = (res(a), res(a)), (lambda: t[a])
                    elif rng.random() < 0.15:
                        # `reversed` of a tuple.
                        idx, get = (res(b), res(a)), (lambda: t[tuple(reversed((a, b)))])
                    else:
                        idx, get = (res(a), res(b)), (lambda: t[a, b])
                else:
                    idx, get = (res(a),), (lambda: t[a])
                calls.clear()
                want, args = lookup(idx)
                hist.append(("get", [name[i] for i in idx], want[0]))
                info = dict(index=[name[i] for i in idx], history=hist[-25:])
                exp = []
                if want[0] == "value":
                    got = get()
                    ctx.check(got is want[1], kind, got=got, want=want[1], **info)
                elif want[0] == "error":
                    ctx.raises(get, "rejected", **info)
                else:
                    r = want[1]
                    exp = [(r["label"], args)]
                    if r["fail"] > 0:
                        r["fail"] -= 1
                        ctx.raises(get, "failing builder", Fail, **info)
                    else:
                        got = get()
                        if ctx.check(args in r["values"] and got is r["values"][args], kind,
                                     got=got, rule=r["label"], calls=list(calls), **info):
                            if r["rec"] is not None:
                                ctx.check(got[1] is store[r["rec"]], kind, what="recursive",
                                          **info)
                            store[idx] = got
                            cache.add(idx)
                # Recursive look-ups find a stored element: they cause no further calls.
                ctx.check(calls == exp, "builder calls", calls=list(calls), want=exp, **info)
            if len(ctx.violations) > 3:
                return
        if len(store) > 200:
            ctx.event("many elements")
        ctx.sig(kind, hist[:100])
    if case["i"] < 3:
        ctx.sample = {"history": hist[:40]}
