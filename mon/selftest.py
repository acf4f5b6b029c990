"""Smoke test of the machinery itself."""
import importlib
from pathlib import Path

import numpy as np


def main():
    from mon import repo

    repo.setup()
    from mon.core import Ctx

    for path in sorted((Path(__file__).parent / "checks").glob("c*.py")):
        mod = importlib.import_module(f"mon.checks.{path.stem}")
        assert mod.RULE and mod.REQUIRED and mod.cases("quick", 1), path
    # The comparison must see every kind of difference.
    a = np.arange(6.0).reshape(3, 2)
    bad = [a + 1e-3, a.T, a[:2], np.where(a == 1, np.nan, a), np.where(a == 1, np.inf, a)]
    for b in bad:
        ctx = Ctx({})
        assert not ctx.close(b, a, "x") and ctx.violations
    ctx = Ctx({})
    assert ctx.close(a + 1e-12, a, "x") and not ctx.violations
    assert not ctx.raises(lambda: 1, "y")
    # The shadow model against a case computed by hand.
    from mon.ref import Base, ShadowExact, ShadowMeasure

    s = ShadowMeasure()
    s.define(1, Base(lambda X: np.ones(len(X)), lambda X, Y: X @ Y.T + 1))
    X = np.array([[2.0]])
    p = ShadowExact(s, [(1, X)], np.array([[5.0]]), np.array([3.0]))
    assert np.allclose(p.mean(1, X), 1 + 0.5 * 2)
    assert np.allclose(p.cov(1, X, 1, X), 5 - 2.5)
    print("machinery imports; oracles respond")


if __name__ == "__main__":
    main()
