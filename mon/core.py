"""Verdict bookkeeping shared by all monitors."""
import hashlib
import json
import traceback
from collections import Counter

import numpy as np


def dense(x):
    """Strip the structure off anything the code under test can return. Independent of
    the numerical path: only reads the values."""
    import lab as B
    from matrix import AbstractMatrix

    if isinstance(x, AbstractMatrix):
        x = B.dense(x)
    if hasattr(x, "detach"):
        x = x.detach().numpy()
    x = np.asarray(x)
    if x.dtype == object:
        raise TypeError("Value is an array of objects.")
    return x


class Skip(Exception):
    """The case is outside of the property's domain (for example, ill-conditioned)."""


class Inconclusive(Exception):
    """The monitor could not decide."""


class Violation(Exception):
    """Abort the case: a violation was recorded."""


class Ctx:
    """Everything observed in one case."""

    def __init__(self, case):
        self.case = case
        self.events = Counter()
        self.sigs = set()
        self.violations = []
        self.findings = []
        self.sample = None
        self.max_err = 0.0
        self.skipped = 0
        self.trace = []

    # Observation.

    def event(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        s = json.dumps(parts, default=str, sort_keys=True)
        self.sigs.add(hashlib.sha1(s.encode()).hexdigest()[:16])

    def log(self, *parts):
        self.trace.append(" ".join(str(p) for p in parts))

    # Verdicts.

    def violate(self, name, **info):
        self.violations.append(
            {
                "monitor": name,
                "case": self.case,
                "info": {k: _short(v) for k, v in info.items()},
                "trace": list(self.trace[-60:]),
            }
        )

    def finding(self, key, text):
        self.findings.append((key, text))

    def check(self, cond, name, **info):
        self.events["judged:" + name] += 1
        if not cond:
            self.violate(name, **info)
        return bool(cond)

    def close(self, actual, expected, name, tol=1e-7, scale=None, shape=True, **info):
        """Check that `actual` equals `expected` up to `tol * scale`, where `scale`
        defaults to the magnitude of `expected` (at least one)."""
        self.events["judged:" + name] += 1
        try:
            a = dense(actual)
        except Exception as e:
            self.violate(name, problem=f"not a numerical value: {e!r}", **info)
            return False
        e = np.asarray(expected)
        if shape and a.shape != e.shape:
            self.violate(name, problem=f"shape {a.shape} != {e.shape}", **info)
            return False
        if a.size == 0 and e.size == 0:
            return True
        try:
            a, e = np.broadcast_arrays(
                a.astype(np.complex128 if np.iscomplexobj(a) else float), e
            )
        except ValueError:
            self.violate(name, problem=f"shape {a.shape} != {e.shape}", **info)
            return False
        if not np.array_equal(np.isnan(a), np.isnan(e)):
            self.violate(name, problem="NaNs differ", actual=a, expected=e, **info)
            return False
        ok = ~np.isnan(e)
        if not ok.any():
            return True
        inf = np.isinf(e)
        if not np.array_equal(a[inf], e[inf]) or np.isinf(a[~inf]).any():
            self.violate(name, problem="infs differ", actual=a, expected=e, **info)
            return False
        ok &= ~inf
        if not ok.any():
            return True
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(e[ok]))))
        err = float(np.max(np.abs(a[ok] - e[ok]))) / scale
        self.max_err = max(self.max_err, err / tol)
        if err > tol:
            self.violate(
                name, problem=f"error {err:.3g} > {tol:.3g}", actual=a, expected=e, **info
            )
            return False
        return True

    def raises(self, f, name, excs=Exception, **info):
        """Check that `f()` is rejected with an exception."""
        self.events["judged:" + name] += 1
        try:
            res = f()
        except excs:
            return True
        except Exception as e:
            self.violate(name, problem=f"wrong exception {e!r}", **info)
            return False
        self.violate(name, problem="accepted", result=res, **info)
        return False


def _short(v):
    try:
        if isinstance(v, np.ndarray):
            s = np.array2string(v, precision=6, threshold=60)
        else:
            s = str(v)
    except Exception as e:
        s = f"<unprintable {e!r}>"
    return s if len(s) < 1200 else s[:1200] + "..."


def format_exc():
    return traceback.format_exc()[-3000:]
