"""What one case of a check reports back."""
import hashlib, json

def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()

class Rec:
    """Counters and violations of one case.

    state(x): a distinct observed state (deduplicated per case by repr);
    step(): one operation executed on the real code;
    trace(): one complete history executed on the real code and compared with the reference;
    check(cond, key, msg): one oracle evaluation; a false condition is a violation.
    """
    MAXV = 400

    def __init__(self, case=None):
        self.case = case
        self._states = set()
        self.steps = 0
        self.traces = 0
        self.evals = 0
        self.nontrivial = 0
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.caps = []

    def state(self, x):
        h = digest(x)
        new = h not in self._states
        self._states.add(h)
        return new

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def nontriv(self, n=1):
        self.nontrivial += n

    def check(self, cond, key, msg="", **data):
        self.evals += 1
        if not cond:
            self.violate(key, msg, **data)
        return bool(cond)

    def violate(self, key, msg="", **data):
        self.nviol += 1
        if len(self.violations) < self.MAXV and not any(v["key"] == key for v in self.violations):
            self.violations.append(dict(key=key, msg=str(msg)[:2000], data=data))

    def close(self, a, b, key, msg="", rtol=1e-9, atol=1e-9, **data):
        """Arrays equal up to rounding (scaled by the larger of 1 and max|b|)."""
        import numpy as np
        a = np.asarray(a); b = np.asarray(b)
        self.evals += 1
        if a.shape != b.shape:
            self.violate(key, f"{msg} shape {a.shape} != {b.shape}", **data)
            return False
        if a.size == 0:
            return True
        with np.errstate(all="ignore"):
            err = np.abs(a - b)
            m = float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 1.0
            bad = not np.all(np.isfinite(err)) or float(np.max(err)) > atol + rtol * max(m, 0.0)
        if bad:
            i = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(err), err, np.inf))), a.shape)
            self.violate(key, f"{msg} max error {float(np.max(err)):.3g} at {tuple(int(k) for k in i)}: got {a[i]!r}, expected {b[i]!r}", **data)
            return False
        return True

    def dump(self):
        return dict(states=len(self._states), steps=self.steps, traces=self.traces, evals=self.evals,
                    nontrivial=self.nontrivial, violations=self.violations, nviol=self.nviol,
                    samples=self.samples, caps=self.caps)
