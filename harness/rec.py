"""Recording of API sessions of the real code: values as exact small-integer limbs, one event per call."""
import json
import signal
import warnings
import numpy as np


def limbs(x):
    """Flat list hi, lo, e with x = (hi * 2^27 + lo) * 2^e (non finite: 2^5000 * 2^27)."""
    x = np.asarray(x, dtype=float).ravel()
    fin = np.isfinite(x)
    m, e = np.frexp(np.where(fin, x, 0.0))
    m = np.ldexp(m, 53).astype(np.int64)
    e = e.astype(np.int64) - 53
    hi = m >> 27
    lo = m - (hi << 27)
    z = m == 0
    e[z] = 0
    out = np.stack([hi, lo, e], axis=1)
    out[~fin] = [1, 0, 5000]
    return out.ravel().tolist()


NONE = {"sh": [-1], "ty": "o", "d": [], "i": []}


def enc(x):
    """Array record of a value."""
    if x is None:
        return NONE
    try:
        a = np.asarray(x)
        if a.dtype.kind == "c":
            return {"sh": list(a.shape), "ty": "c", "d": limbs(a.real), "i": limbs(a.imag)}
        if a.dtype.kind in "fiub":
            return {"sh": list(a.shape), "ty": {"f": "f"}.get(a.dtype.kind, "i"), "d": limbs(a), "i": []}
    except Exception:
        pass
    return NONE


class Hang(Exception):
    pass


class TooManyHangs(BaseException):
    """Several calls did not come back: the sessions recorded so far are enough."""


hangs = 0


def _alarm(*_):
    raise Hang()


def call(f, *args, timeout=60, **kw):
    """(exception name or "", value, was a DeprecationWarning issued)"""
    global hangs
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                return "", f(*args, **kw), any(issubclass(x.category, DeprecationWarning) for x in w)
            except Hang:
                hangs += 1
                if hangs > 3: raise TooManyHangs()
                return "Hang", None, False
            except Exception as e:
                return type(e).__name__, None, any(issubclass(x.category, DeprecationWarning) for x in w)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Session:
    """One recorded session (a trace)."""

    def __init__(self, name):
        self.name, self.ev, self.nh = name, [], 0

    def add(self, op, a, r, h=0):
        self.ev.append({"op": op, "h": h, "a": a, "r": r})

    def new(self, op, a, r):
        """An event that creates an object: its handle is the rank of the creation."""
        self.nh += 1
        self.add(op, a, r, self.nh)
        return self.nh

    def dump(self):
        return json.dumps({"id": self.name, "ev": self.ev}, separators=(",", ":"))
