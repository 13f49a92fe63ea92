"""Sessions on the Fejer rule (C12) and sparse interpolation (C13)."""
import math
import numpy as np
from ..rec import Session, call, enc
from .kinds import retyped


def c12(rng, deep):
    from qmat.lagrange import computeFejerRule
    sizes = list(range(1, 111)) + [127, 128, 129, 150, 200, 255, 256, 257, 300, 511, 512, 1000, 1001, 2048, 4096] + (list(range(130, 300)) + [3001, 8191, 20001] if deep else [])
    yield from many(rng, deep)
    sizes = [int(n) for n in rng.permutation(sizes)]
    for k in range(0, len(sizes), 4):
        s = Session(f"c12.{k}")
        for n in sizes[k:k + 4] + [m for m in sizes[k:k + 2] if m < 300]:
            exc, v, _ = call(computeFejerRule, n)
            v = v if isinstance(v, tuple) and len(v) == 2 else (None, None)
            s.add("fejer", {"n": n}, {"exc": exc, "x": enc(v[0]), "w": enc(v[1])})
            # the caller does what he wants with the arrays
            for a in v:
                if isinstance(a, np.ndarray) and a.flags.writeable: a[...] = 3.5
        yield s


def many(rng, deep):
    """Very many points: moments for degrees of all sizes."""
    from qmat.lagrange import computeFejerRule
    s = Session("c12.many")
    for n in [20000, 33000, 50000, 70001] + ([131072, 300001] if deep else []):
        n += int(rng.integers(0, 40))
        exc, v, _ = call(computeFejerRule, n)
        v = [np.asarray(a, dtype=float).ravel() for a in v] if isinstance(v, tuple) and len(v) == 2 else [np.zeros(0)] * 2
        x, w = v
        at = [0, 1, 2, n // 2, n // 2 - 1, n - 2, n - 1] + [int(i) for i in rng.integers(0, n, 12)]
        deg = [0, 1, 2, 3, 4, 10, n - 1, n - 2, n - 3, n // 2, n // 2 + 1] + [2 * int(i) for i in rng.integers(0, n // 2, 20)]
        deg += [2 ** p + d for p in range(7, 19) for d in (-2, 2) if 2 ** p + d < n]
        ok = x.size == n and w.size == n
        def moment(k):
            a = (2 * np.arange(n, dtype=np.int64)[::-1] + 1) * k % (4 * n)
            return math.fsum(w * np.cos(np.pi * (a / (2 * n))))
        s.add("fejer.many", {"n": n, "at": at, "deg": deg},
              {"exc": exc, "sh": [x.size, w.size], "x": enc(x[at] if ok else np.zeros(0)), "m": enc(np.array([moment(k) for k in deg] if ok else [])),
               "increasing": bool(ok and (np.diff(x) > 0).all()), "positive": bool(ok and (w > 0).all()),
               "asym": enc(np.array([max(np.max(np.abs(x + x[::-1])), np.max(np.abs(w - w[::-1]))) if ok else 1.0]))})
    yield s


def sparse(s, xin, xout, p, period=-1):
    from qmat.lagrange import getSparseInterpolationMatrix
    xin, xout = np.array(xin, dtype=float), np.array(xout, dtype=float)
    a, b = xin.copy(), xout.copy()
    whole = lambda x: np.all(x == np.round(x)) and np.max(np.abs(x), initial=0) < 2**31
    if len(s.ev) % 3 == 1 and whole(a): a = a.astype(int)
    if len(s.ev) % 3 != 0 and whole(b): b = b.astype(int)
    if len(s.ev) % 3 == 2:
        k = len(s.ev) // 3 + int(p) + len(a) + (int(abs(a[0])) if whole(a) else 0)
        a, b = retyped(a, k), retyped(b, k if len(a) % 2 else k + 1)
    if len(s.ev) % 4 == 2: b = b.tolist()
    if period == round(period) and len(s.ev) % 2: period = int(period)
    if period != -1: exc, v, _ = call(getSparseInterpolationMatrix, a, b, p, gridPeriod=period) if len(s.ev) % 5 else call(getSparseInterpolationMatrix, a, b, p, period)
    elif len(s.ev) % 5 == 0: exc, v, _ = call(getSparseInterpolationMatrix, inPoints=a, outPoints=b, order=int(p), gridPeriod=[-1, 0, -2.5][len(s.ev) % 3])
    else: exc, v, _ = call(getSparseInterpolationMatrix, a, b, p)
    try:
        v = None if v is None else v.toarray()
    except AttributeError:
        v = np.asarray(v)
    s.add("sparse", {"xin": enc(xin), "xout": enc(xout), "p": int(p), "period": enc(float(period))},
          {"exc": exc, "v": enc(v)})


def c13(rng, deep):
    for rep in range(90 if deep else 24):
        s = Session(f"c13.{rep}")
        n = int(rng.integers(1, 15))
        scale = 10.0 ** rng.integers(-9, 7)
        off = scale * rng.choice([0, 0, 1, -5, 20])
        uni = np.arange(n) * 1.0
        irr = np.cumsum(rng.uniform(0.4, 1.6, n))
        per = np.cumsum(1 + 10.0 ** -rng.integers(3, 13, n) * rng.uniform(-1, 1, n))     # nearly uniform
        for grid in [uni, irr, per]:
            h = scale
            xin = grid * h + off
            lo, hi = xin[0], xin[-1]
            outs = [rng.uniform(lo - h, hi + h, 6), xin[rng.integers(0, n, 4)],
                    (xin[:-1] + xin[1:]) / 2 if n > 1 else xin,
                    xin + 0.25 * h, lo + h * np.arange(0, n + 1) * 0.75]
            for out in outs:
                sparse(s, xin, out, rng.integers(1, min(n, 7) + 1))
            sparse(s, xin, outs[0], n + 1)
            sparse(s, xin, outs[2][:4], n if n < 9 else 3)
        yield s
        # whole numbers
        s = Session(f"c13.whole.{rep}")
        for k in range(5):
            xin = np.sort(rng.permutation(60 if rep % 2 else 3 * n)[:n]) * 1.0 - [0, 0, 30, 100][int(rng.integers(0, 4))]
            out = rng.integers(xin[0] - 2, xin[-1] + 3, 5) * 1.0
            sparse(s, xin, out, rng.integers(1, min(n, 6) + 1), *([float(np.ptp(xin) + rng.integers(1, 4))] if k > 2 else []))
        yield s
        # periodic grids inside one period, outputs anywhere
        s = Session(f"c13.periodic.{rep}")
        P = float(rng.choice([1.0, 2 * np.pi, 3.0, 0.37, 100.0]))
        grids = [np.arange(n) * P / n, np.sort(rng.permutation(np.arange(3 * n))[:n]) * P / (3 * n),
                 P * (np.cumsum(rng.uniform(0.4, 1.6, n)) - 0.3) / (1.8 * n)]
        # points gathered in a part of the period: the closest ones are often images of the same side
        gath = np.sort(P * (rng.uniform(0, 0.7) + 0.28 * (np.arange(n) + rng.uniform(0.1, 0.9, n)) / n))
        for out in [np.array([0.0, 0.02, 0.97, 0.5]) * P, gath[[0, -1, n // 2]] + P * rng.uniform(-0.3, 0.3, 3)]:
            sparse(s, gath, out, rng.integers((n + 1) // 2, min(n, 8) + 1) if n < 15 and (n + 1) // 2 <= 8 else 3, P)
        # one or two points, then a gap of more than half a period
        for _ in range(3 if n > 2 else 0):
            m = int(rng.integers(1, 3))
            apart = np.concatenate([np.arange(m) * 0.03, 0.55 + 0.4 * (np.arange(n - m) + rng.uniform(0.1, 0.9, n - m)) / n])
            if rng.integers(0, 2): apart = np.sort(0.98 - apart)
            apart = P * (apart + rng.choice([0.0, 0.0, -0.4, 3.25]))
            for out in [apart[0] + P * rng.uniform(-0.1, 0.3, 3), apart[-1] + P * rng.uniform(-0.3, 0.1, 3)]:
                sparse(s, apart, out, rng.integers(n // 2 + 1, min(n, 9) + 1), P)
        # grids much smaller than the period
        if n > 1:
            small = np.cumsum(rng.uniform(0.4, 1.6, n)) * P / n * 10.0 ** -int(rng.integers(1, 10)) + P * rng.choice([0.0, 0.0, 0.5, -1.5, 2.25])
            near = small[rng.integers(0, n, 4)] + np.ptp(small) * rng.uniform(-0.2, 0.3, 4)
            for out in [near, near + P * rng.integers(-3, 4, 4)]:
                sparse(s, small, out, rng.integers(1, min(n, 4) + 1), P)
        # grids that cover the whole period: the last point is the image of the first one
        a = P * rng.choice([0.0, 0.1, 1 / 3, -0.5, 0.77, 5.3, -2.6])
        for full in [a + P * np.arange(n + 1) / n, np.append(a + P * (np.cumsum(rng.uniform(0.4, 1.6, n)) - 0.4) / (1.8 * n), a + P)]:
            full[0] = a
            for out in [rng.uniform(a, a + P, 4), a + P * (rng.uniform(-0.2, 0.2, 3) / n + rng.integers(-2, 3, 3)), full[[0, -1]]]:
                sparse(s, full, out, rng.integers(1, min(n, 6) + 1), P)
        # the same grids in another period, or across several of them
        if rep % 2:
            o = float(rng.choice([-0.5, 0.37, 1.0, -3.0, 5.25, 40.0]))
            grids = [g + o * P for g in grids]
        for xin in grids:
            outs = [rng.uniform(0, P, 5), rng.uniform(-3 * P, 4 * P, 5), xin[rng.integers(0, n, 3)] + P * rng.integers(-2, 3),
                    xin + 0.3 * P / n, np.array([0.0, P, -P, P / 2, 7.25 * P, -0.001 * P, 0.999 * P])]
            for out in outs:
                sparse(s, xin, out, rng.integers(1, min(n, 6) + 1), P)
            if n < 8: sparse(s, xin, outs[1], n, P)
        yield s
