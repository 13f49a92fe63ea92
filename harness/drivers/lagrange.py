"""Sessions on LagrangeApproximation objects (C07..C11)."""
import json
import os
import numpy as np
from ..rec import Session, call, enc, NONE
from .kinds import retyped

ALGS = ["AUTO", "FAST", "STABLE", "CHEBFUN"]


def point_sets(rng, sizes):
    """Distinct point sets of varied distribution, scale and offset (increasing)."""
    for n in sizes:
        kind = rng.integers(0, 7)
        if kind == 0:
            x = np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n))
        elif kind == 1:
            x = np.linspace(0, 1, n) if n > 1 else np.array([0.5])
        elif kind == 2:
            x = np.cumsum(rng.uniform(0.2, 1, n))
        elif kind == 3:
            x = (np.cos(np.pi * np.arange(n - 1, -1, -1) / (n - 1)) + 1) / 2 if n > 1 else np.array([1.0])
        elif kind == 4:
            x = np.sort(rng.choice(np.arange(-3 * n, 3 * n), n, replace=False)).astype(float)
        elif kind == 5:
            x = np.cumsum(rng.uniform(0.3, 1, n)) / n * 2 - 1
        else:
            x = np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n))
        yield x


def fast_range(pts):
    """The direct product formula is only claimed where no product over- or underflows."""
    x = np.unique(np.array(pts, dtype=float))
    d = np.log10(np.abs(x[:, None] - x[None, :]) + np.eye(len(x)))
    low, high = np.minimum(d, 0).sum(1).min(), np.maximum(d, 0).sum(1).max()
    return low > -290 and high < 290


def new(s, pts, alg="AUTO", scaled=False, ref="MAX", dup="USE_LEFT", fv=None, asList=False):
    from qmat.lagrange import LagrangeApproximation
    if alg == "FAST" and not fast_range(pts): alg = "AUTO"
    arg = list(map(float, pts)) if asList else np.array(pts)
    if s.nh % 3 == 2 and np.all(np.asarray(pts) == np.round(pts)) and np.max(np.abs(pts), initial=0) < 2**31:
        arg = [np.array(pts).astype(int), tuple(int(x) for x in pts)][len(s.ev) % 2]
    exc, o, _ = call(LagrangeApproximation, arg, weightComputation=alg, scaleWeights=scaled,
                     scaleRef=ref, duplicates=dup, fValues=fv)
    r = {"exc": exc}
    if o is not None:
        e2, cnt, _ = call(lambda: (int(o.nPoints), int(o.nUniquePoints), int(o.n), bool(o.hasDuplicates)))
        cnt = cnt if cnt else (-1, -1, -1, False)
        r.update(w=enc(getattr(o, "weights", None)), pts=enc(getattr(o, "points", None)),
                 upts=enc(getattr(o, "uniquePoints", None)),
                 nPoints=cnt[0], nUnique=cnt[1], n=cnt[2], hasDup=cnt[3])
    s.new("lag.new", {"pts": enc(np.array(pts, dtype=float)), "alg": alg, "scaled": bool(scaled), "ref": ref,
                      "dup": dup, "fv": enc(None if fv is None else np.asarray(fv, dtype=float) if np.asarray(fv).dtype.kind in "iuf" else fv)}, r)
    return (s.nh, o)


def whole(rng, k, n):
    """Lists of k times or intervals of whole numbers, around n points."""
    return rng.integers(0, [4, 3 * n, 100, 250][int(rng.integers(0, 4))], k) - rng.choice([0, 0, 0, 3, 120])


def styled(s, t):
    """The same numbers as an array, a list, a tuple, integers when they are, a strided view."""
    t = np.asarray(t)
    u = len(s.ev) % 6
    if u == 1: return t.tolist()
    if u == 2 and t.ndim == 1: return tuple(t.tolist())
    if u in (3, 4) and t.dtype.kind == "f": return retyped(t, len(s.ev) // 6 + 3 * s.nh)
    if u == 5 and t.ndim == 1: return np.repeat(t, 2)[::2]
    return np.array(t)


LAST = []           # the array the last call returned
PRE = {}            # {"pre": property} the matrices are asked for, when it is not their own


def interp(s, ho, t, dup=True):
    h, o = ho
    if o is None: return
    a = styled(s, t)
    exc, v, _ = call(o.getInterpolationMatrix, a) if dup and len(s.ev) % 2 else call(o.getInterpolationMatrix, a, duplicates=dup)
    LAST[:] = [v]
    s.add("lag.interp", {"t": enc(np.array(t, dtype=float)), "dup": dup, **PRE}, {"exc": exc, "v": enc(v)}, h)


def integ(s, ho, iv, rule="FEJER", dup=True):
    h, o = ho
    if o is None: return
    a = styled(s, iv) if len(s.ev) % 2 else [tuple(map(float, p)) for p in iv]
    if rule == "FEJER" and dup and len(s.ev) % 3: exc, v, _ = call(o.getIntegrationMatrix, a)
    else: exc, v, _ = call(o.getIntegrationMatrix, a, numQuad=rule, duplicates=dup)
    LAST[:] = [v]
    s.add("lag.integ", {"iv": enc(np.array(iv, dtype=float)), "rule": rule, "dup": dup, **PRE}, {"exc": exc, "v": enc(v)}, h)


def deriv(s, ho, order, dup=True, old=False):
    h, o = ho
    if o is None: return
    exc, v, warned = call(o.getDerivationMatrix if old else o.getDerivativeMatrix, order=order, duplicates=dup)
    v = list(v) if isinstance(v, tuple) else [v]
    LAST[:] = v
    s.add("lag.deriv", {"order": str(order), "dup": dup, "old": old, **PRE},
          {"exc": exc, "v": [enc(x) for x in v], "warned": warned}, h)


def evaluate(s, ho, t, fv=None):
    h, o = ho
    if o is None: return
    t = np.asarray(t, dtype=float)
    arg = float(t) if t.ndim == 0 else t
    u = len(s.ev) % 5
    if u == 1: arg = t.tolist()
    if u == 2: arg = np.asarray(t, order="F")
    given = fv
    if fv is not None and u == 3: given = np.asarray(fv).tolist()
    if fv is not None and u == 4 and np.asarray(fv).ndim == 1:
        # complex values: the real and imaginary parts are interpolated
        im = np.asarray(fv)[::-1] * 0.5
        exc, v, _ = call(o, arg, fValues=np.asarray(fv) + 1j * im)
        s.add("lag.call", {"t": enc(t), "fv": enc(im)}, {"exc": exc, "v": enc(None if v is None else np.imag(v))}, h)
        v = None if v is None else np.real(v)
    elif fv is not None: exc, v, _ = call(o, arg, given) if u else call(o, arg, fValues=given)
    else: exc, v, _ = call(o, arg)
    LAST[:] = [v]
    s.add("lag.call", {"t": enc(t), "fv": enc(fv)}, {"exc": exc, "v": enc(v)}, h)


def times_for(rng, x, k):
    """Times inside, at points, between, a bit outside, near-coincident."""
    lo, hi = x.min(), x.max()
    w = (hi - lo) or 1.0
    t = list(rng.uniform(lo, hi, k)) + [x[rng.integers(0, len(x))], lo, hi, (lo + hi) / 2]
    t += [lo - 0.1 * w * rng.uniform(), hi + 0.1 * w * rng.uniform()]
    t += [np.nextafter(x[rng.integers(0, len(x))], np.inf), x[rng.integers(0, len(x))] + 1e-9 * w]
    return np.array(t)


def transform(rng, x, wild=False):
    """Scale and offset."""
    s = rng.choice([1.0, 1.0, 0.5, 3.0, 1e-3, 1e3, 1e-8, 1e6, 1e13, 1e-13, 2.0**40]) if wild else rng.choice([1.0, 1.0, 2.0, 0.25])
    o = rng.choice([0.0, 0.0, -1.0, 0.3, 5.0]) * s
    return x * s + o


def large_points(rng, n, kind):
    """Hundreds of points: Chebyshev points of the first or second kind in [lo, hi], or equidistant ones."""
    if kind == 0: x = np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n))
    elif kind == 1: x = np.cos(np.pi * np.arange(n - 1, -1, -1) / (n - 1))
    else: x = np.linspace(-1, 1, n)
    lo, hi = [(-1.0, 1.0), (0.0, 1.0), (2.0, 5.0), (-1e-3, 1e-3)][int(rng.integers(0, 4))]
    x = lo + (hi - lo) * (x + 1) / 2
    if rng.integers(0, 3) == 0: x = rng.permutation(x)
    elif rng.integers(0, 3) == 0: x = x[::-1]
    return x, lo, hi


def some(rng, n, m):
    return sorted({1, n, *(int(v) for v in rng.integers(1, n + 1, m))})


def large(rng, sizes, what):
    from qmat.lagrange import LagrangeApproximation
    for n in sizes:
        for kind in ([0, 1, 2] if what == "W" else [int(rng.integers(0, 2))]):
            s = Session(f"large.{what}.{n}.{kind}")
            x, lo, hi = large_points(rng, n, kind)
            # equidistant points: the other algorithms and scalings are out of the range of doubles
            algs = ["AUTO", "STABLE"] if kind == 2 else ["AUTO", "STABLE", "CHEBFUN"]
            for alg in algs if what == "W" else [str(rng.choice(algs))]:
                ref = "ZERO" if kind < 2 and alg == "AUTO" and rng.integers(0, 2) else "MAX"
                scaled = bool(rng.integers(0, 2))
                exc, o, _ = call(LagrangeApproximation, x.copy(), weightComputation=alg, scaleWeights=scaled, scaleRef=ref)
                a = {"pts": enc(x), "js": some(rng, n, 8)}
                if what == "W":
                    s.add("lag.largeW", {**a, "alg": alg, "scaled": scaled}, {"exc": exc, "w": enc(None if o is None else o.weights)})
                elif what == "P":
                    t = np.concatenate([rng.uniform(lo, hi, 2), [x[int(rng.integers(0, n))]]])
                    if o is not None: exc, v, _ = call(o.getInterpolationMatrix, t)
                    s.add("lag.largeP", {**a, "t": enc(t)}, {"exc": exc, "v": enc(None if exc else v)})
                elif what == "D":
                    if o is not None: exc, v, _ = call(o.getDerivativeMatrix, "ALL")
                    rows = some(rng, n, 3)
                    get = lambda k: enc(None if exc else np.asarray(v[k])[[i - 1 for i in rows]])
                    s.add("lag.largeD", {**a, "is": rows}, {"exc": exc, "v1": get(0), "v2": get(1)})
                else:
                    iv = [tuple(rng.uniform(lo, hi, 2)), (lo, hi)]
                    rule = str(rng.choice(["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]))
                    if o is not None: exc, v, _ = call(o.getIntegrationMatrix, iv, rule)
                    s.add("lag.largeQ", {"pts": a["pts"], "lo": enc(np.array([lo])), "hi": enc(np.array([hi])), "iv": enc(np.array(iv))},
                          {"exc": exc, "v": enc(None if exc else v)})
            yield s


def c07(rng, deep):
    yield from large(rng, [150, 333, 700, 1100] + ([1600, 2100] if deep else []), "P")
    yield from edge(rng, deep, ALGS)
    sizes = [1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30, 45] + ([60, 80, 120] if deep else [])
    for rep in range(12 if deep else 4):
        for k, x in enumerate(point_sets(rng, sizes)):
            n = len(x)
            x = transform(rng, x, wild=True)
            if rng.uniform() < 0.3: x = rng.permutation(x)
            s = Session(f"c07.{rep}.{k}.n{n}")
            f = rng.normal(size=n)
            ho = new(s, x, alg=rng.choice(ALGS), scaled=bool(rng.integers(0, 2)), fv=f if rng.uniform() < .6 else None,
                     ref=rng.choice(["MAX", "ZERO"]), asList=bool(rng.integers(0, 2)))
            t = times_for(rng, x, 4)
            interp(s, ho, t)
            interp(s, ho, t[:1], dup=False)
            evaluate(s, ho, t[0])
            evaluate(s, ho, x[n // 2], rng.normal(size=n))
            if k % 3 == 0: evaluate(s, ho, t[:3], rng.integers(-5, 6, n))
            if k % 4 == 0: interp(s, ho, np.round(t[:4]))
            if k % 5 == 0: interp(s, ho, np.concatenate([t, rng.uniform(x.min(), x.max(), 40)]))
            evaluate(s, ho, t[:6].reshape(2, 3), rng.normal(size=n))
            evaluate(s, ho, t[:4])
            evaluate(s, ho, t[:8].reshape(2, 2, 2))
            evaluate(s, ho, t[:2], rng.normal(size=n + 1))
            interp(s, ho, t[::-1])
            yield s
    # whole numbers, in arrays of all types
    for k in range(60 if deep else 24):
        s = Session(f"c07.whole.{k}")
        x = np.arange(int(rng.integers(1, 7))) * [1.0, 7.0, 40.0][k % 3]
        fv = whole(rng, len(x), 3)
        ho = new(s, retyped(x, k // 2), fv=retyped(fv, k) if k % 3 else None)
        for rep in range(3):
            t = whole(rng, int(rng.integers(1, 5)), len(x))
            exc, v, _ = call(ho[1].getInterpolationMatrix, retyped(t, k + rep))
            s.add("lag.interp", {"t": enc(np.array(t, dtype=float)), "dup": True}, {"exc": exc, "v": enc(v)}, ho[0])
            given = whole(rng, len(x), 3) if rep or not k % 3 else None
            exc, v, _ = call(ho[1], retyped(t, k + 2 * rep), *([retyped(given, k // 3 + rep)] if given is not None else []))
            s.add("lag.call", {"t": enc(np.array(t, dtype=float)), "fv": enc(None if given is None else np.array(given, dtype=float))}, {"exc": exc, "v": enc(v)}, ho[0])
        yield s
    # many times
    for k, m in enumerate([70, 129, 300, 513, 1025] if deep else [70, 129, 300]):
        s = Session(f"c07.times.{m}")
        x = next(point_sets(rng, [int(rng.integers(2, 8))]))
        ho = new(s, x, fv=rng.normal(size=len(x)))
        t = rng.uniform(x.min(), x.max(), m)
        t[rng.integers(0, m, 3)] = x[0]
        interp(s, ho, t)
        evaluate(s, ho, t)
        yield s
    for k in range(6):
        s = Session(f"c07.fv.{k}")
        x = np.linspace(0, 1, 3 + k)
        new(s, x, fv=np.ones(2 + k))
        new(s, x, fv=np.ones((3 + k, 1)))
        ho = new(s, x)
        evaluate(s, ho, [0.5, 0.25])
        new(s, x, fv=list(rng.normal(size=3 + k)))
        yield s


def intervals_for(rng, x):
    lo, hi = x.min(), x.max()
    w = (hi - lo) or 1.0
    p = lambda: rng.uniform(lo, hi)
    iv = [(lo, x[rng.integers(0, len(x))]), (lo, hi), (hi, lo), (p(), p()), (p(), p()),
          (lo, lo), (lo - 0.2 * w, hi + 0.1 * w), (x[0], x[-1])]
    q = p()
    iv += [(q, q), (q, q + 1e-6 * w)]
    return iv


def c08(rng, deep):
    yield from large(rng, [150] + ([190, 220] if deep else []), "Q")
    yield from edge(rng, deep, ALGS)
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 21, 28] + ([40, 55] if deep else [])
    for rep in range(5 if deep else 3):
        for k, x in enumerate(point_sets(rng, sizes)):
            n = len(x)
            x = transform(rng, x, wild=True)
            if rng.uniform() < 0.3: x = rng.permutation(x)
            s = Session(f"c08.{rep}.{k}.n{n}")
            ho = new(s, x, alg=rng.choice(ALGS), ref=rng.choice(["MAX", "ZERO"]))
            iv = intervals_for(rng, x)
            for rule in ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]:
                integ(s, ho, iv, rule, dup=bool(rng.integers(0, 2)))
            integ(s, ho, iv[:1])
            integ(s, ho, [(np.round(x.min()), np.round(x.max()) + 1), (2, 1), (-1, -1)] if abs(x).max() < 10 and np.ptp(x) > 0.5 and n < 12 else iv[1:2])
            integ(s, ho, iv, rng.choice(["GAUSS", "fejer", ""]))
            yield s
    # intervals of whole numbers, in arrays of all types
    for k in range(60 if deep else 24):
        s = Session(f"c08.whole.{k}")
        x = np.arange(int(rng.integers(1, 7))) * [1.0, 7.0, 40.0][k % 3]
        ho = new(s, x if k % 2 else rng.permutation(x))
        for rep in range(3):
            m = int(rng.integers(1, 5))
            iv = np.stack([whole(rng, m, len(x)), whole(rng, m, len(x))], axis=1)
            exc, v, _ = call(ho[1].getIntegrationMatrix, retyped(iv, k + rep), ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"][rep])
            s.add("lag.integ", {"iv": enc(np.array(iv, dtype=float)), "rule": ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"][rep], "dup": True}, {"exc": exc, "v": enc(v)}, ho[0])
        yield s
    # many intervals
    for k in range(10 if deep else 5):
        n, m = int(rng.integers(2, 8)), [33, 40, 65, 70, 129, 17, 50, 99, 257, 300][k]
        s = Session(f"c08.intervals.{m}")
        x = next(point_sets(rng, [n]))
        ho = new(s, x)
        iv = rng.uniform(x.min(), x.max(), (m, 2))
        integ(s, ho, [tuple(v) for v in iv], ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"][k % 3])
        yield s
    # many points
    for n in [34, 45] + ([66, 90] if deep else []):
        s = Session(f"c08.many.n{n}")
        x = np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n))
        if n % 2: x = x * 0.5 + 0.5
        ho = new(s, x)
        iv = intervals_for(rng, x)
        for rule in ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]: integ(s, ho, [iv[1], iv[3]] if rule[0] != "F" else iv[:1], rule)
        yield s


def c09(rng, deep):
    yield from large(rng, [150, 400, 1000] + ([700, 1500, 2000] if deep else []), "D")
    yield from edge(rng, deep, ALGS)
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 17, 24] + ([35, 50] if deep else [])
    for rep in range(8 if deep else 3):
        for k, x in enumerate(point_sets(rng, sizes)):
            n = len(x)
            x = transform(rng, x, wild=True)
            if rng.uniform() < 0.3: x = rng.permutation(x)
            s = Session(f"c09.{rep}.{k}.n{n}")
            ho = new(s, x, alg=rng.choice(ALGS), scaled=bool(rng.integers(0, 2)), ref=rng.choice(["MAX", "ZERO"]))
            for o in [1, 2, "ALL"]:
                deriv(s, ho, o, dup=bool(rng.integers(0, 2)))
            deriv(s, ho, [1, 2, "ALL"][k % 3], old=True)
            deriv(s, ho, rng.choice([0, 3, -1]).item())
            deriv(s, ho, "all")
            yield s
    # many points
    for n in [43] + ([58, 70] if deep else []):
        s = Session(f"c09.many.n{n}")
        x = np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n))
        if rng.integers(0, 2): x = x * 0.5 + 0.5
        deriv(s, new(s, x, scaled=bool(rng.integers(0, 2))), int(rng.integers(1, 3)))
        yield s


def dup_points(rng, n):
    base = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, -1.0, 2.0, 0.1, 3.5], size=min(n, int(rng.integers(1, 7))), replace=False)
    p = list(base) + list(rng.choice(base, size=max(1, n - len(base))))
    p = np.array(p)
    if rng.uniform() < 0.5: p = np.sort(p)
    else: p = rng.permutation(p)
    return p


def c10(rng, deep):
    for k in range(160 if deep else 50):
        p = dup_points(rng, int(rng.integers(2, 10)))
        s = Session(f"c10.{k}.n{len(p)}")
        for strat in ["USE_LEFT", "USE_RIGHT"]:
            ho = new(s, p, alg=rng.choice(ALGS), dup=strat, scaled=bool(rng.integers(0, 2)))
            x = np.unique(p)
            for dup in [True, False]:
                interp(s, ho, times_for(rng, x, 2), dup=dup)
                integ(s, ho, intervals_for(rng, x)[:5], rng.choice(["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]), dup=dup)
                deriv(s, ho, [1, 2, "ALL"][int(rng.integers(0, 3))], dup=dup)
            evaluate(s, ho, times_for(rng, x, 2)[:4], rng.normal(size=len(p)))
        new(s, p, dup=rng.choice(["USE_MEAN", "left", ""]))
        yield s
    # repeated points beside distinct ones that are close to them
    for k in range(24 if deep else 10):
        p = dup_points(rng, int(rng.integers(2, 6)))
        p = np.concatenate([p, [rng.choice(p) + rng.choice([-1, 1]) * 10.0 ** -int(rng.integers(4, 9))]])
        p = rng.permutation(p) if k % 3 else np.sort(p)
        s = Session(f"c10.near.{k}.n{len(p)}")
        for strat in ["USE_LEFT", "USE_RIGHT"]:
            ho = new(s, p, dup=strat)
            x = np.unique(p)
            interp(s, ho, times_for(rng, x, 2))
            integ(s, ho, intervals_for(rng, x)[:4])
            deriv(s, ho, 1)
            evaluate(s, ho, times_for(rng, x, 1)[:4], rng.normal(size=len(p)))
        yield s
    # strategy name is irrelevant without duplicates
    s = Session("c10.nodup")
    ho = new(s, [0.0, 0.5, 2.0], dup="USE_RIGHT")
    interp(s, ho, [0.1, 0.5])
    yield s


def edge(rng, deep, algs, pre=None):
    """Weights just inside the range of the numbers."""
    for k in range(40 if deep else 12):
        n = [2, 3, 4, 5, 6, 8, 10, 12][int(rng.integers(0, 8))]
        x = np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n)) if rng.integers(0, 2) or n > 12 else np.sort(rng.permutation(np.linspace(-1, 1, 4 * n))[:n])
        d = np.abs(x[:, None] - x) + np.eye(n)
        top, low = -np.log10(d).sum(axis=1).max(), -np.log10(d).sum(axis=1).min()
        goal = rng.uniform(280, 307)
        if k % 2: sc = 10.0 ** ((top - goal) / (n - 1))
        else: sc = 10.0 ** ((low + goal) / (n - 1))
        if not 1e-140 < sc < 1e140: continue        # second derivatives
        sc = 2.0 ** np.round(np.log2(sc))
        x = x * sc
        s = Session(f"edge.{k}.n{n}")
        if pre: PRE["pre"] = pre
        for scaled in (False, True):
            ho = new(s, x, alg=algs if isinstance(algs, str) else rng.choice(algs), scaled=scaled)
            interp(s, ho, [0.1 * sc, x[0], x[-1] * (1 + 1e-9), (x[0] + x[1]) / 2, x[n // 2] + 1e-7 * sc])
            integ(s, ho, [(0.0, 0.5 * sc), (x[0], x[-1])], ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"][k % 3])
            deriv(s, ho, "ALL")
        PRE.clear()
        yield s


def c11(rng, deep):
    yield from large(rng, [150, 400, 1000, 1100, 1500] + ([600, 1300, 2000, 2500] if deep else []), "W")
    sizes = [1, 2, 3, 4, 5, 7, 9, 12, 16, 24, 40, 64] + ([100, 150, 250] if deep else [100])
    for rep in range(10 if deep else 4):
        for k, x in enumerate(point_sets(rng, sizes)):
            n = len(x)
            if rep % 2: x = transform(rng, x, wild=True)
            if rep % 4 == 3: x = rng.permutation(x)
            s = Session(f"c11.{rep}.{k}.n{n}")
            for alg in ALGS:
                new(s, x, alg=alg, scaled=bool((k + rep) % 2), ref="MAX")
                new(s, x, alg=alg, scaled=bool((k + rep + 1) % 2), ref="ZERO")
            new(s, x, alg=rng.choice(["auto", "NONE", "Chebfun"]))
            new(s, x, alg="STABLE", ref=rng.choice(["MIN", "zero"]))
            yield s
    # scales for which the direct formula over- or underflows
    for k, (n, sc) in enumerate([(200, 1e4), (150, 1e-4), (60, 1e-8), (60, 1e8), (30, 1e12), (40, 1e-10), (25, 1e-14),
                                 (120, 100.), (90, 1e3), (80, 1e-5), (24, 1e13), (33, 1e-9)]):
        s = Session(f"c11.range.{k}")
        PRE["pre"] = "C11"
        x = sc * np.cos(np.pi * (2 * np.arange(n, 0, -1) - 1) / (2 * n))
        ho = new(s, x)
        interp(s, ho, [0.1 * sc, x[3], 0.77 * sc])
        ho = new(s, x, scaled=True)
        interp(s, ho, [-0.3 * sc])
        PRE.clear()
        yield s
    yield from edge(rng, deep, "AUTO", "C11")


def hist(rng, deep):
    """Behaviours of MCLagrange: calls on several objects in any order, results overwritten by the caller, calls repeated."""
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    for b, log in enumerate(rows):
        s = Session(f"hist.{b}")
        objs, done = [], {}
        for g in log:
            k, q, d = g["k"], g["s"], g["d"]
            if g["op"] == "new":
                if d and q == 4: p = dup_points(rng, k + 1)
                else: p = next(point_sets(rng, [k + (q == 3) * 3]))
                if q == 2: p = rng.permutation(p)
                ho = new(s, p, alg=ALGS[q - 1], scaled=d, ref=["MAX", "ZERO"][k % 2], dup=["USE_LEFT", "USE_RIGHT"][(k + q) % 2],
                         fv=rng.normal(size=len(p)) if k % 3 else None)
                objs.append((ho, np.array(p, dtype=float)))
                continue
            ho, p = objs[g["o"] - 1]
            x = np.unique(p)
            if g["op"] == "write":
                for v in LAST:
                    if isinstance(v, np.ndarray) and v.size and v.flags.writeable: v.flat[:] = np.nan
                continue
            f = None
            if g["op"] == "interp":
                t = times_for(rng, x, 1)[:k]
                f = lambda: interp(s, ho, t, dup=d)
            elif g["op"] == "integ":
                iv = intervals_for(rng, x)[q - 1:q - 1 + k]
                rule = ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"][k % 3]
                f = lambda: integ(s, ho, iv, rule, dup=d)
            elif g["op"] == "deriv":
                f = lambda: deriv(s, ho, [1, 2, "ALL"][k % 3], dup=d, old=q == 1)
            elif g["op"] == "call":
                t = times_for(rng, x, 2)[:k]
                fv = rng.normal(size=len(p)) if d else None
                f = lambda: evaluate(s, ho, t[0] if q == 1 else t, fv)
            elif done.get(g["o"]):
                done[g["o"]][k % len(done[g["o"]])]()
            if f is not None:
                f()
                done.setdefault(g["o"], []).append(f)
        yield s
