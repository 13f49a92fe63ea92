"""Sessions on NodesGenerator objects (C01, C02)."""
import numpy as np
from ..rec import Session, call, enc

NT = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QT = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def new(s, nt, qt):
    from qmat.nodes import NodesGenerator
    exc, o, _ = call(NodesGenerator, nt, qt)
    h = s.new("nodes.new", {"nt": nt, "qt": qt}, {"exc": exc})
    return h, o


def get(s, ho, n):
    h, o = ho
    if o is None: return
    exc, v, _ = call(o.getNodes, n)
    s.add("nodes.get", {"n": n}, {"exc": exc, "v": enc(v)}, h)
    return v


def coeffs(s, ho, n, tri):
    h, o = ho
    if o is None: return
    exc, v, _ = call(o.getTridiagCoefficients if tri else o.getOrthogPolyCoefficients, n)
    v = v if isinstance(v, tuple) and len(v) == 2 else (None, None)
    s.add("nodes.tridiag" if tri else "nodes.coeffs", {"n": n}, {"exc": exc, "al": enc(v[0]), "be": enc(v[1])}, h)
    return v


def coeffsat(s, ho, n, at):
    """A request for very many coefficients, of which some are recorded."""
    h, o = ho
    if o is None: return
    exc, v, _ = call(o.getOrthogPolyCoefficients, n)
    v = [np.asarray(x) for x in v] if isinstance(v, tuple) and len(v) == 2 else [np.zeros(0)] * 2
    part = lambda x: enc(x.ravel()[[i for i in at if i < x.size]])
    s.add("nodes.coeffsat", {"n": n, "at": [int(i) for i in at]}, {"exc": exc, "sh": [x.size for x in v], "al": part(v[0]), "be": part(v[1])}, h)


def evalp(s, ho, t, al, be, lists=False):
    h, o = ho
    if o is None: return
    c = [np.array(al, dtype=float), np.array(be, dtype=float)]
    if lists: c = [x.tolist() for x in c]
    exc, v, _ = call(o.evalOrthogPoly, t, *c)
    v = v if isinstance(v, tuple) and len(v) == 2 else (None, None)
    s.add("nodes.eval", {"t": enc(np.asarray(t, dtype=float)), "al": enc(np.array(al, dtype=float)),
                         "be": enc(np.array(be, dtype=float))}, {"exc": exc, "p0": enc(v[0]), "p1": enc(v[1])}, h)


def c01(rng, deep):
    counts = list(range(1, 41)) if not deep else list(range(1, 101))
    big = [50, 64, 100, 151, int(rng.integers(41, 130))] + ([200, 257, 300, 400, 512] if deep else [])
    for nt in NT:
        for qt in QT:
            for part in range(4):
                s = Session(f"c01.{nt}.{qt}.{part}")
                ho = new(s, nt, qt)
                for n in counts[part::4]: get(s, ho, n)
                yield s
            if nt == "EQUID":
                # boundaries and rounding: every count
                for c in range(41, 241 if not deep else 1001, 20):
                    s = Session(f"c01.{nt}.{qt}.c{c}")
                    ho = new(s, nt, qt)
                    for n in range(c, c + 20): get(s, ho, n)
                    yield s
            for n in big:
                s = Session(f"c01.{nt}.{qt}.{n}")
                get(s, new(s, nt, qt), n)
                yield s
            # requests in any order, repeated, with refused ones in between
            for rep in range(3 if deep else 1):
                s = Session(f"c01.{nt}.{qt}.hist{rep}")
                ho = new(s, nt, qt)
                for n in rng.integers(-2, 26, 14): get(s, ho, int(n))
                yield s
                # what the caller does with the nodes does not change what is computed next
                s = Session(f"c01.{nt}.{qt}.shared{rep}")
                ho, other = new(s, nt, qt), new(s, nt, qt)
                for n in rng.integers(2, 6, 8):
                    v = get(s, [ho, ho, other][int(rng.integers(0, 3))], int(n))
                    if isinstance(v, np.ndarray) and v.flags.writeable: v += rng.uniform()
                yield s
    s = Session("c01.large")
    for nt in NT[1:]:
        for qt in QT:
            for n in [1300] if deep or (nt, qt) == ("LEGENDRE", "RADAU-RIGHT") else [600]:
                s = Session(f"c01.large.{nt}.{qt}.{n}")
                get(s, new(s, nt, qt), n)
                yield s
    s = Session("c01.invalid")
    for nt, qt in [("legendre", "GAUSS"), ("", "GAUSS"), ("LEGENDRE", "gauss"), ("LEGENDRE", "RADAU"), ("CHEBY", "GAUSS"),
                   ("CHEBY-5", "LOBATTO"), ("EQUID", ""), ("GAUSS", "LEGENDRE"), ("LEGENDRE ", "GAUSS"),
                   ("CHEBY-1", "RADAU-MID"), ("EQUID", "LOBATTO-LEFT")]:
        new(s, nt, qt)
    yield s


def c02(rng, deep):
    for nt in NT[1:]:
        for qt in QT:
            s = Session(f"c02.{nt}.{qt}")
            ho = new(s, nt, qt)
            for n in list(range(1, 34)) + [40, 49, 50, 51, 55, 64, 65, 99, 100, 101, 128, 150] + ([200, 400] if deep else []):
                coeffs(s, ho, n, False)
                if n >= (2 if qt == "LOBATTO" else 1): coeffs(s, ho, n, True)
            yield s
        s = Session(f"c02.verymany.{nt}")
        ho = new(s, nt, str(rng.choice(QT)))
        for n in [1000, 33000, 70000] + ([3000, 150000] if deep else []):
            at = sorted({0, 1, 2, n - 1, n - 2, *(2 ** p + d for p in range(3, 18) for d in (-1, 0) if 2 ** p + d < n), *map(int, rng.integers(0, n, 25))})
            coeffsat(s, ho, n, at)
        yield s
        s = Session(f"c02.eval.{nt}")
        ho = new(s, nt, "GAUSS")
        for n in [0, 1, 2, 3, 5, 8, 13, 21]:
            v = coeffs(s, ho, max(n, 1), False)
            if v[0] is None: continue
            al, be = np.asarray(v[0])[:n], np.asarray(v[1])[:n]
            evalp(s, ho, rng.uniform(-1.2, 1.2, 4), al, be)
            evalp(s, ho, 1.0, al, be)
            evalp(s, ho, -1, al, be)
            evalp(s, ho, rng.uniform(-3, 3, (2, 2)), al, be)
        for n in range(1, 12 if deep else 8):
            evalp(s, ho, rng.uniform(-1, 1, 3), rng.normal(size=n), rng.uniform(0, 2, n))
            evalp(s, ho, float(rng.uniform(-1, 1)), rng.normal(size=n), rng.normal(size=n))
        evalp(s, ho, np.array([1, 0, -1]), rng.normal(size=3), rng.normal(size=3))
        # coefficients with zeros, ones and repeated values anywhere
        for n in range(1, 14 if deep else 8):
            a, b = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 0.25], n), rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 0.25], n)
            if n % 3 == 0: a = rng.normal(size=n)
            if n % 3 == 1: b = np.where(rng.integers(0, 2, n) == 1, rng.normal(size=n), 0.0)
            evalp(s, ho, rng.uniform(-1, 1, 3), a, b)
        yield s
        # evaluation points of every type, shape and size; many coefficients; coefficients of any size
        s = Session(f"c02.evaltypes.{nt}")
        ho = new(s, nt, str(rng.choice(QT)))
        x = rng.uniform(-1, 1, 6)
        for t in [x.astype(np.float32), x.astype(np.float16), (9 * x).astype(np.int16), (9 * x).astype(np.int8), (9 * x).astype(np.int64),
                  np.float32(0.3), np.int16(-1), np.float64(0.7), 0, 2, True, np.array(0.25), x.tolist(), [1, 0, -1], (0.5, -0.5),
                  x.reshape(1, 2, 3), x.reshape(3, 2).T, x[::2], np.zeros((0,)), x[:1], np.array([1, 0], dtype=np.uint8),
                  x * 1e8, x * 1e-12, np.linspace(-1, 1, 41)]:
            n = int(rng.integers(1, 7))
            v = [rng.normal(size=n), rng.normal(size=n)] if rng.integers(0, 2) else coeffs(s, ho, n, False)
            if v[0] is None: continue
            evalp(s, ho, t, v[0], v[1], lists=bool(rng.integers(0, 2)))
        for n in [30, 60, 120]:
            v = coeffs(s, ho, n, False)
            if v[0] is not None: evalp(s, ho, np.concatenate([[-1.0, 0.0, 1.0], rng.uniform(-1, 1, 3)]), v[0], v[1])
        for sc in [1e-9, 1e9]:
            evalp(s, ho, x[:3] * sc, rng.normal(size=5) * sc, rng.normal(size=5) * sc)
        yield s
        # the recurrence is computed the same whatever was requested (and modified by the caller) before
        s = Session(f"c02.hist.{nt}")
        ho = new(s, nt, str(rng.choice(QT)))
        for n in rng.integers(2, 40, 16 if not deep else 60):
            v = coeffs(s, ho, int(n), bool(rng.integers(0, 2)))
            for y in v or []:
                if isinstance(y, np.ndarray) and y.flags.writeable: y[...] = 7
            if rng.integers(0, 2): call(ho[1].getNodes, int(n))
        yield s
