"""Sessions on Q-generators: collocation (C03, C04), forms of the coefficients (C05), right boundary (C06)."""
import numpy as np
from ..rec import Session, call, enc, NONE
from .nodes import NT, QT

INTERVALS = [(0, 1), (0, 2), (-1, 1), (0.1, 0.7), (-3.5, -1.25), (2, 2.5), (10, 11), (0, 1e-3), (-1000, 1000), (0.5, 1), (1, 3)]


def interval(rng, k):
    if k < len(INTERVALS): return INTERVALS[k]
    a = float(np.round(rng.normal() * 10.0 ** rng.integers(-2, 3), 3))
    return (a, a + float(10.0 ** rng.uniform(-2, 2)))


def make(nt, qt, n, tl, tr):
    from qmat.qcoeff.collocation import Collocation
    if (tl, tr) == (0, 1): return call(Collocation, nNodes=n, nodeType=nt, quadType=qt)
    return call(Collocation, nNodes=n, nodeType=nt, quadType=qt, tLeft=tl, tRight=tr)


def attrs(o, *names):
    """Values of attributes of an object: (exception, [values])"""
    return call(lambda: [getattr(o, a) for a in names])[:2]


def args(nt, qt, n, iv):
    return {"nt": nt, "qt": qt, "n": n, "tl": enc(float(iv[0])), "tr": enc(float(iv[1]))}


def coll_event(s, op, nt, qt, n, iv):
    exc, o, _ = make(nt, qt, n, *iv)
    r = {"exc": exc}
    if o is not None:
        exc, v = attrs(o, "nodes", "weights", "Q", "order")
        r["exc"] = exc
        if v is not None:
            r.update(nodes=enc(v[0]), w=enc(v[1]), Q=enc(v[2]), order=int(v[3]))
    s.add(op, args(nt, qt, n, iv), r)


def c03(rng, deep):
    counts = list(range(1, 10)) + ([10, 11, 12, 14, 17, 20] if deep else [12])
    k = 0
    for nt in NT:
        for qt in QT:
            for c in range(0, len(counts), 3):
                s = Session(f"c03.{nt}.{qt}.{c}")
                for n in counts[c:c + 3]:
                    if nt == "EQUID" and n > 14: continue
                    for rep in range(6 if deep else 2 if n < 8 else 1):
                        coll_event(s, "coll.new", nt, qt, n, interval(rng, k % 14 if rep or n > 7 else 0))
                        k += 1
                yield s
            s = Session(f"c03.{nt}.{qt}.large")
            for n in ([25, 40] if deep else [19] if qt == "GAUSS" else []):
                if nt != "EQUID": coll_event(s, "coll.new", nt, qt, n, interval(rng, int(rng.integers(0, 14))))
            yield s
    # many nodes
    for nt in NT[1:]:
        for qt in QT:
            s = Session(f"c03.many.{nt}.{qt}")
            for n in [64, 90, 130] if deep else [48] if qt == "GAUSS" else [28]:
                coll_event(s, "coll.many", nt, qt, n + int(rng.integers(0, 6)), interval(rng, int(rng.integers(0, 14))))
            yield s
    # boundaries close to nodes, tiny intervals far from zero
    s = Session("c03.near")
    for n in [1, 2, 5] + ([9, 20] if deep else []):
        for nt in ["LEGENDRE", "CHEBY-1"]:
            for qt in ["GAUSS", "RADAU-RIGHT"]:
                for iv in [(0, 1e-9), (5, 5 + 1e-6), (0, 1e6), (-1e-8, 1e-8)]:
                    coll_event(s, "coll.new", nt, qt, n, iv)
        yield s
        s = Session(f"c03.near.{n}")
    for nt, qt, n in [("LEGENDRE", "RADAU", 3), ("legendre", "GAUSS", 2), ("LEGENDRE", "LOBATTO", 1), ("CHEBY-2", "GAUSS", 0)]:
        coll_event(s, "coll.new", nt, qt, n, (0, 1))
    yield s


def c04(rng, deep):
    k = 0
    for nt in NT:
        for qt in QT:
            for c in range(0, 5):
                s = Session(f"c04.{nt}.{qt}.{c}")
                for n in range(1 + 4 * c, 5 + 4 * c):
                    if n < (2 if qt in ("LOBATTO", "RADAU-LEFT") else 1): continue
                    if nt == "EQUID" and n > 14: continue
                    for rep in range(3 if deep else 2 if n < 13 else 1):
                        coll_event(s, "coll.order", nt, qt, n, interval(rng, k % 13 if rep else 0))
                        k += 1
                yield s


def lst(v):
    return [enc(x) for x in v] if isinstance(v, (list, tuple)) else [enc(v)]


def forms(s, kind, o, name, iv=(0, 1), params=None):
    """All forms of the coefficients of a Q-generator."""
    r = {}
    exc, v = attrs(o, "nodes", "weights", "Q", "S", "T", "Tinv", "hCoeffs")
    a = {"kind": kind, "name": name, "tl": enc(float(iv[0])), "tr": enc(float(iv[1]))}
    if exc:
        s.add("q.forms", a, {"exc": exc})
        return
    for key, x in zip(["nodes", "w", "Q", "S", "T", "Tinv", "h"], v): r[key] = enc(x)
    e2, w2, _ = call(lambda: o.weightsEmbedded)
    r["w2"] = NONE if e2 else enc(w2)
    res = [call(o.genCoeffs), call(o.genCoeffs, form="N2N"), call(o.genCoeffs, "Z2N", True),
           call(o.genCoeffs, "N2N", hCoeffs=True), call(o.genCoeffs, hCoeffs=True, embedded=True)]
    exc = "".join(x[0] for x in res[:4])
    r["zeExc"] = res[4][0]
    for key, x in zip(["z", "zn", "zh", "znh", "ze"], res): r[key] = lst(x[1])
    r["gen"] = r["genRef"] = []
    if params is not None:
        from qmat.qcoeff import genQCoeffs
        form = ["Z2N", "N2N"][s.nh % 2]
        s.nh += 1
        h, emb = [(True, False), (True, True), (False, True), (False, False), (True, False)][s.nh % 5]
        if e2: emb = False
        g = call(genQCoeffs, name, form=form, hCoeffs=h, embedded=emb, **params)
        exc += g[0]
        r["gen"], r["genRef"] = lst(g[1]), lst(call(o.genCoeffs, form, h, emb)[1])
    r["exc"] = exc
    s.add("q.forms", a, r)


def bad_forms(s, o, fun):
    for f in ["z2n", "N2Z", "", "Z2N ", "n2n", None, 0, "Q"]:
        exc, _, _ = call(fun, form=f)
        s.add("q.badform", {"form": str(f)}, {"exc": exc})


def rk_schemes():
    from qmat.qcoeff.butcher import RK_SCHEMES
    from qmat.utils import getClasses
    return getClasses(RK_SCHEMES)


def user_generator(rng, n, scale=1.0):
    """A user-defined generator (only the mandatory overrides)."""
    from qmat.qcoeff import QGenerator
    q, c, w = rng.normal(size=(n, n)) * scale, np.sort(rng.uniform(0, 1, n)), rng.uniform(size=n) * scale

    class User(QGenerator):
        nodes = property(lambda self: c)
        Q = property(lambda self: q)
        weights = property(lambda self: w)
        order = property(lambda self: 1)
    return User()


def structured_generator(rng, n):
    """A user-defined generator with stages that are not used, or depend on nothing, or on themselves only."""
    from qmat.qcoeff import QGenerator
    q, w = rng.normal(size=(n, n)), rng.uniform(size=n)
    for _ in range(int(rng.integers(1, 4))):
        i, kind = int(rng.choice([0, n - 1, rng.integers(0, n)])), int(rng.integers(0, 6))
        if kind == 0: q[:, i], w[i] = 0, 0
        elif kind == 1: q[i, :] = 0
        elif kind == 2: q[:, i] = 0
        elif kind == 3: w[i] = 0
        elif kind == 4: q = np.triu(q) if rng.integers(0, 2) else np.tril(q, -1)
        else: w = q[-1].copy()
    c = rng.uniform(0, 1, n)

    class Structured(QGenerator):
        nodes = property(lambda self: c)
        Q = property(lambda self: q)
        weights = property(lambda self: w)
        order = property(lambda self: 1)
    return Structured()


def generators(rng, deep, dup=True):
    """(kind, name, object, right boundary, interval, params)"""
    for nt in NT:
        for qt in QT:
            for n in ([1, 2, 3, 4, 5, 8, 11] if deep else [1, int(rng.integers(2, 5)), int(rng.integers(5, 9))]):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                iv = interval(rng, int(rng.integers(0, 14)))
                exc, o, _ = make(nt, qt, n, *iv)
                if o is None: continue
                yield "coll", "Collocation", o, iv[1], iv, dict(nNodes=n, nodeType=nt, quadType=qt, tLeft=iv[0], tRight=iv[1])
    for name, cls in rk_schemes().items():
        for pad in [None, "LEFT", "RIGHT", "BOTH"]:
            exc, o, _ = call(cls, padding=pad)
            if o is None: continue
            yield "rk", name, o, 1.0, (0, 1), (dict(padding=pad) if pad else {})
    for n in range(1, 8):
        yield "user", "User", user_generator(rng, n), 1.0, (0, 1), None


def sized_generator(rng, n):
    """A user-defined generator with coefficients of any size, zeros, or the same value repeated."""
    o = user_generator(rng, n, 10.0 ** int(rng.integers(-25, 20)))
    q, kind = o.Q, int(rng.integers(0, 5))
    if kind == 0: q *= 10.0 ** rng.integers(-14, 3, (n, n))
    elif kind == 1: q *= rng.integers(0, 2, (n, n))
    elif kind == 2: q[np.abs(np.subtract.outer(np.arange(n), np.arange(n))) == 1] = 0
    elif kind == 3: q[:] = q[0, 0]
    return o


def delta_forms(s, name, g, n, k):
    res = [call(g.getQDelta, k), call(g.getSDelta, k), call(g.genCoeffs, k), call(g.genCoeffs, k, form="N2N"),
           call(g.genCoeffs, k, "N2N", True), call(lambda: g.dTau)]
    if not res[0][0] and not np.all(np.isfinite(res[0][1])): return      # no LDU factorization
    r = {"exc": "".join(x[0] for x in res)}
    for key, x in zip(["QD", "SD", "gz", "gn"], res): r[key] = enc(x[1])
    r["gd"], r["dTau"] = lst(res[4][1]), enc(res[5][1])
    s.add("qd.forms", {"n": n, "name": name, "k": str(k)}, r)


def c05(rng, deep):
    s, k = Session("c05.0"), 0
    for kind, name, o, right, iv, params in generators(rng, deep):
        forms(s, kind, o, name, iv, params)
        k += 1
        if k % 9 == 0: bad_forms(s, o, o.genCoeffs)
        if k % 6 == 0:
            yield s
            s = Session(f"c05.{k}")
    yield s
    # coefficients of any size, not all alike, zero or not
    for rep in range(20 if deep else 6):
        s = Session(f"c05.sizes.{rep}")
        for _ in range(3):
            forms(s, "user", sized_generator(rng, int(rng.integers(1, 7))), "User")
        yield s
    from qmat.qdelta import QDELTA_GENERATORS
    from qmat.qcoeff.collocation import Collocation
    from qmat.utils import getClasses
    for rep in range(20 if deep else 6):
        s = Session(f"c05.given.{rep}")
        for _ in range(3):
            Q = sized_generator(rng, int(rng.integers(1, 7))).Q
            for name in ["Exact", "GS", "PIC"]:
                delta_forms(s, name, call(QDELTA_GENERATORS[name], Q=Q)[1], len(Q), [None, 1, 2][int(rng.integers(0, 3))])
        yield s
    for name, cls in getClasses(QDELTA_GENERATORS).items():
        s = Session(f"c05.delta.{name}")
        for n, nt, qt in [(2, "LEGENDRE", "RADAU-RIGHT"), (3, "LEGENDRE", "RADAU-RIGHT"), (4, "LEGENDRE", "RADAU-RIGHT"),
                          (3, "EQUID", "GAUSS"), (5, "CHEBY-1", "LOBATTO"), (1, "LEGENDRE", "GAUSS")]:
            exc, g, _ = call(cls, qGen=Collocation(n, nt, qt))
            if g is None: continue
            for k in [None, 1, 2, n + 2]:
                if call(g.getQDelta, k)[0] in ("NotImplementedError", "LinAlgError"): continue
                delta_forms(s, name, g, n, k)
            if n == 3: bad_forms(s, g, g.genCoeffs)
        if s.ev: yield s


def c06(rng, deep):
    s, k = Session("c06.0"), 0
    def right(o, t, name):
        exc, v = attrs(o, "nodes", "hCoeffs", "rightIsNode")
        r = {"exc": exc}
        if not exc: r.update(nodes=enc(v[0]), h=enc(v[1]), rin=bool(v[2]))
        s.add("q.right", {"right": enc(float(t)), "name": name}, r)
    for kind, name, o, t, iv, params in generators(rng, deep):
        if kind != "user" or len(o.nodes) < 9: right(o, t, name)
        k += 1
        if k % 8 == 0:
            yield s
            s = Session(f"c06.{k}")
    yield s
    # more intervals for collocation, user Runge-Kutta tables with repeated or unsorted nodes
    from qmat.qcoeff.butcher import RK
    for rep in range(60 if deep else 20):
        s = Session(f"c06.extra.{rep}")
        for _ in range(6):
            nt, qt = rng.choice(NT), rng.choice(QT)
            iv = interval(rng, int(rng.integers(0, 20)))
            o = make(nt, qt, int(rng.integers(2, 10)), *iv)[1]
            if o is not None: right(o, iv[1], "Collocation")
            n = int(rng.integers(1, 7))
            c = rng.choice(np.array([0, 0.25, 1 / 3, 0.5, 0.75, 1, 1, 1.25]), n)

            class Tab(RK):
                A, b = np.tril(rng.normal(size=(n, n))), rng.normal(size=n)
                order = property(lambda self: 1)
            Tab.c = c
            if rng.integers(0, 3) == 0:      # beside the boundary
                Tab.c = np.concatenate([rng.permutation(np.array([0, 0.25, 1 / 3, 0.5, 0.75]))[:n - 1], np.full(1, 1 + rng.choice([-1.0, 1.0]) * 10.0 ** -int(rng.integers(1, 16)))])[-n:]
                if len(Tab.c) < n: Tab.c = c
            right(Tab(), 1.0, "Tab")
        yield s
    # last nodes beside the boundary, tiny and huge intervals
    for rep in range(20 if deep else 6):
        s = Session(f"c06.beside.{rep}")
        for _ in range(4):
            o = user_generator(rng, int(rng.integers(1, 5)))
            o.nodes[-1] = 1 + rng.choice([-1.0, 1.0]) * 10.0 ** -int(rng.integers(1, 16))
            right(o, 1.0, "User")
            a = float(rng.choice([0.0, 0.0, 1.0, -0.5]))
            iv = (a, a + 10.0 ** rng.integers(-12, -3)) if a else (a, 10.0 ** rng.integers(-30, 30))
            o = make(rng.choice(NT), rng.choice(QT), int(rng.integers(2, 6)), *iv)[1]
            if o is not None: right(o, iv[1], "Collocation")
        yield s
