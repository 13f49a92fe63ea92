"""Sessions on the Dahlquist problem (C26..C29)."""
import json
import os
import numpy as np
from ..rec import Session, call, enc, NONE
from .kinds import retyped
from .coll import make, rk_schemes, user_generator, structured_generator, interval, attrs
from .nodes import NT, QT

SIX = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
OTHER = {"BE": ["IE"], "FE": ["EE"], "TRAP": ["CN"], "BEPAR": ["IEpar"], "TRAPAR": [], "SOE": ["LeapFrog", "LF"]}


def any_name(rng, x):
    """One of the names of the approximation."""
    return str(rng.choice([x] + OTHER[x]))


def problem(rng, big=8.0):
    """lambda, u0, T, n in many types"""
    u = int(rng.integers(0, 8))
    lam = [-1, 1j, -1 + 2j, 0.5, -2.5 - 0.25j, 0, np.complex128(-0.1 + 3j), float(-rng.uniform(0, big))][u]
    if rng.integers(0, 3) == 0: lam = complex(*(rng.normal(size=2) * 10.0 ** rng.integers(-2, 1)))
    u0 = [1, 1.0, 1j, -2 + 0.5j, 0.1, 3, 0][int(rng.integers(0, 7))]
    T = [1, 0.5, 2.0, 0.1, 1e-3, 3, np.float64(0.7), 0.0, -0.25][int(rng.integers(0, 9))]
    return lam, u0, T, int(rng.integers(1, 6))


def common(lam, u0, T, n):
    return {"lam": enc(complex(lam)), "u0": enc(complex(u0)), "T": enc(float(T)), "n": int(n)}


def q_generators(rng, deep):
    for nt in NT:
        for qt in QT:
            for n in ([1, 2, 3, 4, 6, 8] if deep else [int(rng.integers(2, 6))]):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                o = make(nt, qt, n, *(interval(rng, int(rng.integers(0, 14))) if rng.integers(0, 2) else (0, 1)))[1]
                if o is not None: yield f"{nt}.{qt}.{n}", o
    for name, cls in rk_schemes().items():
        for pad in [None, "LEFT", "RIGHT", "BOTH"] if deep else [None, ["LEFT", "RIGHT", "BOTH"][int(rng.integers(0, 3))]]:
            o = call(cls, padding=pad)[1]
            if o is not None: yield f"{name}.{pad}", o
    for n in range(1, 6):
        yield f"user.{n}", user_generator(rng, n)
    for n in [2, 3, 3, 4, 4, 5, 6, 2] * (3 if deep else 1):
        yield f"structured.{n}.{int(rng.integers(0, 10**6))}", structured_generator(rng, n)
    # tables of any magnitude: lambda in the inverse one
    for sc in [1e-13, 1e-9, 1e-5, 1e6, 1e12]:
        o = user_generator(rng, int(rng.integers(1, 5)), sc)
        o.scale = sc
        yield f"user.{sc}", o
    for iv in [(0, 1e-10), (0, 1e8)]:
        o = make(str(rng.choice(NT)), "RADAU-RIGHT", 3, *iv)[1]
        if o is not None:
            o.scale = iv[1]
            yield f"coll.{iv[1]}", o


def c26(rng, deep):
    for label, o in q_generators(rng, deep):
        exc, v = attrs(o, "Q", "weights")
        if exc: continue
        s = Session(f"c26.{label}")
        e2, w2, _ = call(lambda: o.weightsEmbedded)
        for rep in range(6 if deep else 4):
            lam, u0, T, n = problem(rng)
            if rep == 3: lam, T, n = complex(-10.0 ** rng.integers(1, 5)), 1.0, int(rng.integers(1, 12))
            if rep == 2: lam, T, n = [1e8 + 1e8j, -1e9, 1e-7j, -1e-12][int(rng.integers(0, 4))], [1, 1e-8, 1e6][int(rng.integers(0, 3))], np.int64(rng.integers(1, 30))
            if rep == 2 and abs(lam * T / n) > 100: T, n = min(T, 10.0) / n, 1        # no overflow
            if hasattr(o, "scale"): lam = lam / o.scale
            # very small and very large initial values (a linear problem)
            if rng.integers(0, 4) == 0: u0 = u0 * 10.0 ** int(rng.choice([-200, -60, -20, -15, 15, 100]))
            emb = rep % 2 == 1
            a = {**common(lam, u0, T, n), "A": enc(v[0]), "w": enc(v[1]), "w2": NONE if e2 else enc(w2), "emb": emb}
            style = int(rng.integers(0, 3))
            if not emb and style == 0: exc, u, _ = call(o.solveDahlquist, lam, u0, T, n)
            elif style == 1: exc, u, _ = call(o.solveDahlquist, lam, u0, T, n, emb)
            else: exc, u, _ = call(o.solveDahlquist, lam=lam, u0=u0, tEnd=T, nSteps=n, useEmbeddedWeights=emb)
            s.add("dq.solve", a, {"exc": exc, "u": enc(u)})
        yield s
    yield from many_steps(rng, deep, "c26")
    # from one end of the range of doubles to the other; zero stays zero
    s = Session("c26.range")
    for i in range(12 if deep else 6):
        o = [rk_schemes()[str(rng.choice(["BE", "FE", "RK4", "SDIRK3", "TRAP", "GAUSS_LG"]))](), user_generator(rng, int(rng.integers(1, 3)))][i % 2]
        z = complex(rng.uniform(-6, 6), rng.uniform(-1, 1))
        exc, st, _ = call(lambda: np.linalg.solve(np.eye(o.nNodes) - z * o.Q, np.ones(o.nNodes)))
        if exc: continue
        R = abs(1 + z * o.weights.dot(st))
        if not 1e-30 < R < 1e30 or abs(np.log10(R)) < 0.1: continue
        n = int(450 / abs(np.log10(R)))
        T = float(rng.choice([1.0, n, 0.1]))
        for u0 in ([1e240 if R < 1 else 1e-240j, 0] if i % 3 else [1e-250 + 1e-250j if R > 1 else 1e240]):
            exc, u, _ = call(o.solveDahlquist, z * n / T, u0, T, n)
            s.add("dq.solve", {**common(z * n / T, u0, T, n), "A": enc(o.Q), "w": enc(o.weights), "w2": NONE, "emb": False}, {"exc": exc, "u": enc(u)})
    yield s
    if deep:
        s = Session("c26.long")
        for name in ("RK4", "SDIRK3", "GAUSS_LG"):
            o = rk_schemes()[name]()
            exc, u, _ = call(o.solveDahlquist, -1 + 5j, 1, 10, 300)
            s.add("dq.solve", {**common(-1 + 5j, 1, 10, 300), "A": enc(o.Q), "w": enc(o.weights), "w2": NONE, "emb": False}, {"exc": exc, "u": enc(u)})
        yield s


def sweep_settings(rng, deep):
    """(label, Q, list of possible QDelta builders, weights)"""
    from qmat import genQDeltaCoeffs
    names = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "PIC", "Exact", "LU", "LU2", "QPar", "GS", "MIN-SR-NS", "DNODES-2"]
    for rep in range(160 if deep else 48):
        u = rep % 6
        if u < 3:
            nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
            o = make(nt, qt, int(rng.integers(2, 5)), *((0, 1) if rng.integers(0, 2) else interval(rng, int(rng.integers(0, 14)))))[1]
            if o is None: continue
            label = f"{nt}.{qt}"
        elif u == 3:
            name = str(rng.choice(["RK4", "SDIRK3", "GAUSS_LG", "HEUN2", "ESDIRK43", "RK21", "TRAP"]))
            o, label = rk_schemes()[name](), name
        else:
            o, label = user_generator(rng, int(rng.integers(1, 5))), "user"
        K = int(rng.integers(0, 6)) if rep % 8 else int(rng.integers(6, 15))
        how = int(rng.integers(0, 5))
        if how == 0 and label not in ("user", "TRAP", "RK21"):
            QD = genQDeltaCoeffs(str(rng.choice(names)), qGen=o)
        elif how == 1 and label not in ("user", "TRAP", "RK21") and K:
            QD = genQDeltaCoeffs([str(x) for x in rng.choice(names, K)], nSweeps=K, qGen=o) if K > 1 else genQDeltaCoeffs("JUMPER", nSweeps=1, qGen=o)
        elif how in (2, 3):
            QD = np.tril(rng.normal(size=(K, o.nNodes, o.nNodes)))
        else: QD = rng.normal(size=(o.nNodes, o.nNodes))
        if rep % 7 == 3 and label == "user":
            sc = 10.0 ** int(rng.integers(-12, 10))
            o = user_generator(rng, o.nNodes, sc)
            o.scale, QD = sc, QD * sc
        if rep % 6 == 5:
            # one matrix per sweep, on a short or a long time scale
            sc, K = [1e-10, 1e-13, 1e8, 1e-9, 1.0][rep // 6 % 5], max(K, 2)
            o = user_generator(rng, o.nNodes, sc)
            o.scale, QD = sc, np.tril(rng.normal(size=(K, o.nNodes, o.nNodes))) * sc
        if rep % 9 == 4: QD = np.round(QD * 3).astype(int) / (1 if rng.integers(0, 2) else 2)
        if rep % 9 == 5: QD = np.asfortranarray(QD)
        if not np.all(np.isfinite(QD)): continue            # SOE with steps of length zero
        yield f"{rep}.{label}", o, QD, K


class Shaped:
    """A matrix of any shape in the place of a Q-generator."""
    def __init__(self, Q): self.Q = Q


def sdc_event(s, op, rng, o, QD, K, prob, w, monitors, style=0):
    from qmat.utils.sdc import solveDahlquistSDC
    lam, u0, T, n = prob
    kw = {} if monitors is None and style else {"monitors": monitors}
    given = None if monitors is None else list(monitors)
    QD0 = QD.copy() if isinstance(QD, np.ndarray) else QD
    if len(s.ev) % 4 == 3 and isinstance(QD, np.ndarray) and QD.size: QD = QD.tolist()
    if style == 1 and w is not None: exc, v, _ = call(solveDahlquistSDC, lam, u0, T, n, K, o.Q, QD, w, *([monitors] if monitors is not None else []))
    elif style == 2: exc, v, _ = call(solveDahlquistSDC, lam=lam, u0=u0, tEnd=T, nSteps=n, nSweeps=K, Q=o.Q, QDelta=QD, weights=w, **kw)
    else: exc, v, _ = call(solveDahlquistSDC, lam, u0, T, n, K, o.Q, QD, weights=w, **kw)
    a = {**common(lam, u0, T, n), "Q": enc(np.asarray(o.Q, dtype=float)), "QD": enc(np.asarray(QD0, dtype=float)), "K": K, "w": enc(None if w is None else np.asarray(w, dtype=float)), "monitors": given or []}
    r = {"exc": exc}
    if exc == "":
        u, m = v if isinstance(v, tuple) else (v, {})
        r["u"], r["keys"] = enc(u), sorted(m) if isinstance(m, dict) else ["?"]
        for key in ("residuals", "errors"): r[key] = enc(m.get(key)) if isinstance(m, dict) else NONE
    s.add(op, a, r)
    return exc, r.get("u")


def c27(rng, deep):
    yield from c27_whole(rng, deep)
    for label, o, QD, K in sweep_settings(rng, deep):
        s = Session(f"c27.{label}")
        for rep in range(3):
            prob = list(problem(rng, 4.0))
            prob[3] = min(prob[3], 3)
            if abs(prob[0]) * abs(prob[2]) > 40: prob[0] = -1
            if hasattr(o, "scale"): prob[0] = complex(*rng.normal(size=2)) / o.scale / 2
            if K > 5: prob[3] = 1
            w = [None, o.weights, [np.array(o.weights) * 0.5, np.zeros(o.nNodes), np.eye(o.nNodes)[-1], -np.array(o.weights)][int(rng.integers(0, 4))]][rep]
            mon = [None, ["residuals"], ["errors"], ["residuals", "errors"], ["errors", "residuals"], [], ("errors",), ("residuals", "errors")][int(rng.integers(0, 8))]
            if mon and hasattr(o, "scale") and rep: prob[3] = 1
            if mon and abs(prob[0]) * abs(prob[2]) * ((1 if prob[3] > 1 else 0) + np.abs(np.sum(o.Q, axis=1)).max()) > 300: mon = ["residuals"]          # the exponential overflows
            exc, u = sdc_event(s, "sdc.solve", rng, o, QD, K, prob, w, mon, int(rng.integers(0, 3)))
            if mon and exc == "":
                s2 = Session("x")
                e2, v = sdc_event(s2, "x", rng, o, QD, K, prob, w, None)
                s.add("sdc.monitors", {}, {"exc": e2, "u": u, "v": v or NONE})
        # inconsistent shapes and unknown monitors
        M = o.nNodes
        bad = [rng.normal(size=(K + 1, M, M)), rng.normal(size=(M + 1, M + 1)), rng.normal(size=(M, M + 1)), rng.normal(size=M), rng.normal(size=(max(K, 1), M, M, 1)),
               rng.normal(size=(K, M, M + 1)), rng.normal(size=(K, M + 1, M)), rng.normal(size=(1, M, M)) if K != 1 else rng.normal(size=(2, M, M))][int(rng.integers(0, 8))]
        sdc_event(s, "sdc.solve", rng, o, bad, K, [-1, 1, 1, 1], None, None)
        for Qb in {0: [rng.normal(size=(M, M + 1))], 1: [rng.normal(size=(M + 1, M))], 2: [rng.normal(size=(M, 1))] if M > 1 else [rng.normal(size=(1, 3))]}[int(rng.integers(0, 3))]:
            sdc_event(s, "sdc.solve", rng, Shaped(Qb), rng.normal(size=(len(Qb), len(Qb))), K, [-1, 1, 1, 1], None, [None, ["residuals"], ["errors"]][int(rng.integers(0, 3))])
        sdc_event(s, "sdc.solve", rng, o, QD, K, [-1, 1, 1, int(rng.integers(1, 3))], [rng.normal(size=M + 1), rng.normal(size=M - 1), rng.normal(size=M + 3)][int(rng.integers(0, 3))], None)
        mon = [["residual"], ["errors", "oops"], ["Errors"], ["residuals", ""], ["all"]][int(rng.integers(0, 5))]
        sdc_event(s, "sdc.solve", rng, o, QD, K, [-1, 1, 1, 1], None, mon)
        yield s


def c27_whole(rng, deep):
    """Matrices of whole numbers, in arrays of all types."""
    for k in range(60 if deep else 30):
        s = Session(f"c27.whole.{k}")
        M, K = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        Q, QD = rng.integers(0, 4, (M, M)), np.tril(rng.integers(0, 4, (K, M, M) if k % 2 else (M, M)))
        if k % 5 == 0: Q, QD = Q - 2, QD - 1
        w = rng.integers(0, 3, M) if k % 3 else None
        for rep in range(2):
            prob = list(problem(rng, 1.0))
            prob[0], prob[3] = complex(prob[0]) / 20 if rep else prob[0], 1 + rep
            q, d, b = retyped(Q, k + rep), retyped(QD, k + rep if rep else k // 2), None if w is None else retyped(w, k)
            if any(a is not None and a.dtype in (np.float16, np.float32, np.longdouble) for a in (q, d, b)): continue
            sdc_event(s, "sdc.solve", rng, Shaped(q), d, K, prob, b, ["residuals"] if k % 4 == 0 else None, int(rng.integers(0, 3)))
        yield s


def c28(rng, deep):
    from qmat import genQDeltaCoeffs
    from qmat.utils.sdc import getOrderSDC, solveDahlquistSDC
    for nt in NT:
        for qt in QT:
            s = Session(f"c28.{nt}.{qt}")
            for n in ([1, 2, 3, 4, 5, 6, 7] if deep else [1, 2, 3, 4, 5]):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                exc, o, _ = make(nt, qt, n, 0, 1)
                K = 7 if deep else 5
                r = {"exc": exc}
                if o is not None:
                    def f():
                        # once in mixed order of the calls
                        QD = [genQDeltaCoeffs(x, qGen=o) if n % 2 else genQDeltaCoeffs(x, nodes=o.nodes) for x in SIX]
                        pred = [[[int(getOrderSDC(o, k, any_name(rng, x), up)) for k in range(K + 1)] for up in ("QUADRATURE", "LASTNODE")] for x in SIX]
                        return QD, pred, int(o.order)
                    exc, v, _ = call(f)
                    r = {"exc": exc}
                    if v is not None:
                        r.update(Q=enc(o.Q), w=enc(o.weights), QD=[enc(x) for x in v[0]], pred=v[1], order=v[2])
                        s.add("sdc.order", {"nt": nt, "qt": qt, "K": K}, r)
                        for j in (range(6) if deep else [int(x) for x in rng.permutation(6)[:2]]):
                            # the solver runs these sweeps
                            k = int(rng.integers(0, K + 1))
                            lam = complex(*rng.uniform(-1, 1, 2))
                            w = [None, o.weights][int(rng.integers(0, 2))]
                            if w is None and qt in ("GAUSS", "RADAU-LEFT"): w = o.weights
                            QDs = v[0][j] if rng.integers(0, 2) else np.array([v[0][j]] * k).reshape(k, n, n)
                            sdc_event(s, "sdc.run", rng, o, QDs, k, [lam, 1.0, 0.5, 1 + k % 2], w, None)
                            many = 40
                            e1, u, _ = call(solveDahlquistSDC, lam, 1.0, 0.25, 1, many, o.Q, v[0][j], weights=o.weights)
                            e2, u2, _ = call(solveDahlquistSDC, lam, 1.0, 0.25, 1, many, o.Q, v[0][j])
                            s.add("sdc.fixed", {**common(lam, 1.0, 0.25, 1), "Q": enc(o.Q), "QD": enc(v[0][j]), "w": enc(o.weights), "K": many},
                                  {"exc": e1 + e2, "u": enc(u), "v": enc(u2)})
                        continue
                s.add("sdc.order", {"nt": nt, "qt": qt, "K": K}, r)
            # what is announced for more nodes and more sweeps
            for n in sorted({int(x) for x in rng.integers(2, 25, 12 if deep else 7)} | {6, 9}):
                exc, o, _ = make(nt, qt, n, 0, 1)
                ks = sorted({0, 1, 2, 3, 4, 5, 6, 8, 12, 13, 20, 40} | {int(x) for x in rng.integers(7, 60, 5)})
                v = None
                if o is not None:
                    exc, v, _ = call(lambda: ([[[int(getOrderSDC(o, k, any_name(rng, x), up)) for k in ks] for up in ("QUADRATURE", "LASTNODE")] for x in SIX], int(o.order)))
                s.add("sdc.predict", {"nt": nt, "qt": qt, "n": n, "ks": ks}, {"exc": exc, **({} if v is None else {"pred": v[0], "order": v[1]})})
            yield s


def c29(rng, deep):
    from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC
    for label, o in q_generators(rng, deep):
        s = Session(f"c29.rk.{label}")
        emb_ok = call(lambda: o.weightsEmbedded)[0] == ""
        for rep in range(4):
            lam, u0, T, n = problem(rng, 4.0)
            emb = bool(emb_ok and rep % 2)
            own = rep == 2
            if own: u = rng.normal(size=n + 1) + 1j * rng.normal(size=n + 1)
            else:
                exc, u, _ = call(o.solveDahlquist, lam, u0, T, n, useEmbeddedWeights=emb)
                if exc or not np.all(np.isfinite(u)): continue
            style = int(rng.integers(0, 3))
            if own: given = u.real.copy() if style == 1 else u.tolist() if style == 2 else u
            if own and style == 1: u = u.real + 0j
            if own: exc, err, _ = call(o.errorDahlquist, lam, u0, T, n, given) if style else call(o.errorDahlquist, lam, u0, T, n, uNum=given, useEmbeddedWeights=emb)
            elif emb: exc, err, _ = call(o.errorDahlquist, lam, u0, T, n, useEmbeddedWeights=True) if style else call(o.errorDahlquist, lam, u0, T, n, None, True)
            else: exc, err, _ = call(o.errorDahlquist, lam=lam, u0=u0, tEnd=T, nSteps=n) if style else call(o.errorDahlquist, lam, u0, T, n)
            s.add("dq.error", {**common(lam, u0, T, n), "what": "rk", "u": enc(u)}, {"exc": exc, "err": enc(err)})
        yield s
    for label, o, QD, K in sweep_settings(rng, deep):
        s = Session(f"c29.sdc.{label}")
        for rep in range(4):
            lam, u0, T, n = problem(rng, 4.0)
            if abs(lam) * abs(T) > 40: lam = -1
            w = [None, o.weights][rep % 2]
            own = rep == 3
            if own: u = rng.normal(size=n + 1) + 1j * rng.normal(size=n + 1)
            else:
                exc, u, _ = call(solveDahlquistSDC, lam, u0, T, n, K, o.Q, QD, weights=w)
                if exc or not np.all(np.isfinite(u)): continue
            style = int(rng.integers(0, 2))
            if own: exc, err, _ = call(errorDahlquistSDC, lam, u0, T, n, K, o.Q, QD, weights=w, uNum=u) if style else call(errorDahlquistSDC, lam, u0, T, n, K, o.Q, QD, None, u)
            elif style: exc, err, _ = call(errorDahlquistSDC, lam=lam, u0=u0, tEnd=T, nSteps=n, nSweeps=K, Q=o.Q, QDelta=QD, weights=w)
            else: exc, err, _ = call(errorDahlquistSDC, lam, u0, T, n, K, o.Q, QD, w)
            s.add("dq.error", {**common(lam, u0, T, n), "what": "sdc", "u": enc(u)}, {"exc": exc, "err": enc(err)})
        yield s
    # real problems, differences of both signs
    coll = make("LEGENDRE", "RADAU-RIGHT", 2, 0, 1)[1]
    for rep in range(20 if deep else 8):
        s = Session(f"c29.real.{rep}")
        for k in range(6):
            lam, u0, T, n = float(rng.choice([-1.0, 0.5, 0.0, -2.5])), float(rng.choice([1.0, -2.0, 0.3, 0.0])), float(rng.choice([1.0, 0.25, 2.0])), int(rng.integers(1, 6))
            u = (u0 * np.exp(lam * np.linspace(0, T, n + 1)) + rng.normal(size=n + 1) * 10.0 ** -int(rng.integers(0, 8)) * rng.integers(0, 2, n + 1)) * [1, 1, -1][k % 3]
            if rng.integers(0, 3) == 0: u = u + 1j * rng.normal(size=n + 1) * rng.integers(0, 2, n + 1)
            given = u if k % 2 else u.astype(complex)
            if k < 3: exc, err, _ = call(errorDahlquistSDC, lam, u0, T, n, 2, coll.Q, coll.Q, uNum=given)
            else: exc, err, _ = call(coll.errorDahlquist, lam, u0, T, n, uNum=given)
            s.add("dq.error", {**common(lam, u0, T, n), "what": "sdc" if k < 3 else "rk", "u": enc(u + 0j)}, {"exc": exc, "err": enc(err)})
        yield s
    yield from many_steps(rng, deep, "c29")


def many_steps(rng, deep, prop):
    """Runs of more than a thousand steps."""
    from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC
    names = list(rk_schemes())
    for i in range(6 if deep else 3):
        n = int([rng.integers(1001, 1400), 1000 + rng.integers(0, 3), rng.integers(300, 2600)][i % 3])
        T, u0 = [1.0, -2.0, 10.0][int(rng.integers(0, 3))], complex(*rng.normal(size=2))
        lam = complex(-rng.uniform(0.1, 2), rng.uniform(-6, 6)) / T
        s = Session(f"{prop}.many.{i}.{n}")
        o = [user_generator(rng, 2), rk_schemes()[str(rng.choice(names))](), structured_generator(rng, 3)][i % 3]
        if prop == "c26":
            exc, u, _ = call(o.solveDahlquist, lam, u0, T, n)
            s.add("dq.solve", {**common(lam, u0, T, n), "A": enc(o.Q), "w": enc(o.weights), "w2": NONE, "emb": False}, {"exc": exc, "u": enc(u)})
        else:
            t = np.linspace(0, T, n + 1)
            for k in range(2):
                # the largest error close to one end
                u = u0 * np.exp(lam * t) * (1 + 1e-3 * rng.normal(size=n + 1))
                j = [n, n - 1, int(rng.integers(0, n + 1))][int(rng.integers(0, 3))]
                u[j] += 0.5
                if k: exc, err, _ = call(errorDahlquistSDC, lam, u0, T, n, 1, np.eye(2), np.eye(2), uNum=u)
                else: exc, err, _ = call(o.errorDahlquist, lam, u0, T, n, uNum=u)
                s.add("dq.error", {**common(lam, u0, T, n), "what": "sdc" if k else "rk", "u": enc(u)}, {"exc": exc, "err": enc(err)})
        yield s


ZS = [-0.5, -3 + 1j, 2j / 3, 0.4, -40, -1e3, 0.25 + 0.25j, -1e-3, 1e-9j, 0, -5 - 5j, -0.1 + 3j]
SETS = [("LEGENDRE", "RADAU-RIGHT", 3), ("LEGENDRE", "LOBATTO", 4), ("LEGENDRE", "GAUSS", 2), ("LEGENDRE", "RADAU-LEFT", 3), ("CHEBY-1", "GAUSS", 3), ("EQUID", "LOBATTO", 3),
        ("CHEBY-2", "LOBATTO", 5), ("EQUID", "RADAU-RIGHT", 2), ("CHEBY-3", "RADAU-RIGHT", 4), ("LEGENDRE", "GAUSS", 1), ("CHEBY-4", "RADAU-LEFT", 4), ("LEGENDRE", "RADAU-RIGHT", 5)]


def behaviours(rng):
    """Sweeps chosen by MCSweep on generators of the library."""
    from qmat import genQDeltaCoeffs
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    for b, g in enumerate(rows):
        nt, qt, n = SETS[g["nodes"] - 1]
        o = make(nt, qt, n, 0, 1)[1]
        if o is None: continue
        names, K = g["names"], len(g["names"])
        if K == 0: exc, QD, _ = call(genQDeltaCoeffs, "BE", qGen=o)
        elif K == 1: exc, QD, _ = call(genQDeltaCoeffs, names[0], nSweeps=1, qGen=o)
        else: exc, QD, _ = call(genQDeltaCoeffs, names, qGen=o)
        if exc: continue            # belongs to C23
        yield b, g, o, np.asarray(QD), names, K


def mixed27(rng, deep):
    for b, g, o, QD, names, K in behaviours(rng):
        s = Session(f"mixed.{b}." + "-".join(names))
        mon = {"": None, "both": ["residuals", "errors"]}.get(g["monitors"], [g["monitors"]])
        T = [1, 0.5, 2.0][b % 3]
        z = ZS[g["z"] - 1]
        sdc_event(s, "sdc.solve", rng, o, QD, K, [z / T * g["steps"], 1 - 0.5j, T, g["steps"]],
                  o.weights if g["update"] == "QUADRATURE" else None, mon, b % 3)
        yield s


def mixed28(rng, deep):
    """The order of sweeps with different approximations, and the steps the solver makes with them."""
    for b, g, o, QD, names, K in behaviours(rng):
        s = Session(f"mixed.{b}." + "-".join(names))
        D = QD if QD.ndim == 3 else np.zeros((0, o.nNodes, o.nNodes))
        s.add("sdc.mixed", {"names": names, "K": K}, {"Q": enc(o.Q), "w": enc(o.weights), "QD": enc(D), "order": int(o.order),
                                                      "right": bool(o.nodes[-1] == 1.0)})
        if abs(ZS[g["z"] - 1]) < 10:
            sdc_event(s, "sdc.run", rng, o, QD, K, [ZS[g["z"] - 1], 1.0, 1.0, 1], o.weights if g["update"] == "QUADRATURE" else None, None)
        yield s


JUMPS = {"Jumper": ["Jumper", "JUMPER", "FB"], "FlexJumper": ["FlexJumper", "FLEX-JUMPER", "FB2"], "MIN_SR_FLEX": ["MIN_SR_FLEX", "MIN-SR-FLEX"],
         "DNODES": ["DNODES", "DNODES-1"], "DNODES2": ["DNODES2", "DNODES-2"], "DNODES3": ["DNODES-3"], "DNODES4": ["DNODES-4"], "DNODES5": ["DNODES-5"],
         "MIN_SR_NS": ["MIN_SR_NS", "MIN-SR-NS", "MIN_GT"]}


def c36(rng, deep):
    """Order jumps and stiff limit of the divided nodes."""
    from qmat.qdelta import genQDeltaCoeffs, QDELTA_GENERATORS
    from qmat.utils import getClasses
    G = {c.__name__: c for c in getClasses(QDELTA_GENERATORS).values()}
    for nt in NT:
        for qt in QT:
            for n in ([2, 3, 4, 5, 6, 8] if deep else [int(rng.integers(2, 4)), int(rng.integers(4, 7))]):
                s = Session(f"c36.{nt}.{qt}.{n}")
                names = list(JUMPS) if deep else ["Jumper", "FlexJumper", "MIN_SR_FLEX"] + [str(x) for x in rng.permutation(list(JUMPS)[3:])[:2]]
                for name in names:
                    T = 1.0 if name == "MIN_SR_FLEX" else float([1, 1, 0.5, 2][int(rng.integers(0, 4))])
                    o = make(nt, qt, n, 0, T)[1]
                    if o is None: continue
                    K = int(rng.integers(1, n + 2))
                    alias = str(rng.choice(JUMPS[name]))
                    how = int(rng.integers(0, 4))
                    def f():
                        if how == 0: return genQDeltaCoeffs(alias, nSweeps=K, qGen=o)
                        if how == 1: return G[name](qGen=o).genCoeffs(k=list(range(1, K + 1)))
                        if how == 2 and K > 1: return genQDeltaCoeffs([alias], nSweeps=K, coll=o)
                        if how == 3 and K > 1: return genQDeltaCoeffs([alias] * (K // 2 + 1), nSweeps=K, qGen=o)
                        g = G[name](qGen=o)
                        return np.array([g.getQDelta(k) for k in range(K, 0, -1)])[::-1]
                    exc, QD, _ = call(f)
                    r = {"exc": exc, "Q": enc(o.Q), "w": enc(o.weights), "nodes": enc(o.nodes), "QD": enc(QD), "T": enc(T), "order": int(o.order), "right": qt in ("RADAU-RIGHT", "LOBATTO")}
                    s.add("sdc.jump", {"name": name, "K": K, "how": how}, r)
                    if QD is None or np.shape(QD) != (K, n, n): continue
                    # the solver with these matrices
                    lam = complex(*rng.uniform(-1, 1, 2)) if rng.integers(0, 2) else complex(-10.0 ** rng.integers(0, 6))
                    sdc_event(s, "sdc.jumprun", rng, o, QD, K, [lam, 1.0, T, 1 + K % 2], [None, o.weights][int(rng.integers(0, 2))], None)
                # many sweeps, more nodes
                for name in names if deep else [str(x) for x in rng.permutation(names)[:3]]:
                    T = 1.0 if name == "MIN_SR_FLEX" else float([1, 0.5, 2][int(rng.integers(0, 3))])
                    m = int(rng.integers(2, 12))
                    o = make(nt, qt, m, 0, T)[1]
                    if o is None: continue
                    K = m if name == "MIN_SR_FLEX" else int(rng.integers(1, 2 * m + 8))
                    exc, QD, _ = call(genQDeltaCoeffs, str(rng.choice(JUMPS[name])), nSweeps=K, qGen=o)
                    s.add("sdc.divided", {"name": name, "K": K}, {"exc": exc, "QD": enc(QD), "nodes": enc(o.nodes)})
                m = int(rng.integers(2, 10))
                o = make(nt, qt, m, 0, 1)[1]
                if o is not None:
                    exc, QD, _ = call(genQDeltaCoeffs, str(rng.choice(JUMPS["MIN_SR_FLEX"])), nSweeps=m, qGen=o)
                    s.add("sdc.stiff", {"name": "MIN_SR_FLEX"}, {"exc": exc, "Q": enc(o.Q), "nodes": enc(o.nodes), "QD": enc(QD)})
                o = make(nt, qt, n, 0, 1)[1]
                if o is not None:
                    exc, QD, _ = call(genQDeltaCoeffs, str(rng.choice(JUMPS["MIN_SR_FLEX"])), nSweeps=n, qGen=o)
                    s.add("sdc.stiff", {"name": "MIN_SR_FLEX"}, {"exc": exc, "Q": enc(o.Q), "nodes": enc(o.nodes), "QD": enc(QD)})
                    if QD is not None and np.shape(QD) == (n, n, n):
                        sdc_event(s, "sdc.jumprun", rng, o, QD, n, [-10.0 ** rng.integers(3, 9), 1.0, 1.0, 1], None, None)
                yield s


def c37(rng, deep):
    """Which approximations depend on the sweep index."""
    from qmat.qdelta import QDeltaGenerator, QDELTA_GENERATORS, register
    from qmat.utils import getClasses
    classes = {c.__name__: (c, c.__name__ in ("Jumper", "FlexJumper", "MIN_SR_FLEX")) for c in getClasses(QDELTA_GENERATORS).values()}

    class UserA(QDeltaGenerator):
        aliases = ["user-a"]
        def computeQDelta(self, k=1):
            return np.eye(self.size) / (k or 1)

    class UserB(QDeltaGenerator):
        def computeQDelta(self, k=None):
            return np.eye(self.size) / 3

    class UserC(UserB):
        def computeQDelta(self, k=1):
            return np.tri(self.size) * (k or 1)

    class UserD(classes["MIN_SR_NS"][0]):
        def computeQDelta(self, k=None):
            return np.diag(self.nodes) / 7

    class UserE(QDeltaGenerator):
        def computeQDelta(self, k=0):
            return np.eye(self.size) * (1 + (k or 1))

    class UserF(classes["DNODES"][0]):
        def computeQDelta(self, k=-1):
            return np.diag(self.nodes) * (1 if k is None else k)

    class UserH(classes["Jumper"][0]):
        aliases = []

        def computeQDelta(self, k=None):
            return np.diag(self.nodes) / 3

    class UserI(classes["FlexJumper"][0]):
        aliases = ["User-I"]

    class UserJ(classes["MIN_SR_FLEX"][0]):
        aliases = []

        def computeQDelta(self, k=None):
            return np.diag(self.coll.nodes) / 2

    class UserK(UserB):
        def computeQDelta(self, k=1):
            return np.tri(self.size) / (k or 1)

    class UserG(QDeltaGenerator):
        def computeQDelta(self, k=False):
            return np.tri(self.size) / (k or 1)
    for c, dep in ((UserA, True), (UserB, False), (UserC, True), (UserD, False), (UserE, True), (UserF, True), (UserG, True), (UserH, False), (UserI, True), (UserJ, False), (UserK, True)):
        exc, k, _ = call(register, c)
        if exc == "": classes["User"] = classes.get("User", []) + [(c, dep)]
    users = classes.pop("User", [])
    todo = [(n, c, d) for n, (c, d) in classes.items()] + [(c.__name__, c, d) for c, d in users]
    for name, cls, dep in todo:
        s = Session(f"c37.{name}")
        for rep in range(6 if deep else 2):
            n = int(rng.integers(2, 6))
            nt, qt = (str(rng.choice(NT)), str(rng.choice(QT)))
            if name in ("MIN", "MIN3", "MIN_VDHS"): n, nt, qt = int(rng.integers(3, 5)), "LEGENDRE", "RADAU-RIGHT"
            if name == "MIN": n = 2
            o = make(nt, qt, n, 0, 1)[1]
            if o is None: continue
            def f():
                g = cls(qGen=o)
                ks = [None, 1, 2, 3, n, n + 1, n + 2, 50]
                order = rng.permutation(len(ks))
                got = {}
                for j in order:
                    got[int(j)] = [g.getQDelta, g.genCoeffs, lambda k: g.genCoeffs([k], form="Z2N")[0]][int(rng.integers(0, 3))](ks[int(j)])
                says = g.isKDependent()
                return [enc(got[j]) for j in range(len(ks))], says is True or says is np.True_, [call(g.getQDelta, k)[0] for k in (0, -1, -7)] if name[:4] != "User" else []
            exc, v, _ = call(f)
            s.add("qd.index", {"name": name, "dep": dep}, {"exc": exc, "QD": v[0] if v else [], "says": bool(v and v[1]), "low": v[2] if v else []})
        yield s
