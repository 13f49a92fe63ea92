"""Sessions on the numerical utilities (C30..C32)."""
import numpy as np
from .kinds import retyped
from ..rec import Session, call, enc, NONE
from .coll import make
from .nodes import NT, QT
from .qd import matrices


def more_matrices(rng, deep):
    for n in range(1, 9):
        for rep in range(6 if deep else 2):
            A = rng.normal(size=(n, n))
            yield A @ A.T + 0.1 * np.eye(n)
            L, U = np.tril(rng.normal(size=(n, n)), -1) + np.eye(n), np.triu(rng.normal(size=(n, n)), 1) + np.eye(n)
            d = rng.normal(size=n)
            yield L @ np.diag(d) @ U
            d = np.concatenate([rng.integers(1, 5, n - 1), [0]]).astype(float)         # singular last minor, exactly
            L, U = np.tril(rng.integers(-2, 3, (n, n)), -1) + np.eye(n), np.triu(rng.integers(-2, 3, (n, n)), 1) + np.eye(n)
            yield L @ np.diag(d) @ U
            yield (L @ np.diag(d) @ U).astype(int)
            yield A * 10.0 ** rng.integers(-8, 9, (n, 1))
            yield A * 10.0 ** rng.integers(-14, 15)                              # any magnitude as a whole
            yield (A + n * np.eye(n)) * 10.0 ** rng.choice([-150, -60, -11, -9, 9, 12, 60, 150])
            yield A * 10.0 ** rng.integers(-8, 9, (1, n))
            yield np.asfortranarray(L @ U) * 2.0 ** -50
            yield rng.integers(-5, 6, (n, n))
            yield retyped(rng.integers(-5, 6, (n, n)), rep + n)
            yield retyped(rng.integers(0, 16, (n, n)) * [1, 13][rep % 2], n)
            yield np.triu(A)
            yield np.tril(A)
            yield np.diag(rng.normal(size=n))
            yield (A * 4).astype(np.float32)
            # complex matrices
            yield A + 1j * rng.normal(size=(n, n))
            yield (L @ np.diag(np.arange(1, n + 1) * 1j) @ U).astype(complex)
            # parts of different magnitudes
            yield (A + n * np.eye(n)) * 10.0 ** rng.integers(-25, 12) * (1 + 1j * 10.0 ** -int(rng.integers(0, 20)) * rng.normal(size=(n, n)))
            if rep % 2: yield (A + n * np.eye(n)) * 1j + A * 10.0 ** -int(rng.integers(1, 18))
            if rep % 2 == 0: yield np.asfortranarray(A + 1j * np.tril(A)) * 10.0 ** rng.integers(-9, 9)
    for sh in [(2, 3), (3, 2), (1, 4), (4, 1), (0, 2)]:
        yield rng.normal(size=sh)


def c30(rng, deep):
    from qmat.utils.num import lduFactorization
    s, k = Session("c30.0"), 0
    for source in (matrices(rng, deep), more_matrices(rng, deep)):
        for A in source:
            A = np.array(A, order="K") if isinstance(A, np.ndarray) else np.asarray(A, dtype=float)
            rec = enc(A if A.dtype.kind == "c" else A.astype(float))
            exc, v, _ = call(lduFactorization, A)
            r = {"exc": exc}
            if v is not None:
                parts = list(v) + [None] * 3
                # results of float32 matrices in their own precision are not covered
                r.update(L=enc(parts[0]), D=enc(parts[1]), U=enc(parts[2]))
            if A.dtype == np.float32: rec = enc(A.astype(float))
            s.add("num.ldu", {"A": rec}, r)
            k += 1
            if k % 12 == 0:
                yield s
                s = Session(f"c30.{k}")
    yield s


def c31(rng, deep):
    from qmat.utils.num import getExtrapolationMatrix
    k = 0
    for rep in range(120 if deep else 40):
        s = Session(f"c31.{rep}")
        for _ in range(4):
            n = int(rng.integers(1, 8))
            u = int(rng.integers(0, 9))
            if u == 0: x = make(str(rng.choice(NT)), "GAUSS", n, 0, 1)[1].nodes
            elif u == 1: x = rng.permutation(rng.uniform(-1, 1, n))
            elif u == 2: x = np.arange(n) - n // 2
            elif u == 3: x = np.linspace(0, 1, n)
            elif u == 4: x = np.cumsum(rng.uniform(0.2, 1, n)) - 1
            elif u == 5: x = rng.choice(np.arange(-10, 11), n, replace=False) * 0.125
            elif u == 6: x = np.cumsum(rng.uniform(0.4, 1, n)) * 10.0 ** rng.integers(-4, 5)
            elif u == 8: x = rng.choice(np.arange(1, 12), min(n, 6), replace=False) * 10 ** int(rng.integers(0, 5))
            else:
                n = int(rng.integers(8, 14))
                x = np.linspace(-1, 1, n)
            n = len(x)
            p = [None, 0, n - 1, int(rng.integers(0, n))][int(rng.integers(0, 4))] if n < 8 else int(rng.integers(0, 6))
            t = [np.array([1.5, 2.0]), [1.0], rng.uniform(-2, 3, 4), np.array([-1, 3]), x[:2].copy(), np.linspace(0, 2, 5), [0, 1], x.copy(), np.zeros(0), np.linspace(0, 1, 40)][int(rng.integers(0, 10))]
            if u == 8: t = [np.array([2, 3]) * x[0], [int(x[-1]), 0], x.tolist()][int(rng.integers(0, 3))]
            if rng.integers(0, 5) == 0:      # times next to nodes
                i = rng.integers(0, n, 3)
                t = np.asarray(x, dtype=float)[i] + 10.0 ** rng.uniform(-14, -5, 3) * rng.choice([-1, 1], 3) * max(1, abs(np.asarray(x)).max())
            elif u == 6 and n > 1: t = np.asarray(t, dtype=float) * (x.max() - x.min()) + x.min()
            given = [x.tolist(), x, x, retyped(x, rep)][int(rng.integers(0, 4))]
            if rng.integers(0, 3) == 0: t = retyped(t, rep // 2)
            style = int(rng.integers(0, 3))
            if p is None and style: exc, P, _ = call(getExtrapolationMatrix, given, t)
            elif style == 1: exc, P, _ = call(getExtrapolationMatrix, nodes=given, times=t, pOrder=p)
            else: exc, P, _ = call(getExtrapolationMatrix, given, t, p)
            s.add("num.extra", {"nodes": enc(np.asarray(x, dtype=float)), "times": enc(np.asarray(t, dtype=float)), "degree": -1 if p is None else p}, {"exc": exc, "P": enc(P)})
        yield s


def c32(rng, deep):
    from qmat.utils.num import numericalOrder
    for rep in range(100 if deep else 40):
        s = Session(f"c32.{rep}")
        for _ in range(4):
            k = int(rng.integers(2, 9)) if rng.integers(0, 4) else int(rng.integers(9, 60))
            u = int(rng.integers(0, 5))
            if u == 0: n = 2 ** np.arange(1, k + 1) if k < 40 else 1.5 ** np.arange(1, k + 1)
            elif u == 1: n = rng.choice(np.arange(1, 200), k, replace=False)
            elif u == 2: n = np.sort(rng.uniform(0.5, 1000, k))[::-1].copy()
            elif u == 3: n = rng.integers(1, 6, k)
            else: n = 10 ** rng.integers(0, 7, k)
            err = 10.0 ** (rng.uniform(-14, 2, k) if rng.integers(0, 3) else rng.uniform(-300, 300, k) if rng.integers(0, 2) else -3 + rng.uniform(-1e-6, 1e-6, k))
            p = float([1, 2, 3, 4.5, -1, 0, 0.25, 8][int(rng.integers(0, 8))])
            law = bool(rng.integers(0, 3) == 0)
            scale = float(10.0 ** (rng.uniform(-3, 3) if rng.integers(0, 3) else rng.uniform(-200, 200)))
            if law: err = scale * (1 / np.asarray(n, dtype=float)) ** p
            if rng.integers(0, 4) == 0: law, err = False, np.arange(1, k + 1)[::-1].copy()
            a = {"n": enc(np.asarray(n, dtype=float)), "err": enc(np.asarray(err, dtype=float))}
            style = int(rng.integers(0, 5))
            if style == 0 or style == 3: n, err = retyped(n, len(s.ev) + rep), retyped(err, rep)
            gn = [n, n.tolist(), tuple(n.tolist()), n, n.tolist()][style]
            ge = [err, err, err.tolist(), tuple(err.tolist()), err.tolist()][style]
            exc, v, _ = call(numericalOrder, gn, ge) if style else call(numericalOrder, nSteps=gn, err=ge)
            r = {"exc": exc, "beta": enc(v[0] if v else None), "rmse": enc(v[1] if v else None)}
            if len(set(np.asarray(n).tolist())) < 2: continue
            s.add("num.order", a, r)
            if law and err.dtype.kind == "f" and np.ptp(np.log(np.asarray(n, dtype=float))) > 0.3:
                s.add("num.power", {"p": enc(p)}, r)
        yield s
