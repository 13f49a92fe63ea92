"""Functions asked with arrays of the caller, who changes their content and overwrites earlier results (C43)."""
import json
import os
import numpy as np
from ..rec import Session, call, enc
from .ses import flat, in_child, shares


def points(rng, n, lo=0.0, hi=1.0):
    return lo + (hi - lo) * (np.cumsum(rng.uniform(0.4, 1.6, n)) - 0.2) / (1.6 * n)


def functions(rng):
    """(label, {argument: shape maker}, function of the arrays); makers give contents of one shape."""
    import qmat
    from qmat import genQDeltaCoeffs, genQCoeffs
    from qmat.lagrange import LagrangeApproximation as LA, computeFejerRule, getSparseInterpolationMatrix
    from qmat.nodes import NodesGenerator
    from qmat.qcoeff.collocation import Collocation
    from qmat.qdelta import QDELTA_GENERATORS
    from qmat.utils import num, sdc
    from .coll import rk_schemes
    from .nodes import NT, QT
    n = int(rng.integers(2, 6))
    nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
    alg = str(rng.choice(["AUTO", "STABLE", "CHEBFUN", "FAST"]))
    x0 = points(rng, n)
    ints = lambda: np.sort(rng.choice(np.arange(12), n, replace=False)).astype(float)
    x = lambda: points(rng, n) if rng.integers(0, 2) else ints() / 12 + 0.01
    def t():
        v = rng.uniform(0, 1, 3)
        if rng.integers(0, 3) == 0: v[:2] = x0[:2]
        return v
    f = lambda: rng.normal(size=n)
    iv = lambda: rng.uniform(0, 1, (2, 2))
    def A():
        a = rng.normal(size=(n, n)) + 3 * np.eye(n)
        return [lambda a: a, lambda a: a, np.tril, np.triu, lambda a: np.diag(np.diag(a)), lambda a: np.eye(n), lambda a: np.tril(a, -1) + np.eye(n), lambda a: np.triu(a, 1) + np.eye(n)][int(rng.integers(0, 8))](a)
    coll = Collocation(n, nt, qt)
    Q = lambda: Collocation(n, str(rng.choice(NT)), str(rng.choice(["GAUSS", "RADAU-RIGHT"]))).Q
    def T():
        a = np.tril(rng.uniform(0.1, 0.5, (n, n)))
        return [lambda a: a, lambda a: np.diag(np.diag(a)), lambda a: a * 0, lambda a: np.eye(n)][int(rng.integers(0, 4))](a)
    lam = lambda: np.array(-rng.uniform(0.1, 2) + 1j * rng.uniform(-1, 1))
    rk = str(rng.choice(list(rk_schemes())))
    scheme = rk_schemes()[rk]()
    gen = NodesGenerator(nt, qt)
    m = n + 2
    coeffs = call(gen.getOrthogPolyCoefficients, m)[1]
    la, laf = LA(x0.copy()), LA(x0.copy(), fValues=f())
    rows = str(rng.choice([q.__name__ for q in {QDELTA_GENERATORS[k] for k in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "MIN_SR_NS", "Jumper")}]))
    alge = str(rng.choice(["LU", "LU2", "LDU", "PIC", "Exact", "GS", "QPar"]))
    K = int(rng.integers(1, 4))
    D = [np.tril(rng.uniform(0.1, 0.5, (n, n))) for _ in range(K)]
    out = [
        ("interpolation of new points", dict(x=x, t=t), lambda x, t: LA(x, weightComputation=alg).getInterpolationMatrix(t)),
        ("integration of new points", dict(x=x, iv=iv), lambda x, iv: LA(x, scaleWeights=True).getIntegrationMatrix(iv)),
        ("derivatives of new points", dict(x=x), lambda x: LA(x, weightComputation=alg).getDerivativeMatrix("ALL")),
        ("values of new points", dict(x=x, f=f, t=t), lambda x, f, t: LA(x, fValues=f)(t)),
        ("interpolation", dict(t=t), lambda t: la.getInterpolationMatrix(t)),
        ("integration", dict(iv=iv), lambda iv: la.getIntegrationMatrix(iv, "LEGENDRE_NUMPY")),
        ("evaluation", dict(t=t, f=f), lambda t, f: la(t, f)),
        ("evaluation of given values", dict(t=t), lambda t: laf(t)),
        ("derivatives", {}, lambda: la.getDerivativeMatrix("ALL")),
        ("sparse", dict(x=x, t=t), lambda x, t: getSparseInterpolationMatrix(x, t, 2).toarray()),
        ("sparse periodic", dict(x=x, t=t), lambda x, t: getSparseInterpolationMatrix(x, t, n, 1.5).toarray()),
        ("LDU", dict(A=A), num.lduFactorization),
        ("extrapolation", dict(x=x, t=lambda: rng.uniform(1, 2, 2)), lambda x, t: num.getExtrapolationMatrix(x, t)),
        ("extrapolation to the nodes", dict(x=x), lambda x: num.getExtrapolationMatrix(x, x)),
        ("extrapolation to the same nodes", dict(x=x), lambda x: num.getExtrapolationMatrix(x, x.copy(), [None, n - 1][n % 2])),
        ("extrapolation of all orders", dict(x=x, t=t), lambda x, t: [num.getExtrapolationMatrix(x, t, p) for p in range(n)]),
        ("interpolation at the points", dict(x=x), lambda x: LA(x, weightComputation=alg).getInterpolationMatrix(x)),
        ("sparse at the points", dict(x=x), lambda x: getSparseInterpolationMatrix(x, x, n).toarray()),
        ("integration of nothing", dict(x=x), lambda x: LA(x).getIntegrationMatrix([(x[0], x[0]), (0, 0)])),
        ("Fejer rule", {}, lambda: list(computeFejerRule(n + 1))),
        ("nodes", {}, lambda: gen.getNodes(n + 1)),
        ("recurrence", {}, lambda: list(gen.getTridiagCoefficients(n + 1)) + list(gen.getOrthogPolyCoefficients(n))),
        ("collocation coefficients", {}, lambda: list(genQCoeffs("Collocation", form=["Z2N", "N2N"][n % 2], hCoeffs=True, nNodes=n, nodeType=nt, quadType=qt))),
        (f"coefficients of {rk}", {}, lambda: list(genQCoeffs(rk, form=["Z2N", "N2N"][n % 2]))),
        (f"matrices of {rk}", {}, lambda: [scheme.T, scheme.Tinv, scheme.S]),
        ("stored diagonals", {}, lambda: list(genQDeltaCoeffs(["MIN3", "MIN_SR_FLEX", "MIN_SR_S", "MIN_VDHS"][n % 4], nSweeps=3, dTau=True, nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT"))),
        ("several names", dict(Q=Q, x=x), lambda Q, x: list(genQDeltaCoeffs([rows, alge, "PIC"], nSweeps=4, dTau=True, Q=Q, nodes=x))),
        ("numerical order", dict(k=lambda: np.array([2.0, 4, 8, 16]) * rng.integers(1, 4), e=lambda: 2.0 ** -np.cumsum(rng.uniform(1, 3, 4))), lambda k, e: num.numericalOrder(k, e)),
        (f"solver of {rk}", dict(lam=lam), lambda lam: scheme.solveDahlquist(lam, 1.0, 1.0, 2)),
        (f"error of {rk}", dict(lam=lam), lambda lam: scheme.errorDahlquist(lam, 1.0, 1.0, 2)),
        ("solver of collocation", dict(lam=lam), lambda lam: coll.solveDahlquist(lam, 1.0, 1.0, 2)),
        ("SDC", dict(Q=Q, T=T), lambda Q, T: sdc.solveDahlquistSDC(-1 + 1j, 1.0, 1.0, 2, K, Q, T)),
        ("SDC with weights", dict(Q=Q, T=T, w=f), lambda Q, T, w: sdc.solveDahlquistSDC(-1 + 1j, 1.0, 1.0, 2, K, Q, T, w)),
        ("SDC of several matrices", dict(Q=Q, T=lambda: np.array([T() for _ in range(K)])), lambda Q, T: sdc.solveDahlquistSDC(-1, 1.0, 1.0, 2, K, Q, T)),
        ("SDC monitors", dict(Q=Q, T=T), lambda Q, T: list(sdc.solveDahlquistSDC(-1, 1.0, 1.0, 2, K, Q, T, monitors=["residuals", "errors"])[1].values())),
        ("SDC error", dict(Q=Q, T=T), lambda Q, T: sdc.errorDahlquistSDC(-1, 1.0, 1.0, 2, K, Q, T)),
        (f"{rows} of nodes", dict(x=x), lambda x: genQDeltaCoeffs(rows, nodes=x) if rows != "Jumper" else genQDeltaCoeffs(rows, nSweeps=3, nodes=x)),
        (f"{rows} and the first step", dict(x=x), lambda x: list(QDELTA_GENERATORS[rows](nodes=x).genCoeffs(1, "N2N", True))),
        ("first steps", dict(x=x), lambda x: [QDELTA_GENERATORS[q](nodes=x, tLeft=-0.5).dTau for q in ("FE", "TRAP", "TRAPAR", "SOE", "BE")]),
        (f"{rows} object of nodes", dict(x=x), lambda x: QDELTA_GENERATORS[rows](nodes=x).genCoeffs(2, "N2N")),
        (f"{alge} of Q", dict(Q=Q), lambda Q: genQDeltaCoeffs(alge, nSweeps=2, Q=Q)),
        (f"{alge} object of Q", dict(Q=Q), lambda Q: QDELTA_GENERATORS[alge](Q=Q).getSDelta()),
    ]
    if coeffs is not None:
        out.append(("polynomials", dict(t=t), lambda t: list(gen.evalOrthogPoly(t, *coeffs))))
    return out




def c43(rng, deep):
    """Generated sessions: three functions, two sets of arrays with three contents each."""
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    for b, log in enumerate(rows):
        s = Session(f"c43.{b}")
        fs = functions(rng)
        pick = [fs[int(i)] for i in rng.choice(len(fs), 3, replace=False)]
        if rng.integers(0, 2): pick[1] = pick[0]
        contents = {(f, c): {k: mk() for k, mk in pick[f][1].items()} for f in range(3) for c in (1, 2, 3)}
        if pick[1] is pick[0]:
            for c in (1, 2, 3): contents[1, c] = contents[0, c]
        # the answer for a content: in a process which does nothing else, for arrays used for nothing else
        need = sorted({(st["f"] - 1, st["c"]) for st in log if st["op"] == "ask"})
        def refs():
            out = []
            for f, c in need:
                def one():
                    exc, v, _ = call(lambda: flat(pick[f][2](**{k: a.copy() for k, a in contents[f, c].items()})))
                    return exc, [enc(x) for x in v or []]
                out.append(in_child(one))
            return out
        for (f, c), (exc, v) in zip(need, refs()):
            s.add("ses.ref", {"gen": f"{f}", "call": f"{c}", "what": f"{pick[f][0]} {c}"}, {"exc": exc, "v": v})
        held = {}                 # (function, buffers) -> arrays of the caller
        for f in range(3):
            for k in (1, 2):
                held[f, k] = held[0, k] if f == 1 and pick[1] is pick[0] else {a: v.copy() for a, v in contents[f, 1].items()}
        results = {}
        for i, st in enumerate(log, 1):
            if st["op"] == "fill":
                for f in range(3):
                    for a, v in held[f, st["b"]].items(): v[...] = contents[f, st["c"]][a]
            elif st["op"] == "write":
                for a in results[st["b"]]:
                    if a.flags.writeable: a[...] = -3.25
            else:
                f = st["f"] - 1
                args = held[f, st["b"]]
                exc, v, _ = call(lambda: flat(pick[f][2](**args)))
                v = v or []
                mine = [a for h in held.values() for a in h.values()] + [a for r in results.values() for a in r]
                shared = any(shares(a, mine) or shares(a, v[:j]) or not a.flags.writeable for j, a in enumerate(v))
                s.add("own.call", {"gen": f"{f}", "call": f"{st['c']}", "kind": pick[f][0]}, {"exc": exc, "v": [enc(x) for x in v], "shared": bool(shared)})
                results[i] = v
        yield s
