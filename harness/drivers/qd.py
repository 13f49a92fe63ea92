"""Sessions on QDelta generators (C19..C23)."""
import numpy as np
from .kinds import retyped
from ..rec import Session, call, enc, NONE
from .coll import interval, make, rk_schemes
from .nodes import NT, QT

TS = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
ALG = ["PIC", "Exact", "QPar", "GS", "LU", "LU2", "LDU"]
DIAG = ["MIN_SR_NS", "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5", "Jumper", "FlexJumper"]


def gens():
    from qmat.qdelta import QDELTA_GENERATORS
    return QDELTA_GENERATORS


def node_sets(rng, deep):
    """(nodes as given, tLeft or None when not given)"""
    for nt in NT:
        for qt in QT:
            for n in ([1, 2, 3, 4, 6, 9] if deep else [int(rng.integers(2, 5)), int(rng.integers(5, 8))]):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                iv = interval(rng, int(rng.integers(0, 14)))
                o = make(nt, qt, n, *iv)[1]
                if o is None: continue
                yield o.nodes, iv[0] if iv[0] else None
                if n == 4: yield [float(x) for x in o.nodes], iv[0] - 0.5
    for n in range(1, 8):
        for rep in range(6 if deep else 2):
            x = np.sort(rng.uniform(0.05, 3, n))
            yield x, None
            yield x.tolist(), float(-rng.uniform(0, 2))
            yield x + 5, float(x[0] + 5)
            yield np.cumsum(rng.integers(1, 4, n)), int(rng.integers(-3, 1))
            yield [int(i) for i in np.cumsum(rng.integers(1, 4, n))], 0.5
            yield (-np.sort(rng.uniform(0, 1, n))[::-1]).astype(np.float32), -1.25
    for sc in [1e-12, 1e-9, 1e-5, 1e6, 1e13]:
        yield np.cumsum(rng.uniform(0.1, 1, int(rng.integers(1, 7)))) * sc, [None, -sc][int(rng.integers(0, 2))]
    for n in [10, 16, 25]:
        yield np.cumsum(rng.uniform(0.01, 1, n)), None
        yield np.arange(1, n + 1), 0
    yield np.cumsum(10.0 ** rng.uniform(-10, 2, 6)), None                       # steps of very different sizes
    yield 1 + np.arange(1, 6) * 1e-10, 1.0
    yield 1e6 + np.arange(4) * 1e-3, 1e6 - 1e-3
    yield np.array([True]), None
    yield np.array([1, 3, 7], dtype=np.uint8), None
    yield np.array([2, 3], dtype=np.int8), -100
    yield np.array([100, 120, 126], dtype=np.int8), -100
    yield np.array([0.3, 0.7, 1.1], dtype=np.float16), None
    yield np.linspace(0, 1, 9)[1::2], None
    yield [1], 0
    yield (0.25, 0.5, 1), None
    yield [0.0, 0.5, 1.0], None
    yield [0, 1], None
    yield np.array([0.1, 1, 10, 100]), None
    yield np.array([1e-3, 1.0, 1.001, 2.0]), None
    # any order: stages of Runge-Kutta schemes, steps backward and of length zero
    for name in [str(x) for x in rng.permutation(list(rk_schemes()))[:20 if deep else 8]] + ["RK53", "ESDIRK43"]:
        if name in rk_schemes(): yield rk_schemes()[name].c.copy(), None
    for n in (2, 3, 5, 8):
        yield rng.permutation(n) + 1.0, [None, 0.5, 4][int(rng.integers(0, 3))]
        yield rng.integers(0, 4, n), -1
        yield np.sort(rng.uniform(0, 1, n))[::-1], 1.0


def c19(rng, deep):
    G, k = gens(), 0
    from qmat.qdelta import timestepping as mod
    for nodes, tl in node_sets(rng, deep):
        s = Session(f"c19.{k}")
        a = {"nodes": enc(np.asarray(nodes, dtype=float)), "tl": enc(float(tl or 0)), "style": k % 3}
        inc = np.all(np.diff(np.asarray(nodes, dtype=float)) > 0) and (tl or 0) <= nodes[0]
        for name in TS:
            if name == "SOE" and not inc: continue
            cls = getattr(mod, name)
            given = nodes.copy() if isinstance(nodes, np.ndarray) else type(nodes)(nodes)
            if tl is None: exc, g, _ = call(cls, given) if k % 2 else call(cls, nodes=given)
            elif k % 3 == 0: exc, g, _ = call(cls, given, tl)
            elif k % 3 == 1: exc, g, _ = call(cls, nodes=given, tLeft=tl)
            else: exc, g, _ = call(cls, given, tLeft=tl, nNodes=12, other="x")
            r = {"exc": exc}
            if g is not None:
                how = k % 4
                if how == 0: x = call(lambda: (g.getQDelta(), g.dTau))
                elif how == 1: x = call(g.genCoeffs, dTau=True)
                elif how == 2: x = call(lambda: (g.getQDelta(k=3, copy=False), g.dTau))
                else: x = call(lambda: (g.dTau, g.genCoeffs(k=1))[::-1])
                r["exc"] = x[0]
                if not x[0]: r.update(QD=enc(x[1][0]), dTau=enc(x[1][1]))
            s.add("qd.ts", {"name": name, **a}, r)
        k += 1
        yield s


def matrices(rng, deep):
    for nt in NT:
        for qt in QT:
            for n in ([1, 2, 3, 4, 5, 7, 10] if deep else [int(rng.integers(1, 5)), int(rng.integers(5, 8))]):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                o = make(nt, qt, n, *interval(rng, int(rng.integers(0, 14))))[1]
                if o is not None: yield o.Q
    for name, cls in rk_schemes().items():
        o = call(cls)[1]
        if o is not None: yield o.Q
    for n in range(1, 8):
        for rep in range(8 if deep else 2):
            A = rng.normal(size=(n, n))
            yield A
            yield A + 4 * np.diag(np.sign(rng.normal(size=n)) * n)              # no row exchange
            yield (A * 10).round().astype(int)                                   # integers
            yield retyped(rng.integers(0, 120, (n, n)), rep + n)
            yield retyped(rng.integers(-100, 120, (n, n)), rep)
            yield [[float(x) for x in row] for row in rng.uniform(0, 1, (n, n)) * 1e-6]
            B = A.copy()
            B[:, int(rng.integers(0, n))] = 0                                    # singular
            yield B
            yield np.tril(A)
            yield rng.integers(-2, 3, (n, n)).astype(float)                      # ties between pivots
            yield np.diag(rng.normal(size=n))[rng.permutation(n)]                # permutation
            yield np.asfortranarray(A)
            yield A.T
            yield A * 10.0 ** rng.integers(-13, 14)
            yield (A + 4 * np.diag(np.sign(rng.normal(size=n)) * n)) * 10.0 ** rng.choice([-100, -12, -9, 9, 12, 100])
            yield A * 10.0 ** rng.integers(-9, 10, (n, 1))
    for n in [10, 14]:
        yield rng.normal(size=(n, n))
        yield np.tril(np.ones((n, n))) / n


def c20(rng, deep):
    G, k = gens(), 0
    for Q in matrices(rng, deep):
        s = Session(f"c20.{k}")
        n = len(Q)
        for name in ALG:
            given = Q.copy(order="K") if isinstance(Q, np.ndarray) else [list(r) for r in Q]
            exc, g, _ = call(G[name], given) if k % 2 else call(G[name], Q=given, nodes=[1, 2])
            r = {"exc": exc, "QD": []}
            if g is not None:
                res = [call(g.getQDelta), call(g.getQDelta, 1), call(g.genCoeffs, k=n + 2), call(g.computeQDelta, k=5),
                       call(g.getQDelta, None, False)]
                r["exc"] = "".join(x[0] for x in res)
                r["QD"] = [enc(x[1]) for x in res]
                r["dTau"] = enc(call(lambda: g.dTau)[1])
            s.add("qd.alg", {"name": name, "Q": enc(np.asarray(Q, dtype=float))}, r)
        k += 1
        yield s


def c21(rng, deep):
    from qmat.qdelta import diag
    k = 0
    for nodes, _ in node_sets(rng, deep):
        n = len(nodes)
        for cls in ([*DIAG] if deep or getattr(nodes, "dtype", np.dtype(float)).itemsize < 4 else list(rng.permutation(DIAG))[:4]):
            s = Session(f"c21.{k}.{cls}")
            given = nodes.copy() if isinstance(nodes, np.ndarray) else type(nodes)(nodes)
            exc, g, _ = call(getattr(diag, cls), given) if k % 2 else call(getattr(diag, cls), nodes=given, tLeft=-4)
            h = s.new("diag.new", {"name": str(cls), "nodes": enc(np.asarray(nodes, dtype=float))}, {"exc": exc})
            if g is not None: history(s, h, g, rng, n)
            yield s
        k += 1
    # more nodes and sweeps than small integers hold
    for n in [130] + ([259] if deep else []):
        nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
        exc, coll, _ = make(nt, qt, n, 0, 1)
        if coll is None: continue
        for cls in ["MIN_SR_FLEX", *rng.permutation(DIAG)[:2]]:
            s = Session(f"c21.large.{n}.{cls}")
            exc, g, _ = call(diag.MIN_SR_FLEX, n, nt, qt) if cls == "MIN_SR_FLEX" else call(getattr(diag, cls), coll.nodes)
            h = s.new("diag.new", {"name": str(cls), "nodes": enc(coll.nodes), **({"stiff": NONE} if cls == "MIN_SR_FLEX" else {})}, {"exc": exc})
            for k in [None, n - 2, n] + [int(k) for k in rng.choice([1, 11, 64, 126, 127, 128, 129], 3, replace=False)]:
                exc, v, _ = call(g.getQDelta, k)
                s.add("diag.get", {"none": k is None, "k": k or 0, "how": 0}, {"exc": exc, "QD": enc(v)}, h)
            yield s
    for nt in NT:
        for qt in QT:
            for n in ([1, 2, 3, 4, 5] if deep else [int(rng.integers(2, 5))]):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                s = Session(f"c21.flex.{nt}.{qt}.{n}")
                coll, ref = make(nt, qt, n, 0, 1)[1], call(lambda: diag.MIN_SR_S(n, nt, qt).getQDelta())[1]
                exc, g, _ = call(diag.MIN_SR_FLEX, n, nt, qt)
                h = s.new("diag.new", {"name": "MIN_SR_FLEX", "nodes": enc(coll.nodes), "stiff": enc(ref)}, {"exc": exc})
                if g is not None: history(s, h, g, rng, n)
                yield s


def history(s, h, g, rng, n):
    """Requests of sweep indices in any order."""
    ks = [None, 1, 2, 3, n, n + 1, n + 2, 2 * n + 5, 0, -1, int(rng.integers(1, 50)), int(10.0 ** rng.uniform(2, 6)), 1, None]
    for j, k in enumerate(rng.permutation(np.array(ks, dtype=object))):
        if k is not None: k = int(k)
        how = int(rng.integers(0, 4))
        if how == 0: exc, v, _ = call(g.getQDelta, k)
        elif how == 1: exc, v, _ = call(g.genCoeffs, k=k)
        elif how == 2: exc, v, _ = call(lambda: g.genCoeffs(k=[k])[0])
        else: exc, v, _ = call(g.computeQDelta, k) if k is not None else call(g.computeQDelta)
        s.add("diag.get", {"none": k is None, "k": k or 0, "how": how}, {"exc": exc, "QD": enc(v)}, h)


def c22(rng, deep):
    G = gens()
    def opt(s, name, nt, qt, n, params, Q):
        exc, v, _ = call(lambda: G[name](**params).getQDelta(), timeout=120)
        s.add("qd.opt", {"name": name, "nt": nt, "qt": qt, "n": n, "Q": enc(Q)}, {"exc": exc, "QD": enc(v)})
    for nt in NT:
        for qt in QT:
            for n in range(1, 9):
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"): continue
                s = Session(f"c22.{nt}.{qt}.{n}")
                coll = make(nt, qt, n, 0, 1)[1]
                p = dict(nNodes=n, nodeType=nt, quadType=qt)
                opt(s, "MIN_SR_S", nt, qt, n, p, coll.Q)
                opt(s, "MIN_SR_NS", nt, qt, n, dict(nodes=coll.nodes), coll.Q)
                for name in ["MIN3", "MIN_VDHS"]: opt(s, name, nt, qt, n, p, coll.Q)
                if (nt, qt) == ("LEGENDRE", "RADAU-RIGHT") and n <= (8 if deep else 6): opt(s, "MIN", nt, qt, n, dict(Q=coll.Q), coll.Q)
                yield s
            s = Session(f"c22.{nt}.{qt}.tables")
            for n in [9, 10, 0, 20]:
                Q = make(nt, qt, n, 0, 1)[1].Q if n else np.zeros((1, 1))
                for name in ["MIN3", "MIN_VDHS"]: opt(s, name, nt, qt, n, dict(nNodes=n, nodeType=nt, quadType=qt), Q)
            yield s
    s = Session("c22.unknown")
    for nt, qt in [("legendre", "GAUSS"), ("LEGENDRE", "RADAU"), ("X", "")]:
        for name in ["MIN3", "MIN_VDHS"]: opt(s, name, nt, qt, 3, dict(nNodes=3, nodeType=nt, quadType=qt), np.zeros((1, 1)))
    yield s


NAMES = ["BE", "IE", "FE", "TRAP", "CN", "BEPAR", "TRAPAR", "SOE", "LF", "PIC", "Picard", "Exact", "LU", "LU2", "QPar", "Qdiag", "GS",
         "MIN-SR-NS", "MIN_SR_NS", "MIN-SR-S", "MIN-SR-FLEX", "MIN_SR_FLEX", "Jumper", "FB", "FlexJumper", "FB2", "DNODES", "DNODES-3"]
DEP = ["MIN-SR-FLEX", "MIN_SR_FLEX", "Jumper", "JUMPER", "FlexJumper", "FLEX-JUMPER"]


def ref(G, cache, name, k, form, params):
    """Matrix of one approximation for one index, from an instance used for nothing else."""
    key = (name, k, form)
    if key not in cache:
        g = G[name](**params)
        g = G[name](**params)
        v = call(g.getQDelta if form == "Z2N" else g.getSDelta, *([] if k is None else [k]))[1]
        cache[key] = enc(v)
    return cache[key]


def owned(v):
    """Can the matrix of one sweep be changed without the others?"""
    if not isinstance(v, np.ndarray) or v.ndim != 3: return True
    return bool(v.flags.writeable) and not any(np.may_share_memory(a, b) and np.shares_memory(a, b) for i, a in enumerate(v) for b in v[:i])


def c23(rng, deep):
    from qmat.qdelta import genQDeltaCoeffs
    G = gens()
    confs = [("LEGENDRE", "RADAU-RIGHT", 3, (0, 1)), ("EQUID", "LOBATTO", 4, (0, 1)), ("CHEBY-1", "GAUSS", 2, (1, 3)),
             ("LEGENDRE", "GAUSS", 1, (0, 1)), ("CHEBY-3", "RADAU-LEFT", 3, (-1, 0.5)),
             ("LEGENDRE", "RADAU-RIGHT", 5, (0, 1)), ("CHEBY-2", "LOBATTO", 7, (0, 2))]
    for rep in range(120 if deep else 42):
        nt, qt, n, iv = confs[rep % len(confs)]
        coll = make(nt, qt, n, *iv)[1]
        params = [dict(qGen=coll), dict(qGen=coll, Q=coll.Q.copy()), dict(nodes=coll.nodes, tLeft=iv[0], Q=coll.Q, nNodes=n, nodeType=nt, quadType=qt)][rep % 3]
        s, cache = Session(f"c23.{rep}"), {}
        for _ in range(8):
            single = bool(rng.integers(0, 3) == 0)
            ln = 1 if single else int(rng.integers(0, 5))
            pool = NAMES if rng.integers(0, 2) else DEP + NAMES[:4]
            names = [str(x) for x in rng.choice(pool, ln)]
            known = True
            if rng.integers(0, 12) == 0 and names:
                names[int(rng.integers(0, ln))] = str(rng.choice(["", "be", "Unknown", "MIN-SR", "BE "]))
                known = False
            form = str(rng.choice(["Z2N", "N2N", "Z2N", "N2N", "Z2N", "N2N", "Z2N", "N2N", "N2Z", "z2n"]))
            u = int(rng.integers(0, 12))
            nsw = None if u < 3 else int(rng.integers(1, max(ln, 1) + 4)) if u < 10 else [0, -1, 2.0, "2", 1.5, []][int(rng.integers(0, 6))]
            dtau = bool(rng.integers(0, 2))
            a = {"single": single, "names": names, "known": known, "form": form, "dTau": dtau,
                 "n": 0 if nsw is None else nsw if isinstance(nsw, int) and nsw > 0 else -1}
            total = a["n"] if a["n"] > 0 else ln
            ok = known and ln and form in ("Z2N", "N2N")
            a["refs"] = [[ref(G, cache, m, k + 1, form, params) for k in range(total)] for m in names] if ok else []
            a["plain"] = ref(G, cache, names[0], None, form, params) if ok else NONE
            a["dTauRef"] = enc(call(lambda: G[names[0]](**params).dTau)[1]) if ok else NONE
            arg = names[0] if single else list(names)
            kw = dict(params)
            if nsw is not None or rng.integers(0, 2): kw["nSweeps"] = nsw
            exc, v, _ = call(genQDeltaCoeffs, arg, form=form, dTau=dtau, **kw)
            r = {"exc": exc, "size": n, "parts": len(v) if isinstance(v, (list, tuple)) else 1}
            v = v if isinstance(v, (list, tuple)) else [v]
            r["own"] = owned(v[0])
            r["QD"], r["dTau"] = enc(v[0]), enc(v[1] if len(v) > 1 else None)
            s.add("qd.multi", a, r)
        # one generator, a list of indices
        for _ in range(3):
            name, form = str(rng.choice(NAMES + DEP)), str(rng.choice(["Z2N", "N2N", "Z2N", "N2N", "x"]))
            ks = [int(x) for x in rng.integers(1, 8, int(rng.integers(1, 5)))]
            g = G[name](**params)
            dtau = bool(rng.integers(0, 2))
            exc, v, _ = call(g.genCoeffs, [ks, tuple(ks), np.array(ks), range(1, 4)][len(ks) % 4], form, dtau)
            if len(ks) % 4 == 3: ks = [1, 2, 3]
            v = v if isinstance(v, (list, tuple)) else [v]
            r = {"exc": exc, "size": n, "parts": len(v), "own": owned(v[0]), "QD": enc(v[0]), "dTau": enc(v[1] if len(v) > 1 else None)}
            refs = [ref(G, cache, name, k, form, params) for k in ks] if form != "x" else []
            s.add("qd.multigen", {"name": name, "ks": str(ks), "form": form, "dTau": dtau, "refs": refs,
                                  "dTauRef": enc(call(lambda: G[name](**params).dTau)[1])}, r)
        yield s
