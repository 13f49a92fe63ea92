"""Sessions on generators: independence of the call history (C24), arguments kept (C33)."""
import json
import os
import pickle
import types
import numpy as np
from ..rec import Session, call, enc, NONE
from .coll import make, rk_schemes, user_generator
from .nodes import NT, QT


# ------------------------------- generators ------------------------------------
def specs(rng):
    """Three generators (kind, class name, parameters) of one session: the second often shares its class with another."""
    from qmat.qdelta import QDELTA_GENERATORS
    from qmat.utils import getClasses
    qd = [c.__name__ for c in getClasses(QDELTA_GENERATORS).values()]
    rk = list(rk_schemes())

    def coll():
        n = int(rng.integers(2, 5))
        return dict(nNodes=n, nodeType=str(rng.choice(NT)), quadType=str(rng.choice(QT)), tLeft=0.0, tRight=float(rng.choice([1, 1, 0.5, 2])))

    def one(kind=None, name=None):
        kind = kind or str(rng.choice(["QD", "QD", "QD", "RK", "COLL", "NODES", "LAGRANGE"]))
        if kind == "NODES": return ("NODES", "", dict(nodeType=str(rng.choice(NT)), quadType=str(rng.choice(QT))))
        if kind == "LAGRANGE":
            x = np.round(np.cumsum(rng.uniform(0.2, 1, int(rng.integers(2, 6)))), 3)
            if rng.integers(0, 3) == 0: x[1] = x[0]
            return ("LAGRANGE", "", dict(points=x.tolist(), weightComputation=str(rng.choice(["AUTO", "FAST", "STABLE", "CHEBFUN"])), duplicates=str(rng.choice(["USE_LEFT", "USE_RIGHT"])),
                                         fValues=[None, rng.normal(size=x.size).tolist()][int(rng.integers(0, 2))]))
        if kind == "COLL": return ("COLL", "Collocation", coll())
        if kind == "RK": return ("RK", name or str(rng.choice(rk)), dict(padding=[None, "LEFT", "RIGHT", "BOTH"][int(rng.integers(0, 4))]))
        name = name or str(rng.choice(qd))
        if name in ("MIN3", "MIN_VDHS", "MIN"): p = dict(nNodes=int(rng.integers(2, 4)), nodeType="LEGENDRE", quadType="RADAU-RIGHT", tLeft=0.0, tRight=1.0)
        else: p = coll()
        return ("QD", name, p)

    families = [["LU", "LU2", "LDU"], ["DNODES", "DNODES2", "DNODES3", "DNODES5"], ["MIN_SR_S", "MIN_SR_FLEX"], ["Jumper", "FlexJumper", "MIN_SR_NS"],
                ["MIN3", "MIN_VDHS"], ["BE", "FE", "TRAP"], ["BEPAR", "TRAPAR"], ["PIC", "Exact", "QPar", "GS"], ["BE", "BE", "SOE"]]
    u = rng.integers(0, 4)
    if u == 0:
        f = families[int(rng.integers(0, len(families)))]
        out = [one("QD", str(x)) for x in rng.choice(f, 3)]
    elif u == 1:
        a = one()
        out = [a, one(), one(a[0], a[1])]
    else:
        out = [one() for _ in range(3)]
    return out


def create(spec):
    kind, name, p = spec
    if kind == "COLL": return call(__import__("qmat").Q_GENERATORS["coll"], **p)[:2]
    if kind == "RK": return call(rk_schemes()[name], **p)[:2]
    if kind == "NODES": return call(__import__("qmat.nodes").nodes.NodesGenerator, **p)[:2]
    if kind == "LAGRANGE": return call(__import__("qmat.lagrange").lagrange.LagrangeApproximation, **p)[:2]
    from qmat.qdelta import QDELTA_GENERATORS
    exc, g, _ = call(__import__("qmat").Q_GENERATORS["Collocation"], **p)
    if exc: return exc, None
    return call(QDELTA_GENERATORS[name], qGen=g)[:2]


def flat(x):
    """The arrays of a result."""
    if x is None: return []
    if isinstance(x, (list, tuple)): return [np.asarray(y) for y in x]
    return [np.asarray(x)]


def do(spec, o, kind, k):
    """(exception, arrays, kind of call)"""
    c, name, p = spec
    from qmat import genQCoeffs, genQDeltaCoeffs
    if c == "QD":
        n = p["nNodes"]
        kk = [None, 1, 2, n + 1, 0][k]
        g = None
        if kind == 7:
            g = call(__import__("qmat").Q_GENERATORS["Collocation"], **p)[1]
        f = [lambda: o.getQDelta(kk, copy=False), lambda: o.getQDelta(kk), lambda: o.getSDelta(kk),
             lambda: o.genCoeffs(kk, dTau=True), lambda: o.genCoeffs([[1, 2, 3], [2], (1,), range(1, n + 2), np.array([n + 1, 1])][k], form="N2N" if k % 2 else "Z2N"),
             lambda: o.genCoeffs(kk, "N2N", True), lambda: genQDeltaCoeffs(name, nSweeps=kk or None, dTau=True, qGen=g)][kind - 1]
    elif c == "NODES":
        f = [lambda: o.getNodes(k + 1), lambda: o.getTridiagCoefficients(k + 1), lambda: o.getOrthogPolyCoefficients(k + 1), lambda: o.getNodes(4),
             lambda: o.evalOrthogPoly([0.1 * k, -1, 1], *o.getTridiagCoefficients(4)), lambda: o.getOrthogPolyCoefficients(4), lambda: o.evalOrthogPoly(0.3, *o.getOrthogPolyCoefficients(k + 1))][kind - 1]
    elif c == "LAGRANGE":
        t = [0.3 * k, o.points[0], 1.0, o.points[-1]]
        f = [lambda: o.getInterpolationMatrix(t, k != 2), lambda: o.getIntegrationMatrix([(0, 0.5 * k), (0.1, 1)], ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"][k % 3], k != 2), lambda: o.getDerivativeMatrix([1, 2, "ALL"][k % 3], k != 1),
             lambda: o(np.array(t), np.arange(o.nPoints) * 1.0 + k), lambda: o(np.array([t, t]).T), lambda: o.getDerivativeMatrix("ALL"), lambda: [o(0.25 * k, np.ones(o.nPoints)), o.nPoints, o.nUniquePoints, o.hasDuplicates]][kind - 1]
    else:
        f = [lambda: o.solveDahlquist(-1 + 0.5j * k, 1.0, 1.0, 3), lambda: o.genCoeffs(form="N2N"), lambda: o.genCoeffs(hCoeffs=True),
             lambda: o.genCoeffs(embedded=True), lambda: genQCoeffs(name, hCoeffs=k % 2 == 0, **p),
             lambda: o.genCoeffs("N2N", True, k > 2), lambda: o.genCoeffs()][kind - 1]
    exc, v, _ = call(f)
    return exc, flat(v)


LABEL = {"QD": ["nocopy", "getQDelta", "getSDelta", "genCoeffs", "genCoeffs-list", "genCoeffs-N2N", "genQDeltaCoeffs"]}


def label(spec, kind):
    if spec[0] in ("NODES", "LAGRANGE"): return f"request {kind}"
    return LABEL[spec[0]][kind - 1] if spec[0] == "QD" else ["solve", "genCoeffs-N2N", "genCoeffs", "genCoeffs-embedded", "genQCoeffs", "genCoeffs-all", "genCoeffs"][kind - 1]


def in_child(f):
    """Result of f in a forked process: nothing it does is seen by this one."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as out: pickle.dump(f(), out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as inp: data = inp.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


# ------------------------------- shared arrays ----------------------------------
def arrays_of(o, depth=4, seen=None):
    """All arrays reachable from the attributes of an object and of its classes."""
    seen = set() if seen is None else seen
    if id(o) in seen or depth < 0: return []
    seen.add(id(o))
    if isinstance(o, np.ndarray): return [o]
    if isinstance(o, dict): return [a for x in list(o.values()) for a in arrays_of(x, depth - 1, seen)]
    if isinstance(o, (list, tuple)): return [a for x in o for a in arrays_of(x, depth - 1, seen)]
    if isinstance(o, type):
        return arrays_of(dict(vars(o)), depth, seen) if o.__module__.startswith("qmat") else []
    if isinstance(o, (types.FunctionType, types.MethodType)):
        f = getattr(o, "__func__", o)
        cells = [c.cell_contents for c in (f.__closure__ or ()) if c is not None] if f.__module__ and f.__module__.startswith("qmat") else []
        return arrays_of([*cells, *(f.__defaults__ or ())], depth - 1, seen)
    if type(o).__module__.startswith("qmat"):
        out = arrays_of(dict(getattr(o, "__dict__", {})), depth, seen)
        for c in type(o).__mro__: out += arrays_of(c, depth - 1, seen)
        return out
    return []


def modules_arrays():
    import sys
    out, seen = [], set()
    for name, m in list(sys.modules.items()):
        if name.startswith("qmat"):
            for k, v in list(vars(m).items()):
                if k.startswith("__"): continue
                if isinstance(v, (np.ndarray, dict, list, tuple)): out += arrays_of(v, 3, seen)
    return out


def shares(a, others):
    return any(a.size and b.size and np.may_share_memory(a, b) and np.shares_memory(a, b) for b in others)


def c24(rng, deep):
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    if not deep: rows = rows[:60]
    plans = []
    for log in rows:
        gens = specs(rng)
        need = sorted({(g["g"], g["kind"], g["k"]) for g in log if g["op"] == "call"})
        plans.append((log, gens, need))

    def references(part):
        """Every reference on an instance used for nothing else, in its own process."""
        memo = {}
        out = []
        for log, gens, need in part:
            refs = {}
            for g, kind, k in need:
                spec = gens[g - 1]
                key = json.dumps([spec, kind, k])
                if key not in memo:
                    def one(spec=spec, kind=kind, k=k):
                        exc, o = create(spec)
                        if exc: return exc, []
                        exc, v = do(spec, o, kind, k)
                        return exc, [enc(x) for x in v]
                    memo[key] = in_child(one)
                refs[g, kind, k] = memo[key]
            out.append(refs)
        return out
    refs = references(plans)
    everything = []                    # arrays returned so far, in all sessions of this process
    for n, (log, gens, need) in enumerate(plans):
        s = Session(f"c24.{n}")
        for (g, kind, k), (exc, v) in refs[n].items():
            s.add("ses.ref", {"gen": f"{g}", "call": f"{kind}.{k}", "what": f"{gens[g-1]} {label(gens[g-1], kind)}"}, {"exc": exc, "v": v})
        insts, results, bad = [], [], set()
        returned = []
        for st in log:
            if st["op"] == "new":
                exc, o = create(gens[st["g"] - 1])
                insts.append((gens[st["g"] - 1], o))
                if exc: bad.add(len(insts))
                # a combination that is refused: its calls are skipped
                s.add("ses.new", {"gen": f"{st['g']}"}, {"exc": ""})
            elif st["op"] == "call":
                spec, o = insts[st["i"] - 1]
                if st["i"] in bad:
                    results.append(None)
                    continue
                exc, v = do(spec, o, st["kind"], st["k"])
                lab = label(spec, st["kind"])
                inner = arrays_of(o) + modules_arrays() + sum((arrays_of(x) for _, x in insts if x is not None), [])
                shared = any(shares(a, inner) or shares(a, returned) or shares(a, v[:j]) or not a.flags.writeable for j, a in enumerate(v))
                returned += v
                results.append((v, lab))
                s.add("ses.call", {"gen": f"{st['g']}", "call": f"{st['kind']}.{st['k']}", "kind": lab}, {"exc": exc, "v": [enc(x) for x in v], "shared": bool(shared)})
            else:
                hit = results[st["j"] - 1]
                if hit is not None and hit[1] != "nocopy":
                    for a in hit[0]:
                        if a.flags.writeable: a[...] = -77.25 if st["j"] % 2 or a.dtype.kind not in "fc" else np.nan
                    s.add("ses.write", {"j": st["j"]}, {"exc": ""})
        everything.append(returned)
        yield s


# ------------------------------- arguments kept ----------------------------------
def text(o):
    """Everything about an argument its values do not tell."""
    if isinstance(o, np.ndarray): return f"array {o.dtype} {o.shape} {o.flags.writeable}"
    if isinstance(o, (list, tuple)): return f"{type(o).__name__}[{', '.join(text(x) for x in o)}]"
    if isinstance(o, dict): return "{" + ", ".join(f"{k!r}: {text(v)}" for k, v in o.items()) + "}"
    if isinstance(o, (int, float, complex, str, bool, type(None), np.generic)): return f"{type(o).__name__} {o!r}"
    return type(o).__name__


def parts(name, o):
    """(name, value) of the arrays and texts of an argument (of a generator: of everything it holds)."""
    if type(o).__module__.startswith("qmat"):
        out = []
        for cls in type(o).__mro__[::-1]:
            for k, v in vars(cls).items():
                if isinstance(v, np.ndarray): out.append((f"{name}.{cls.__name__}.{k}", v))
        for k, v in vars(o).items():
            if isinstance(v, (np.ndarray, list, tuple, dict, int, float, str, bool, type(None), np.generic)): out.append((f"{name}.{k}", v))
            elif type(v).__module__.startswith("qmat"): out += parts(f"{name}.{k}", v)
        return out
    return [(name, o)]


def recorded(args):
    out = []
    for name, o in args.items():
        for n, v in parts(name, o):
            num = isinstance(v, (np.ndarray, list, tuple, int, float, complex, np.generic)) and not isinstance(v, str)
            out.append({"name": n, "v": enc(v) if num else NONE, "text": text(v)[:2000]})
    return out


class Kept:
    def __init__(self, name): self.s, self.args = Session(name), {}

    def __call__(self, what, f, **args):
        before = recorded(args)
        exc = call(f)[0]
        after = recorded(args)
        # attributes created later (caches) are not arguments
        names = {a["name"] for a in before}
        self.s.add("ses.args", {"call": what, "args": before}, {"exc": exc, "args": [a for a in after if a["name"] in names]})


def vecs(rng, n, lo=0.0, hi=1.0, inc=True):
    """The same numbers as several kinds of containers."""
    x = rng.uniform(lo, hi, n)
    if inc: x = np.sort(x)
    yield x.copy()
    yield x.tolist()
    yield tuple(x.tolist())
    yield np.ascontiguousarray(x.astype(np.float32))
    yield np.arange(1, n + 1)
    yield list(range(1, n + 1))
    yield np.column_stack([x, x])[:, 0]
    yield rng.permutation(x)
    yield np.concatenate([x, x[:1]])
    y = x.copy()
    y[0] = lo
    yield y


def frozen(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


def c33(rng, deep):
    from qmat.lagrange import LagrangeApproximation, computeFejerRule, getSparseInterpolationMatrix
    from qmat.nodes import NodesGenerator
    from qmat import genQCoeffs, genQDeltaCoeffs, Q_GENERATORS, QDELTA_GENERATORS
    from qmat.qcoeff.collocation import Collocation
    from qmat.utils import getClasses, num, sdc
    reps = 4 if deep else 1
    for rep in range(reps):
        k = Kept(f"c33.lagrange.{rep}")
        for n in (1, 2, 3, 5):
            for pts in vecs(rng, n, -1, 1):
                for kw in ({}, {"weightComputation": "STABLE"}, {"weightComputation": "FAST", "scaleWeights": True}, {"weightComputation": "CHEBFUN"},
                           {"weightComputation": "STABLE", "scaleRef": "ZERO"}, {"duplicates": "USE_RIGHT"}, {"duplicates": False}, {"weightComputation": "oops"}):
                    fv = rng.normal(size=len(pts)) if rng.integers(0, 2) else rng.normal(size=len(pts)).tolist()
                    times = [np.array([0.25, 0.5]), [0.1, float(np.asarray(pts)[0]), 2.0], np.array([[0.1, 0.2], [0.3, 0.4]])][int(rng.integers(0, 3))]
                    ints = [[(0, 1), (0.5, 0.2)], np.array([[0, 1.0], [1.0, -1.0]]), [[0.0, 0.0]]][int(rng.integers(0, 3))]
                    fv2 = rng.normal(size=len(pts))
                    def f():
                        a = LagrangeApproximation(pts, fValues=fv, **kw)
                        a.getInterpolationMatrix(times)
                        for q in ("LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER", "oops"): call(a.getIntegrationMatrix, ints, numQuad=q)
                        call(a.getDerivativeMatrix, "ALL")
                        a(times)
                        a(times, fv2)
                        call(a, times, fValues=fv2[1:])
                    k("lagrange", f, points=pts, fValues=fv, options=kw, times=times, intervals=ints, fValuesCall=fv2)
        yield k.s
        k = Kept(f"c33.nodes.{rep}")
        for nt in NT:
            for qt in QT:
                g = call(NodesGenerator, nt, qt)[1]
                for n in (1, 3, 6):
                    al, be = rng.normal(size=n), rng.uniform(0.1, 1, n)
                    if rng.integers(0, 3) == 0: al, be = al.tolist(), be.tolist()
                    t = [rng.normal(size=3), [0.5, 0.25], 0.125, rng.normal(size=(2, 2))][int(rng.integers(0, 4))]
                    k("evalOrthogPoly", lambda: g.evalOrthogPoly(t, al, be), t=t, alpha=al, beta=be)
                    a2, b2 = rng.normal(size=n + 1), rng.uniform(0.1, 1, n + 1)
                    k("nodes", lambda: [call(x) for x in (lambda: g.evalOrthogPoly(0.5, a2, b2), lambda: g.getNodes(n), lambda: g.getOrthogPolyCoefficients(n), lambda: g.getTridiagCoefficients(n))], alpha=a2, beta=b2)
        yield k.s
        k = Kept(f"c33.sparse.{rep}")
        for n in (3, 6):
            for xi in vecs(rng, n):
                for xo in ([0.2, 0.7], rng.uniform(-3, 3, 4), np.array([1, 2])):
                    for kw in ({}, {"order": 2}, {"order": 3, "gridPeriod": 2.0}, {"order": 40}, {"order": n}):
                        k("sparse", lambda: getSparseInterpolationMatrix(xi, xo, **({"order": 2} | kw)), inGrid=xi, outGrid=xo, options=kw)
            k("fejer", lambda: computeFejerRule(n), n=n)
        yield k.s
        # generators of coefficients, and generators given to others
        k = Kept(f"c33.qgen.{rep}")
        for params in (dict(nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT"), dict(nNodes=4, nodeType="EQUID", quadType="LOBATTO", tLeft=1, tRight=3),
                       dict(nNodes=0, nodeType="LEGENDRE", quadType="GAUSS")):
            for form in ("Z2N", "N2N", "oops"):
                k("genQCoeffs", lambda: genQCoeffs("coll", form=form, hCoeffs=True, **params), params=params)
        for name in ("RK4", "ESDIRK53", "oops"):
            params = {"padding": "BOTH"}
            k("genQCoeffs", lambda: genQCoeffs(name, embedded=True, **params), params=params)
        gens = [("coll", Collocation(3, "LEGENDRE", "RADAU-RIGHT")), ("coll2", Collocation(4, "CHEBY-1", "LOBATTO", 1, 2)), ("rk", rk_schemes()["RK4"](padding="LEFT")),
                ("irk", rk_schemes()["GAUSS_LG"]()), ("rk2", rk_schemes()["SDIRK3"]()), ("user", user_generator(rng, 4))]
        for label_, g in gens:
            k("qgen-methods", lambda: [g.genCoeffs(), g.genCoeffs("N2N", True), g.solveDahlquist(-1, 1, 1, 2), g.errorDahlquist(-1j, 1, 1, 2), call(g.genCoeffs, "oops")], qGen=g)
            u = rng.normal(size=4) + 0j
            k("errorDahlquist", lambda: g.errorDahlquist(1j, 1, 1, 3, uNum=u), qGen=g, uNum=u)
            k("errorDahlquist", lambda: g.errorDahlquist(1j, 1, 1, 7, uNum=u), qGen=g, uNum=u)
            for name, cls in getClasses(QDELTA_GENERATORS).items():
                extra = [{}, {"nodes": [0.1, 0.5, 1.0]}, {"Q": rng.normal(size=(3, 3))}][int(rng.integers(0, 3))]
                def f():
                    o = cls(qGen=g, **extra)
                    for j in (None, 1, 2):
                        a = o.getQDelta(j)
                        a += 1
                        o.getSDelta(j)
                    for x in o.genCoeffs([1, 2], dTau=True): x *= 2
                    o.genCoeffs(dTau=True)[1][:] = 4
                k("qGen", f, qGen=g, **extra)
                extra2 = dict(extra)
                k("coll", lambda: cls(coll=g, **extra2).genCoeffs(), qGen=g, params=extra2)
        yield k.s
        k = Kept(f"c33.qdelta.{rep}")
        for name, cls in getClasses(QDELTA_GENERATORS).items():
            for j, nodes in enumerate(vecs(rng, 3)):
                Q = [rng.normal(size=(3, 3)), rng.normal(size=(3, 3)).tolist(), np.asfortranarray(rng.uniform(1, 2, (3, 3))), rng.integers(1, 5, (3, 3)), frozen(rng.normal(size=(3, 3)))][j % 5]
                ks = [[1, 2, 3], [3, 1], np.array([1, 2]), (1, 2), [0], []][j % 6]
                args = dict(nodes=nodes, Q=Q)
                opts = {"nNodes": 3, "nodeType": "LEGENDRE", "quadType": "RADAU-RIGHT", "tLeft": -1.0}
                def f():
                    o = cls(**args, **opts)
                    call(o.genCoeffs, ks, dTau=True)
                    call(o.genCoeffs, ks, form="N2N")
                    for j in (None, 1, 4, -1):
                        x = call(o.getQDelta, j)[1]
                        if x is not None: x += 3
                        call(o.getSDelta, j)
                    call(lambda: o.computeQDelta(2))
                    call(lambda: o.dTau.fill(3))
                k("qdelta", f, ks=ks, **args, options=opts)
        for names in (["BE"], ["BE", "FE"], ["MIN-SR-FLEX", "LU", "BE"], ["BE", "oops"], [], ["TRAP", "BE", "BE", "FE"]):
            for nSweeps in (None, 1, 3, 6, 0, -1, 2.5):
                for form in ("Z2N", "N2N", "oops"):
                    params = dict(nodes=np.array([0.1, 0.5, 1.0]), Q=rng.uniform(0, 1, (3, 3)), nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
                    k("genQDeltaCoeffs", lambda: genQDeltaCoeffs(names, nSweeps=nSweeps, form=form, dTau=True, **params), qDeltaType=names, params=params)
        yield k.s
        k = Kept(f"c33.sdc.{rep}")
        coll = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
        for monitors in (None, [], ["residuals"], ["errors", "residuals"], ["residuals", "oops"], ("errors",), {"residuals": 1}, {"errors", "residuals"}):
            for K in (1, 3):
                for QD in (QDELTA_GENERATORS["BE"](qGen=coll).getQDelta(), genQDeltaCoeffs("MIN-SR-FLEX", nSweeps=K, qGen=coll), rng.normal(size=(2, 2)), rng.normal(size=(3, 3)).tolist()):
                    for w in (None, coll.weights.copy(), coll.weights.tolist()):
                        Q = coll.Q.copy()
                        k("solveDahlquistSDC", lambda: sdc.solveDahlquistSDC(-1 + 1j, 1, 1.0, 2, K, Q, QD, weights=w, monitors=monitors), Q=Q, QDelta=QD, weights=w, monitors=monitors)
                        u = rng.normal(size=3) + 0j
                        k("errorDahlquistSDC", lambda: sdc.errorDahlquistSDC(-1, 1, 1, 2, K, Q, QD, weights=w, uNum=u), Q=Q, QDelta=QD, weights=w, uNum=u)
                        k("errorDahlquistSDC", lambda: sdc.errorDahlquistSDC(-1, 1, 1, 2, K, Q, QD, weights=w), Q=Q, QDelta=QD, weights=w)
            yield k.s
            k = Kept(f"c33.sdc.{rep}.{monitors}")
        for qd in ("BE", "FE", "TRAP", "TRAPAR", "SOE"):
            for n in (2, 3, 4):
                c = Collocation(n, "CHEBY-4", "RADAU-RIGHT")
                k("getOrderSDC", lambda: [sdc.getOrderSDC(c, K, qd, su) for K in range(5) for su in ("QUADRATURE", "LASTNODE")], coll=c)
        for A in (rng.normal(size=(4, 4)), np.arange(1, 10).reshape(3, 3) ** 2, rng.normal(size=(3, 4)), np.zeros((2, 2)), frozen(rng.normal(size=(3, 3))), np.asfortranarray(rng.normal(size=(3, 3))), np.eye(3, dtype=int) + 1):
            k("lduFactorization", lambda: [x.fill(7) for x in num.lduFactorization(A)], A=A)
        for nodes in vecs(rng, 4):
            for times in ([1.5], np.array([2.0, 0.1]), np.array([1, 2])):
                for p in (None, 0, 2, 9):
                    k("getExtrapolationMatrix", lambda: num.getExtrapolationMatrix(nodes, times, p).fill(2), nodes=nodes, times=times)
        for ns in ([4, 8, 16], np.array([4, 8, 16]), (16, 4, 8), np.array([4.0, 8.0, 3.0])):
            for err in (rng.uniform(1e-5, 1, 3), rng.uniform(1e-5, 1, 3).tolist(), (1, 2, 3), np.array([1, 2, 3])):
                k("numericalOrder", lambda: num.numericalOrder(ns, err), nSteps=ns, err=err)
        d = dict(QDELTA_GENERATORS)
        for m in (None, "diag", "oops"):
            keys = list(d)
            k("getClasses", lambda: getClasses(d, module=m), names=list(d))
            assert keys
        yield k.s
        # tables of a class given to a registration that is refused
        k = Kept(f"c33.register.{rep}")
        from qmat.qcoeff.butcher import RK, registerRK
        for b in ([0.5, 0.5], [1.0], np.array([0.5, 0.5])):
            A, c, al = [[0.0, 0.0], [1.0, 0.0]], np.array([0.0, 1.0]), ["RK4"]
            T = type("Given", (RK,), {"A": A, "b": b, "c": c, "aliases": al, "order": property(lambda self: 2)})
            k("registerRK", lambda: registerRK(T), A=A, b=b, c=c, aliases=al)
        yield k.s
