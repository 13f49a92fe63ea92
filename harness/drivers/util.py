"""Timers (C38), default instances (C39)."""
import contextlib
import io
import json
import os
import re
import time
import numpy as np
from ..rec import Session, call, enc, NONE


class Boom(Exception):
    pass


ERRORS = [Boom, ZeroDivisionError, ValueError, KeyError, RuntimeError, StopIteration, KeyboardInterrupt, SystemExit, AssertionError, OSError, FloatingPointError, GeneratorExit]


def c38(rng, deep):
    from qmat.utils import Timer
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    for b, log in enumerate(rows):
        s = Session(f"c38.{b}")
        timers, stacks = {}, {}
        for t in (1, 2, 3):
            name, descr, scale = f"stuff{t}", f"wall {chr(64 + t)}", [1, 2, 1000, 0.5, 60.0, 1e-3][int(rng.integers(0, 6))]
            u = int(rng.integers(0, 3))
            if u == 0: scale, descr, args, kw = 1, "tWall", (name,), {}
            elif u == 1: args, kw = (name, scale, descr), {}
            else: args, kw = (), dict(name=name, descr=descr, scale=scale)
            exc, timers[t], _ = call(Timer, *args, **kw)
            s.add("tm.new", {"t": t, "name": name, "descr": descr, "scale": enc(scale)}, {"exc": exc})
            timers[t, "name"], timers[t, "descr"] = name, descr
        for st in log:
            t, op = st["t"], st["op"]
            if op == "work":
                time.sleep(st["d"] * 1e-3)
                continue
            tm = timers[t]
            if tm is None: continue
            out, sup = io.StringIO(), False
            with contextlib.redirect_stdout(out):
                t0 = time.time()
                if op == "start": exc = call(tm.start)[0]
                elif op == "stop": exc = call(tm.stop)[0]
                elif op == "enter":
                    stacks[t] = contextlib.ExitStack()
                    exc = call(stacks[t].enter_context, tm)[0]
                else:
                    try:
                        kind = ERRORS[int(rng.integers(0, len(ERRORS)))]
                        err = kind("inside")
                        exc, sup = "", bool(stacks[t].__exit__(*((kind, err, None) if st["exc"] else (None, None, None))))
                    except BaseException as e:
                        exc = "" if st["exc"] and e is err else type(e).__name__
                t1 = time.time()
            text = out.getvalue()
            lines = len([x for x in text.split("\n") if x.strip()])
            if op in ("start", "enter"):
                s.add("tm.start", {"t": t}, {"exc": exc, "t0": enc(t0), "t1": enc(t1), "hasName": timers[t, "name"] in text, "lines": lines})
            else:
                m = re.search(r"([0-9.]+(?:e[+-]?\d+)?)\s*s\b", text.replace(timers[t, "descr"], ""))
                s.add("tm.stop", {"t": t}, {"exc": exc, "t0": enc(t0), "t1": enc(t1), "wall": enc(getattr(tm, "tWall", None)), "lines": lines,
                                            "hasDescr": timers[t, "descr"] in text, "shown": enc(float(m.group(1)) if m else -1.0), "suppressed": sup and st["exc"]})
            # what the others measured is still there
            for k in (1, 2, 3):
                if rng.integers(0, 3) == 0:
                    exc, w, _ = call(lambda: timers[k].tWall)
                    s.add("tm.read", {"t": k}, {"exc": exc, "wall": enc(w)})
        yield s


# ------------------------------- default instances --------------------------------
def parts_of(o):
    out = [o.nodes, o.weights, o.Q, o.S, o.T, o.Tinv, o.hCoeffs]
    try: out.append(o.weightsEmbedded)
    except NotImplementedError: pass
    return [np.asarray(x) for x in out]


def c39(rng, deep):
    """Default instances of all registered Q-generators."""
    import qmat
    from qmat.qcoeff import QGenerator, register
    from qmat.qcoeff.butcher import RK, registerRK
    from qmat.qcoeff.collocation import Collocation

    def user(name, init, defaults):
        body = dict(nodes=property(lambda self: np.array([0.25, 0.75])), Q=property(lambda self: np.eye(2) * getattr(self, "x", 3)),
                    weights=property(lambda self: np.array([0.5, 0.5])), order=property(lambda self: 2), __init__=init)
        if defaults is not None: body["DEFAULT_PARAMS"] = defaults
        return type(name, (QGenerator,), body)

    def required(self, x, y=2): self.x = x + 10 * y
    def optional(self, x=7): self.x = x
    def keyword(self, *, x): self.x = x
    def nothing(self): self.x = 1
    for c in (user("D39Required", required, {"x": 4}), user("D39Both", required, {"x": 4, "y": -1}), user("D39Optional", optional, None),
              user("D39Keyword", keyword, {"x": 5}), user("D39Nothing", nothing, None)):
        call(register, c)
    call(register, type("D39Coll", (Collocation,), {"DEFAULT_PARAMS": {"nNodes": 3, "nodeType": "EQUID", "quadType": "LOBATTO"}, "order": property(lambda self: 3), "aliases": None,
                                                    "nodes": property(lambda self: Collocation.nodes.fget(self)), "Q": property(lambda self: Collocation.Q.fget(self)),
                                                    "weights": property(lambda self: Collocation.weights.fget(self))}))
    class D39Sub(Collocation):
        """defaults for its own parameters, of which the base class knows none"""
        aliases, DEFAULT_PARAMS = [], {"n": 2, "left": -1}
        nodes, Q, weights, order = Collocation.nodes, Collocation.Q, Collocation.weights, Collocation.order
        def __init__(self, n, left): super().__init__(n, "CHEBY-3", "GAUSS", left, 2)

    class D39Without(Collocation):
        """no parameter at all, although the base class has defaults"""
        aliases = None
        nodes, Q, weights, order = Collocation.nodes, Collocation.Q, Collocation.weights, Collocation.order
        def __init__(self): super().__init__(2, "EQUID", "RADAU-LEFT")
        DEFAULT_PARAMS = {}
    Both = user("D39Base", required, {"x": 4, "y": -1})
    Less = type("D39Less", (Both,), {"DEFAULT_PARAMS": {"x": 6}})
    for c in (D39Sub, D39Without, Both, Less): call(register, c)
    call(registerRK, type("D39RK", (RK,), {"A": [[0, 0], [1, 0]], "b": [0.5, 0.5], "c": [0, 1], "order": property(lambda self: 2)}))
    names = list(qmat.Q_GENERATORS)
    if not deep:
        own = [n for n in names if n[:3] == "D39" or "coll" in n.lower()]
        names = own + [str(x) for x in rng.permutation([n for n in names if n not in own])[:60]]
    for name in names:
        s = Session(f"c39.{name}")
        cls = qmat.Q_GENERATORS[name]
        params = dict(getattr(cls, "DEFAULT_PARAMS", {}))
        for rep in range(2):
            def f():
                o = cls.getInstance()
                o2 = cls.getInstance() if rep else o
                d = cls(**params)
                g = qmat.genQCoeffs(name, hCoeffs=True, **params)
                emb = call(lambda: o.orderEmbedded)[1]
                r = {"mine": type(o2) is cls, "fresh": rep == 0 or o is not o2, "u": [enc(x) for x in parts_of(o2)], "v": [enc(x) for x in parts_of(d)],
                     "g": [enc(x) for x in (g[0], g[1], g[2], g[3])], "nNodes": int(o2.nNodes), "right": bool(o2.rightIsNode), "order": int(o2.order), "orderD": int(d.order), "emb": int(emb or 0)}
                # spoiling the instance does not spoil the next one
                if rep == 0:
                    for x in [y for y in vars(o).values() if isinstance(y, np.ndarray) and y.flags.owndata and y.flags.writeable]: x[...] = 9.5
                return r
            exc, r, _ = call(f)
            s.add("q.default", {"name": name}, {"exc": exc, **(r or {})})
        yield s


# ------------------------------- refusals -------------------------------------------
def catalog(rng, u=None):
    """Objects with valid and invalid requests: (label, make, [valid], [invalid])"""
    import qmat
    from qmat.lagrange import LagrangeApproximation as LA, getSparseInterpolationMatrix, computeFejerRule
    from qmat.nodes import NodesGenerator
    from qmat.qcoeff import QGenerator
    from qmat.qcoeff.collocation import Collocation
    from qmat.qdelta import QDeltaGenerator, genQDeltaCoeffs, QDELTA_GENERATORS
    from qmat.utils import num, sdc
    from .coll import rk_schemes
    from .nodes import NT, QT
    u = int(rng.integers(0, 8)) if u is None else u
    if u == 0:
        n = int(rng.integers(2, 7))
        x = np.sort(rng.uniform(-1, 1, n))
        f, t = rng.normal(size=n), rng.uniform(-1, 1, 3)
        kw = lagrange_settings(rng, x)
        return (f"Lagrange {n}", lambda: LA(x.copy(), **kw),
                [lambda o: o.getInterpolationMatrix(t), lambda o: o.getIntegrationMatrix([(0, 1), (-1, 0.5)]), lambda o: o.getDerivativeMatrix("ALL"), lambda o: o(t, f),
                 lambda o: o.getIntegrationMatrix([(0, 1)], "LEGENDRE_NUMPY"), lambda o: o.weights.copy(), lambda o: o.getDerivativeMatrix(2)],
                [lambda o: o.getInterpolationMatrix(t[:, None]), lambda o: o.getInterpolationMatrix(0.5), lambda o: o.getIntegrationMatrix([0, 1]), lambda o: o.getIntegrationMatrix([(0, 1, 2)]),
                 lambda o: o.getIntegrationMatrix([(0, 1)], numQuad="SIMPSON"), lambda o: o.getDerivativeMatrix(3), lambda o: o.getDerivativeMatrix(0), lambda o: o.getDerivativeMatrix("all"),
                 lambda o: o(t), lambda o: LA(x, weightComputation="SLOW"), lambda o: LA(x, weightComputation="STABLE", scaleRef="MEAN"), lambda o: LA([0, 0, 1], duplicates="USE_BOTH")])
    if u == 1:
        nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
        t = rng.uniform(-1, 1, 3)
        return (f"Nodes {nt} {qt}", lambda: NodesGenerator(nt, qt),
                [lambda o: o.getNodes(2), lambda o: o.getNodes(5), lambda o: o.getOrthogPolyCoefficients(4), lambda o: o.getTridiagCoefficients(3),
                 lambda o: o.evalOrthogPoly(t, *o.getOrthogPolyCoefficients(4)), lambda o: o.getNodes(3), lambda o: computeFejerRule(4)],
                [lambda o: o.getNodes(0), lambda o: o.getNodes(-1), lambda o: o.getNodes(-7), lambda o: NodesGenerator("GAUSS", "LEGENDRE"), lambda o: NodesGenerator(nt, "RADAU"),
                 lambda o: NodesGenerator("legendre", qt), lambda o: NodesGenerator(nt, ""), lambda o: NodesGenerator("CHEBY-5", qt), lambda o: NodesGenerator(nt, "LOBATTO").getNodes(1),
                 lambda o: NodesGenerator(nt, "RADAU-LEFT").getNodes(1), lambda o: NodesGenerator(None, qt), lambda o: NodesGenerator(qt, nt)])
    if u in (2, 3):
        nt, qt, n = str(rng.choice(NT)), str(rng.choice(QT)), int(rng.integers(2, 6))
        rk = str(rng.choice(list(rk_schemes())))
        pad = [None, "LEFT", "RIGHT", "BOTH"][int(rng.integers(0, 4))]
        iv = [(0, 1), (-1, 1), (1, 3), (0.5, 0.75)][int(rng.integers(0, 4))]
        if u == 2: label, mk, kw = f"Collocation {nt} {qt} {n} {iv}", lambda: Collocation(n, nt, qt, *iv), dict(nNodes=n, nodeType=nt, quadType=qt, tLeft=iv[0], tRight=iv[1])
        else: label, mk, kw = f"{rk} {pad}", lambda: rk_schemes()[rk](pad), dict(padding=pad)
        name = "Collocation" if u == 2 else rk
        class Half(QGenerator):
            nodes = property(lambda self: np.array([0.5]))
        return (label, mk,
                [lambda o: o.genCoeffs(), lambda o: o.genCoeffs("N2N", True), lambda o: o.solveDahlquist(-1, 1, 1, 3), lambda o: o.hCoeffs if u == 2 else o.S,
                 lambda o: qmat.genQCoeffs(name, "N2N", **kw), lambda o: o.errorDahlquist(1j, 1, 1, 2), lambda o: o.weights],
                [lambda o: o.genCoeffs("n2n"), lambda o: o.genCoeffs(form=""), lambda o: qmat.genQCoeffs(name, form="N2Z", **kw), lambda o: qmat.genQCoeffs(name + "?", **kw),
                 lambda o: Collocation(0, nt, qt) if u == 2 else rk_schemes()[rk](padding="left"), lambda o: QGenerator().nodes, lambda o: QGenerator().genCoeffs(),
                 lambda o: Half().Q, lambda o: Half().genCoeffs(), lambda o: Half().order, lambda o: Half().solveDahlquist(1, 1, 1, 1),
                 lambda o: Collocation(n, nt, qt).weightsEmbedded if u == 2 else rk_schemes()[rk]("MIDDLE")])
    if u in (4, 5):
        nt, qt, n = "LEGENDRE", "RADAU-RIGHT", int(rng.integers(2, 6))
        name = ["Jumper", "FlexJumper", "MIN_SR_FLEX", "MIN3", "MIN_VDHS", "LU", "BE", "MIN_SR_S"][int(rng.integers(0, 8))]
        cls = QDELTA_GENERATORS[name]
        if name in ("MIN3", "MIN_VDHS"): n = int(rng.integers(3, 5))
        dep = name in ("Jumper", "FlexJumper", "MIN_SR_FLEX")
        coll = Collocation(n, nt, qt)
        table = QDELTA_GENERATORS["MIN3" if u == 4 else "MIN_VDHS"]
        return (f"{name} {n}", lambda: cls(qGen=coll),
                [lambda o: o.getQDelta(), lambda o: o.getQDelta(2), lambda o: o.getSDelta(1), lambda o: o.genCoeffs([1, 3, 2], dTau=True), lambda o: genQDeltaCoeffs(name, qGen=coll),
                 lambda o: genQDeltaCoeffs([name, "BE"], nSweeps=3, qGen=coll), lambda o: o.genCoeffs(n + 1, "N2N")],
                [(lambda o: o.getQDelta(0)) if dep else (lambda o: o.genCoeffs(form="S")), (lambda o: o.genCoeffs([1, 0, 2])) if dep else (lambda o: o.genCoeffs([1, 2], "z2n")),
                 (lambda o: o.getSDelta(-1)) if dep else (lambda o: cls(qGen=np.eye(n))), lambda o: genQDeltaCoeffs(name, form="n2n", qGen=coll), lambda o: genQDeltaCoeffs(name + "-", qGen=coll),
                 lambda o: genQDeltaCoeffs([name, "?"], qGen=coll), lambda o: genQDeltaCoeffs(name, nSweeps=0, qGen=coll), lambda o: cls(qGen=coll, coll=coll), lambda o: cls(),
                 lambda o: QDeltaGenerator(coll.Q).getQDelta(), lambda o: table(10, "CHEBY-1", "GAUSS").getQDelta(), lambda o: genQDeltaCoeffs([name] * 3, nSweeps=2, qGen=coll)])
    nt, qt, n = str(rng.choice(NT)), str(rng.choice(QT)), int(rng.integers(2, 5))
    coll = Collocation(n, nt, qt)
    Q, D = coll.Q, np.tril(coll.Q)
    K = 2
    if u == 6:
        solve = lambda o, *a, **k: sdc.solveDahlquistSDC(-1 + 0.5j, 1, 1, 2, K, Q, *a, **k)
        return (f"SDC {nt} {qt} {n}", lambda: None,
                [lambda o: solve(o, D), lambda o: solve(o, np.array([D, D])), lambda o: solve(o, D, coll.weights), lambda o: solve(o, D, monitors=["errors"])[1]["errors"],
                 lambda o: sdc.errorDahlquistSDC(-1, 1, 1, 2, K, Q, D), lambda o: solve(o, D, coll.weights, ["residuals", "errors"])[0], lambda o: np.array(sdc.getOrderSDC(coll, K, "BE", "LASTNODE"))],
                [lambda o: solve(o, D[:-1]), lambda o: solve(o, np.array([D])), lambda o: solve(o, np.array([D] * 3)), lambda o: solve(o, D, monitors=["error"]), lambda o: solve(o, D, monitors=["residuals", "x"]),
                 lambda o: solve(o, D.ravel()), lambda o: solve(o, np.ones((n + 1, n + 1))), lambda o: solve(o, np.array([D[:, :-1]] * 2)), lambda o: sdc.errorDahlquistSDC(-1, 1, 1, 2, K, Q, D[:-1]),
                 lambda o: solve(o, D[:, :-1]), lambda o: solve(o, D[None, None]), lambda o: sdc.errorDahlquistSDC(-1, 1, 1, 2, 3, Q, np.array([D, D]))])
    A, x = rng.normal(size=(n, n)), np.linspace(0, 1, 6)
    return (f"numerics {n}", lambda: None,
            [lambda o: num.lduFactorization(A), lambda o: num.getExtrapolationMatrix(coll.nodes, [1.0, 2.0]), lambda o: num.numericalOrder([1, 2, 4], [1, 0.5, 0.1]),
             lambda o: getSparseInterpolationMatrix(x, [0.3, 0.45], 3).toarray(), lambda o: computeFejerRule(n), lambda o: getSparseInterpolationMatrix(x[:-1], [0.95], 2, 1.0).toarray(),
             lambda o: num.getExtrapolationMatrix(coll.nodes, [0.0], n - 1)],
            [lambda o: num.lduFactorization(A[:-1]), lambda o: num.lduFactorization(A[:, 1:]), lambda o: getSparseInterpolationMatrix(x, [0.3], 7), lambda o: getSparseInterpolationMatrix(x[:2], [0.3], 3),
             lambda o: qmat.genQCoeffs(""), lambda o: qmat.genQDeltaCoeffs("", qGen=coll), lambda o: qmat.genQDeltaCoeffs([], qGen=coll), lambda o: qmat.genQDeltaCoeffs(3, qGen=coll),
             lambda o: qmat.genQDeltaCoeffs(("BE", "LU"), qGen=coll), lambda o: qmat.genQDeltaCoeffs("BE", nSweeps=1.5, qGen=coll), lambda o: qmat.genQDeltaCoeffs("BE", nSweeps=-2, qGen=coll),
             lambda o: qmat.genQDeltaCoeffs("MIN-SR-S", qGen=rk_schemes()["RK4"]())])


def registries():
    import qmat
    from qmat.qcoeff.butcher import RK_SCHEMES
    return [sorted((k, id(v)) for k, v in d.items()) for d in (qmat.Q_GENERATORS, qmat.QDELTA_GENERATORS, RK_SCHEMES)]


def mangled(names):
    """Strings close to some names which are none of them."""
    out = []
    for x in names:
        for y in [x + " ", " " + x, x + "\n", "\t" + x, x.lower(), x.upper(), x.capitalize(), x.swapcase(), x.replace("-", "_"), x.replace("_", "-"), x.replace("-", ""),
                  x.replace("_", ""), x.replace("-", " "), x[:-1], x[1:], x[:4], x[:2], x + x, x + "2", x + "-", "-" + x, x[::-1], x + "?", f"'{x}'", x + "\0", x.encode(), [x], (x,), {x}]:
            if not (isinstance(y, str) and y in names): out.append(y)
    return out + ["", " ", None, 0, 1, True, 2.5, object()]


def named(rng):
    """(what, values, request) of everything selected by a name, with values that are not valid."""
    import qmat
    from qmat.lagrange import LagrangeApproximation as LA
    from qmat.nodes import NodesGenerator
    from qmat.qcoeff.collocation import Collocation
    from qmat.utils import sdc
    from .coll import rk_schemes
    from .nodes import NT, QT
    n = int(rng.integers(2, 5))
    nt, qt, coll = str(rng.choice(NT)), str(rng.choice(QT)), Collocation(n, "LEGENDRE", "RADAU-RIGHT")
    x, f, rk = np.sort(rng.uniform(-1, 1, n)), rng.normal(size=n), str(rng.choice(list(rk_schemes())))
    Q, D = coll.Q, np.tril(coll.Q)
    la, be = LA(x), qmat.QDELTA_GENERATORS["BE"](qGen=coll)
    pick = lambda names: [str(y) for y in rng.choice(list(names), min(8, len(names)), replace=False)]
    none = [None]
    forms = ["Z2N", "N2N"]
    return [("node type", NT, [], lambda v: NodesGenerator(v, qt)), ("quad type", QT, [], lambda v: NodesGenerator(nt, v)),
            ("node type of nodes", NT, [], lambda v: NodesGenerator(v, qt).getNodes(n)), ("quad type of nodes", QT, [], lambda v: NodesGenerator(nt, v).getNodes(n)),
            ("node type of collocation", NT, [], lambda v: Collocation(n, v, qt)), ("quad type of collocation", QT, [], lambda v: Collocation(n, nt, v)),
            ("Q name", pick(qmat.Q_GENERATORS), qmat.Q_GENERATORS, lambda v: qmat.genQCoeffs(v)), ("QDelta name", pick(qmat.QDELTA_GENERATORS), [*qmat.QDELTA_GENERATORS, *([k] for k in qmat.QDELTA_GENERATORS)], lambda v: qmat.genQDeltaCoeffs(v, nSweeps=2, qGen=coll)),
            ("QDelta names", pick(qmat.QDELTA_GENERATORS), qmat.QDELTA_GENERATORS, lambda v: qmat.genQDeltaCoeffs(["BE", v, "LU"], qGen=coll)),
            ("form", forms, [], lambda v: coll.genCoeffs(form=v)), ("form of scheme", forms, [], lambda v: rk_schemes()[rk]().genCoeffs(form=v)), ("form by name", forms, [], lambda v: qmat.genQCoeffs(rk, form=v)),
            ("form of QDelta", forms, [], lambda v: be.genCoeffs(2, form=v)), ("form of QDelta by name", forms, [], lambda v: qmat.genQDeltaCoeffs("LU", form=v, qGen=coll)),
            ("form of QDeltas by name", forms, [], lambda v: qmat.genQDeltaCoeffs("LU", nSweeps=2, form=v, qGen=coll)),
            ("weights", ["AUTO", "FAST", "STABLE", "CHEBFUN"], [], lambda v: LA(x, weightComputation=v)), ("reference", ["MAX", "ZERO"], [], lambda v: LA(x, weightComputation="STABLE", scaleRef=v)),
            ("duplicates", ["USE_LEFT", "USE_RIGHT"], [], lambda v: LA(np.append(x[0], x), duplicates=v)),
            ("quadrature", ["LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"], [], lambda v: la.getIntegrationMatrix([(0, 1)], numQuad=v)),
            ("derivative", ["ALL"], [1, 2, 1.0, 2.0, True], lambda v: la.getDerivativeMatrix(v)),
            ("monitor", ["errors", "residuals"], [], lambda v: sdc.solveDahlquistSDC(-1, 1, 1, 2, 2, Q, D, monitors=[v])),
            ("padding", ["LEFT", "RIGHT", "BOTH"], ["", None, 0], lambda v: rk_schemes()[rk](padding=v))]


def c40(rng, deep):
    from .ses import flat
    for what, names, other, request in named(rng):
        s = Session(f"c40.names.{what}")
        for v in mangled(list(names)):
            try:
                if any(type(v) is type(y) and v == y for y in other): continue
            except TypeError: pass
            before = registries()
            exc, _, _ = call(request, v)
            s.add("rf.invalid", {"what": f"{what} {v!r}"[:60].encode("ascii", "replace").decode()}, {"exc": exc, "same": before == registries()})
        yield s
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    plans = []
    for log in rows:
        objs = [catalog(rng) for _ in range(3)]
        refs = {}
        for st in log:
            key = (st["o"], st["valid"])
            if st["wrong"] or key in refs: continue
            label, mk, valid, _ = objs[st["o"] - 1]
            def f(): return flat(valid[st["valid"] - 1](mk()))
            exc, v, _ = call(f)
            refs[key] = exc, [enc(x) for x in v or []]
        plans.append((log, objs, refs))
    for b, (log, objs, refs) in enumerate(plans):
        s = Session(f"c40.{b}")
        for (o, v), (exc, r) in refs.items(): s.add("ses.ref", {"gen": f"{o}", "call": f"{v}", "what": f"{objs[o - 1][0]} {v}"}, {"exc": exc, "v": r})
        insts = [call(x[1])[1] for x in objs]
        for st in log:
            k = st["o"] - 1
            label, _, valid, invalid = objs[k]
            if st["wrong"]:
                before = registries()
                exc, v, _ = call(lambda: invalid[st["invalid"] - 1](insts[k]))
                s.add("rf.invalid", {"what": f"{label} {st['invalid']}"}, {"exc": exc, "same": before == registries()})
            else:
                exc, v, _ = call(lambda: flat(valid[st["valid"] - 1](insts[k])))
                s.add("rf.valid", {"gen": f"{k + 1}", "call": f"{st['valid']}", "kind": label}, {"exc": exc, "v": [enc(x) for x in v or []]})
        yield s


# ------------------------------- concurrent use -------------------------------------
def shared_object(rng):
    """(label, make, calls): an object with valid requests, of the catalog above or any QDelta generator."""
    from qmat.qcoeff.collocation import Collocation
    from qmat.qdelta import QDELTA_GENERATORS, genQDeltaCoeffs
    if rng.integers(0, 3) == 0: return catalog(rng)[:3]
    names = sorted({c.__name__ for c in QDELTA_GENERATORS.values() if c.__module__.startswith("qmat.")})
    name = str(rng.choice(["Jumper", "FlexJumper", "MIN_SR_FLEX"] if rng.integers(0, 3) == 0 else names))
    cls, n = QDELTA_GENERATORS[name], int(rng.integers(2, 5))
    if name == "MIN": n = 2
    coll = Collocation(n, "LEGENDRE", ["RADAU-RIGHT", "RADAU-RIGHT", "GAUSS", "LOBATTO"][int(rng.integers(0, 4 if name[:3] != "MIN" else 1))])
    return (f"{name} {n}", lambda: cls(qGen=coll),
            [lambda o: o.getQDelta(1), lambda o: o.getSDelta(2), lambda o: o.getQDelta(3), lambda o: o.genCoeffs([1, 3, 2], dTau=True),
             lambda o: o.genCoeffs(2, "N2N", dTau=True), lambda o: genQDeltaCoeffs([name, "BE"], nSweeps=3, qGen=coll)[1], lambda o: genQDeltaCoeffs(name, nSweeps=2, dTau=True, qGen=coll)[0]])


def dependent_object(rng, name):
    """An approximation that depends on the sweep index, fresh or asked before."""
    from qmat.qcoeff.collocation import Collocation
    from qmat.qdelta import QDELTA_GENERATORS
    coll, used = Collocation(3, "LEGENDRE", "RADAU-RIGHT"), bool(rng.integers(0, 2))

    def mk():
        o = QDELTA_GENERATORS[name](qGen=coll)
        if used: o.getQDelta(5)
        return o
    return f"{name} 3", mk, [(lambda o, k=k: o.getQDelta(k)) if k != 3 else (lambda o: o.getSDelta(3)) for k in range(1, 8)]


def c41(rng, deep):
    """Requests of several threads interleaved line by line."""
    from .ses import flat
    from ..sched import Run
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]

    def result(x):
        if x[0]: return x[0], []
        return "", [enc(y) for y in flat(x[1])]

    def reference(s, k, label, mk, calls, v):
        def f(): return flat(calls[v - 1](mk()))
        exc, r, _ = call(f)
        s.add("ses.ref", {"gen": f"{k}", "call": f"{v}", "what": f"{label} {v}"}, {"exc": exc, "v": [enc(x) for x in r or []]})

    for b, row in enumerate(rows):
        s = Session(f"c41.{b}")
        objs = [shared_object(rng) for _ in range(2)]
        progs = {int(t): p for t, p in row["programs"].items()} if isinstance(row["programs"], dict) else {t + 1: p for t, p in enumerate(row["programs"])}
        for key in sorted({(x["o"], x["v"]) for p in progs.values() for x in p}):
            label, mk, calls = objs[key[0] - 1]
            reference(s, key[0], label, mk, calls, key[1])
        insts = [call(o[1])[1] for o in objs]
        run = Run({t: [(lambda x=x: objs[x["o"] - 1][2][x["v"] - 1](insts[x["o"] - 1])) for x in p] for t, p in progs.items()}, [tuple(x) for x in row["slices"]])
        res = run.run()
        for t, p in progs.items():
            for x, y in zip(p, res[t]):
                exc, v = result(y)
                s.add("th.call", {"gen": f"{x['o']}", "call": f"{x['v']}", "what": objs[x["o"] - 1][0], "n": 1}, {"exc": exc, "v": v})
        # the objects afterwards
        for o, k in sorted({(x["o"], x["v"]) for p in progs.values() for x in p}):
            exc, v = result(call(lambda: objs[o - 1][2][k - 1](insts[o - 1]))[:2])
            s.add("th.call", {"gen": f"{o}", "call": f"{k}", "what": objs[o - 1][0], "n": 1}, {"exc": exc, "v": v})
        yield s
    # one thread interrupted after each of its lines by another one
    for b in range(300 if deep else 60):
        s = Session(f"c41.at.{b}")
        label, mk, calls = (dependent_object(rng, ["Jumper", "FlexJumper", "MIN_SR_FLEX"][b % 3]) if b < 9 else catalog(rng, 1)[:3] if b < 14
                            else catalog(rng, 0)[:3] if b < 18 else catalog(rng, 2)[:3] if b < 22 else shared_object(rng))
        v = [int(x) for x in rng.integers(1, 8, 2)]
        if 9 <= b < 14: v = [int(x) for x in rng.permutation([1, 2, 6, 4])[:2]]
        if rng.integers(0, 3) == 0: v[1] = v[0]
        if label.split()[0] in ("Jumper", "FlexJumper", "MIN_SR_FLEX"): v = [int(x) for x in rng.permutation([1, 2, 3, 4])[:2]]
        together = b < 22 or bool(rng.integers(0, 3))
        for x in sorted(set(v)): reference(s, 1, label, mk, calls, x)
        def programs():
            a = call(mk)[1]
            o = [a, a if together else call(mk)[1]]
            return {t: [lambda t=t: calls[v[t - 1] - 1](o[t - 1])] for t in (1, 2)}, lambda: [(t, call(lambda: calls[v[t - 1] - 1](o[0]))[:2]) for t in (1, 2)]
        alone = Run({1: programs()[0][1]}, [])
        alone.run()
        L = alone.lines[1]
        at = list(range(1, L + 1))
        most = (200 if deep else 50) if L < 500 else 8
        if L > most: at = sorted(int(x) for x in rng.choice(at, most, replace=False))
        seen = {}
        for i in at:
            progs, after = programs()
            res = Run(progs, [(1, i), (2, 10**9)]).run()
            for t, y in [(t, y) for t in (1, 2) for y in res[t]] + after():
                exc, r = result(y)
                e = seen.setdefault((t, exc, json.dumps(r)), [0, r])
                e[0] += 1
        for (t, exc, _), (n, r) in seen.items():
            s.add("th.call", {"gen": "1", "call": f"{v[t - 1]}", "what": label, "n": n}, {"exc": exc, "v": r})
        yield s


# ------------------------------- copies ------------------------------------------------
def own_arrays(o, seen):
    """Writeable arrays reachable from the attributes of an instance."""
    if id(o) in seen: return []
    seen.add(id(o))
    if isinstance(o, np.ndarray): return [o] if o.flags.writeable and o.dtype.kind in "fc" else []
    if isinstance(o, dict): return [a for x in o.values() for a in own_arrays(x, seen)]
    if isinstance(o, (list, tuple)): return [a for x in o for a in own_arrays(x, seen)]
    if type(o).__module__.startswith("qmat"): return own_arrays(dict(getattr(o, "__dict__", {})), seen)
    return []


ELSEWHERE = '''
import pickle, sys
import numpy as np
out = []
for data, method, args, kw in pickle.load(sys.stdin.buffer):
    try:
        o = pickle.loads(data)
        v = getattr(o, method)
        if args is not None: v = v(*args, **kw)
        out.append(("", [np.asarray(x) for x in (v if isinstance(v, (list, tuple)) else [v])], type(o).__name__))
    except Exception as e: out.append((type(e).__name__, [], ""))
sys.stdout.buffer.write(b"RESULT" + pickle.dumps(out))
'''


def lagrange_variant(rng, n):
    """An approximation with any settings."""
    from qmat.lagrange import LagrangeApproximation
    x = np.sort(rng.uniform(-1, 1, n))
    kw = lagrange_settings(rng, x)
    if rng.integers(0, 2): kw["fValues"] = rng.normal(size=n)
    return LagrangeApproximation(x, **kw)


def lagrange_settings(rng, x):
    """Any settings, with points repeated (in x) or not."""
    kw = {}
    if rng.integers(0, 2): kw.update(weightComputation=str(rng.choice(["AUTO", "STABLE", "FAST", "CHEBFUN"])), scaleWeights=bool(rng.integers(0, 2)), scaleRef=str(rng.choice(["MAX", "ZERO"])))
    if rng.integers(0, 2):
        x[1] = x[0]
        kw["duplicates"] = str(rng.choice(["USE_LEFT", "USE_RIGHT"]))
    return kw


def c42(rng, deep):
    """Copies of objects."""
    import copy
    import pickle
    import subprocess
    import sys
    from .ses import flat
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    for b, log in enumerate(rows):
        s = Session(f"c42.{b}")
        label, mk, calls = catalog(rng, [0, 1, 2, 2, 3, 3][int(rng.integers(0, 6))])[:3] if rng.integers(0, 2) else shared_object(rng)
        o = call(mk)[1]
        while o is None:
            label, mk, calls = shared_object(rng)
            o = call(mk)[1]
        for v in sorted({x["v"] for x in log if x["op"] == "call"}):
            exc, r, _ = call(lambda: flat(calls[v - 1](mk())))
            s.add("ses.ref", {"gen": "1", "call": f"{v}", "what": f"{label} {v}"}, {"exc": exc, "v": [enc(x) for x in r or []]})
        objs, kinds = {1: o}, {1: "original"}
        for st in log:
            x = objs.get(st["o"])
            if x is None: continue
            if st["op"] == "call":
                exc, r, _ = call(lambda: flat(calls[st["v"] - 1](x)))
                s.add("cp.call", {"gen": "1", "call": f"{st['v']}", "kind": kinds[st["o"]], "what": label}, {"exc": exc, "v": [enc(y) for y in r or []]})
            elif st["op"] == "spoil":
                for a in own_arrays(x, set()): a[...] = 9.5
            else:
                f = {"shallow": copy.copy, "deep": copy.deepcopy, "pickle": lambda y: pickle.loads(pickle.dumps(y, int(rng.integers(0, 6))))}[st["op"]]
                exc, y, _ = call(f, x)
                s.add("cp.copy", {"kind": st["op"], "what": label}, {"exc": exc, "same": y is not x and type(y) is type(x)})
                objs[st["to"]], kinds[st["to"]] = y, st["op"]
        yield s
    # pickled objects asked in another process
    import qmat
    from qmat.lagrange import LagrangeApproximation
    from qmat.nodes import NodesGenerator
    from qmat.qdelta import QDELTA_GENERATORS
    from .coll import rk_schemes
    from .nodes import NT, QT
    jobs = []
    coll = lambda: qmat.Q_GENERATORS["coll"](int(rng.integers(2, 5)), str(rng.choice(NT)), str(rng.choice(QT)), *[(), (-1, 1), (1, 3), (0, 0.125)][int(rng.integers(0, 4))])
    for cls in sorted({c for c in QDELTA_GENERATORS.values() if c.__module__.startswith("qmat.")}, key=lambda c: c.__name__):
        o = cls(qGen=qmat.Q_GENERATORS["coll"](3 if cls.__name__ != "MIN" else 2, "LEGENDRE", "RADAU-RIGHT"))
        if rng.integers(0, 2): call(o.getQDelta, 1)
        jobs += [(cls.__name__, o, "getQDelta", (2,), {}), (cls.__name__, o, "genCoeffs", ([1, 3],), {"dTau": True})]
    for name in [str(x) for x in rng.permutation(list(rk_schemes()))[:40 if deep else 12]]:
        jobs += [(name, call(rk_schemes()[name], [None, "LEFT", "RIGHT", "BOTH"][int(rng.integers(0, 4))])[1], "genCoeffs", ("N2N",), {}), (name, call(rk_schemes()[name])[1], "order", None, {})]
    for _ in range(10):
        o = coll()
        if rng.integers(0, 2): call(lambda: o.hCoeffs)
        jobs += [("Collocation", o, "genCoeffs", (), {"hCoeffs": True}), ("Collocation", o, "T", None, {})]
        n = int(rng.integers(2, 7))
        la = lagrange_variant(rng, n)
        jobs += [("Lagrange", la, "getDerivativeMatrix", ("ALL",), {}), ("Lagrange", la, "getInterpolationMatrix", (np.array([0.1, 0.7]),), {}),
                 ("Lagrange", la, "weights", None, {}), ("Lagrange", la, "__call__", (0.3,) if la.fValues is not None else (0.3, np.arange(n) + 1.), {})]
        jobs += [("Nodes", NodesGenerator(str(rng.choice(NT)), str(rng.choice(QT))), "getNodes", (n,), {})]
    s = Session("c42.elsewhere")
    payload, kept = [], []
    for label, o, m, args, kw in jobs:
        exc, data, _ = call(pickle.dumps, o)
        s.add("cp.copy", {"kind": "dumps", "what": label}, {"exc": exc, "same": True})
        if exc: continue
        payload.append((data, m, args, kw))
        kept.append((label, o, m, args, kw))
    repo = os.environ.get("QMAT_REPO", "/repo")
    p = subprocess.run([sys.executable, "-B", "-c", ELSEWHERE], input=pickle.dumps(payload), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env={**os.environ, "PYTHONPATH": repo}, timeout=300)
    head, _, body = p.stdout.partition(b"RESULT")
    out = pickle.loads(body) if body else [("NoAnswer", [], "")] * len(kept)
    for k, ((label, o, m, args, kw), (exc, v, name)) in enumerate(zip(kept, out)):
        def f():
            x = getattr(o, m)
            return flat(x if args is None else x(*args, **kw))
        exc0, v0, _ = call(f)
        s.add("ses.ref", {"gen": f"{k}", "call": m, "what": label}, {"exc": exc0, "v": [enc(x) for x in v0 or []]})
        s.add("cp.call", {"gen": f"{k}", "call": m, "kind": "elsewhere", "what": label}, {"exc": exc, "v": [enc(x) for x in v]})
    yield s
