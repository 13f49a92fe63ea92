"""Sessions on the construction of QDelta generators from a Q-generator (C25)."""
import itertools
import numpy as np
from ..rec import Session, call, enc
from .coll import rk_schemes, user_generator
from .nodes import NT, QT
from .ses import flat

TS = {"BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "U25Plain", "U25Sub", "U25Forward", "U25All"}
POSITIONAL = {"U25Forward": 1, "U25All": 0}
ND = {"MIN_SR_NS", "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5", "Jumper", "FlexJumper"}
SET = {"MIN_SR_S", "MIN_SR_FLEX", "MIN3", "MIN_VDHS"}


def needed(name):
    return ["nodes", "tLeft"] if name in TS else ["nodes"] if name in ND else ["nNodes", "nodeType", "quadType"] if name in SET else ["nodes", "weights"] if name == "U25Own" else ["Q"]


def user_classes():
    """Register the classes of a user."""
    from qmat.qdelta import QDeltaGenerator, register
    from qmat.qdelta.timestepping import BE, TimeStepping

    class U25Plain(TimeStepping):
        def computeQDelta(self, k=None): return np.diag(self.deltas) + self.tLeft

    class U25Sub(BE):
        aliases = ["U25-Sub"]
        def computeQDelta(self, k=None): return 2 * super().computeQDelta(k) + self.tLeft

    class U25Forward(TimeStepping):
        def __init__(self, nodes, **kwargs): super().__init__(nodes, **kwargs)
        def computeQDelta(self, k=None): return np.diag(self.deltas)

    class U25All(TimeStepping):
        def __init__(self, **kwargs): super().__init__(**kwargs)
        def computeQDelta(self, k=1): return np.diag(self.deltas) / (k or 1)

    class U25Own(QDeltaGenerator):
        def __init__(self, nodes, weights, **kwargs):
            self.n, self.w = np.array(nodes, dtype=float), np.array(weights, dtype=float)
        @staticmethod
        def extractParams(qGen):
            QDeltaGenerator.extractParams(qGen)
            return {"nodes": qGen.nodes, "weights": qGen.weights}
        @property
        def size(self): return self.n.size
        def computeQDelta(self, k=None): return np.outer(self.n, np.resize(self.w, self.n.size))
    for c in (U25Plain, U25Sub, U25Forward, U25All, U25Own): register(c)


def coeffs(o):
    return [x for k, form in ((None, "Z2N"), (1, "N2N"), (2, "Z2N"), (6, "Z2N")) for x in flat(o.genCoeffs(k, form, True))] + [np.array(o.size)]


def c25(rng, deep):
    from qmat.qdelta import QDELTA_GENERATORS
    from qmat.qcoeff.collocation import Collocation
    from qmat.qcoeff import genQCoeffs
    from qmat import genQDeltaCoeffs
    from qmat.utils import getClasses

    class Sub(Collocation):
        pass
    user_classes()
    names = [c.__name__ for c in getClasses(QDELTA_GENERATORS).values()]
    aliases = {n: [a for a, c in QDELTA_GENERATORS.items() if c.__name__ == n] for n in names}
    for name in names:
        ps = needed(name)
        for rep in range(4 if deep else 1):
            leg = name in ("MIN3", "MIN_VDHS", "MIN")
            for kind in ("none", "coll", "collsub", "rk", "user", "bad"):
                s = Session(f"c25.{name}.{kind}.{rep}")
                n = int(rng.integers(2, 5 if name != "MIN" else 4))
                m = int(rng.integers(2, 5 if name != "MIN" else 4))
                nt, qt = ("LEGENDRE", "RADAU-RIGHT") if leg else (str(rng.choice(NT)), str(rng.choice(QT)))
                nt2, qt2 = ("LEGENDRE", "LOBATTO") if leg else (str(rng.choice(NT)), str(rng.choice(QT)))
                iv = [(0, 1), (0, 2), (1, 3), (-0.5, 0.5)][int(rng.integers(0, 4))] if not leg else (0, 1)
                if kind in ("coll", "collsub"):
                    g = (Collocation if kind == "coll" else Sub)(n, nt, qt, *iv)
                elif kind == "rk":
                    g = rk_schemes()[str(rng.choice(["RK4", "SDIRK3", "GAUSS_LG", "RK4_38", "ESDIRK43", "BE", "MidPoint"]))](padding=[None, "LEFT", "BOTH"][int(rng.integers(0, 3))])
                    if name == "MIN": g = rk_schemes()["GAUSS_LG"]()
                elif kind == "user":
                    g = user_generator(rng, 3)
                else: g = None
                gv = {p: getattr(g, p, None) for p in ps} if g is not None else {}
                x = {"nodes": np.sort(rng.uniform(0.05, 1, m)), "tLeft": -0.75, "nNodes": m, "nodeType": nt2, "quadType": qt2, "Q": rng.uniform(0.1, 1, (m, m)), "weights": rng.uniform(0.1, 1, m)}
                if name == "MIN": x["Q"] = Collocation(m, "LEGENDRE", "GAUSS").Q
                if rng.integers(0, 2):
                    x["nodes"] = x["nodes"].tolist()
                    x["Q"] = x["Q"].tolist()
                if rng.integers(0, 2): x["tLeft"] = 0              # an explicit value that is false
                seen = set()
                cls = QDELTA_GENERATORS[name]
                shapes = []
                for pos in range(min(len(ps), POSITIONAL.get(name, 9)) + 1):
                    for r in range(len(ps) - pos + 1):
                        for kw in itertools.combinations(ps[pos:], r): shapes.append((pos, list(kw)))
                styles = {"none": ["qGen"], "bad": ["qGen", "coll"], }.get(kind, ["qGen", "coll", "both"])
                for pos, kw in shapes:
                    toks = []
                    for i, p in enumerate(ps):
                        toks.append("x" if i < pos or p in kw else ("0" if p == "tLeft" and kind in ("rk", "user") else "g") if g is not None else "0" if p == "tLeft" else "missing")
                    if tuple(toks) not in seen and "missing" not in toks and not (g is None and "g" in toks):
                        seen.add(tuple(toks))
                        explicit = {p: x[p] if t == "x" else gv[p] for p, t in zip(ps, toks) if t != "0"}
                        exc, v, _ = call(lambda: coeffs(cls(**explicit)))
                        s.add("qg.ref", {"name": name, "eff": toks}, {"exc": exc, "v": [enc(y) for y in (v or [])]})
                for style in styles:
                    for pos, kw in shapes:
                        if style == "both" and rng.integers(0, 3): continue
                        bads = ["LEGENDRE", {"nodes": [1]}, np.ones(3), Collocation, 0, "", [], False, 3.5] if kind == "bad" else [None]
                        bad = bads[int(rng.integers(0, len(bads)))]
                        args = [x[p] for p in ps[:pos]]
                        kwargs = {p: x[p] for p in kw}
                        if rng.integers(0, 2): kwargs.update({"other": 12, "dummy": "x"} if rng.integers(0, 2) else {"fValues": None})
                        if rng.integers(0, 4) == 0:                       # parameters of the other classes
                            for p in ("Q", "nodes", "nNodes", "quadType", "tLeft"):
                                if p not in ps: kwargs[p] = x[p] if p != "nodes" else [0.5, 0.25]
                        if kind == "bad": kwargs[style] = bad
                        elif kind != "none":
                            if style in ("qGen", "both"): kwargs["qGen"] = g
                            if style in ("coll", "both"): kwargs["coll"] = g
                        elif rng.integers(0, 3) == 0: kwargs["qGen"] = None
                        c = QDELTA_GENERATORS[str(rng.choice(aliases[name]))]
                        if pos == 0 and rng.integers(0, 3) == 0:
                            # the generic function gives the same matrices
                            al = str(rng.choice(aliases[name]))
                            def f():
                                a = genQDeltaCoeffs(al, dTau=True, **kwargs)
                                b = genQDeltaCoeffs(al, nSweeps=1, form="N2N", dTau=True, **kwargs)
                                l = genQDeltaCoeffs([al] * 6, dTau=True, **kwargs)
                                return [a[0], a[1], b[0][0], b[1], l[0][1], l[1], l[0][5], a[1], np.array(len(a[0]))]
                            exc, v, dep = call(f)
                        else:
                            exc, v, dep = call(lambda: coeffs(c(*args, **kwargs)))
                        s.add("qg.make", {"name": name, "pos": pos, "kw": kw, "qGen": kind, "style": style},
                              {"exc": exc, "v": [enc(y) for y in (v or [])], "deprecated": bool(dep)})
                yield s
