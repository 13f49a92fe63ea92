"""Sessions on the registries (C18, C34)."""
import json
import os
import numpy as np
from ..rec import Session, call, enc, NONE
from .coll import lst


def registries():
    from qmat.qcoeff import Q_GENERATORS
    from qmat.qcoeff.butcher import RK_SCHEMES
    from qmat.qdelta import QDELTA_GENERATORS
    return {"Q": Q_GENERATORS, "RK": RK_SCHEMES, "QD": QDELTA_GENERATORS}


def snapshot():
    return {k: [(n, id(c)) for n, c in d.items()] for k, d in registries().items()}


def default(kind, cls):
    """Parameters to create an instance of any class."""
    if kind == "QD":
        from qmat.qcoeff.collocation import Collocation
        return {"qGen": Collocation(3, "LEGENDRE", "RADAU-RIGHT")}
    return dict(getattr(cls, "DEFAULT_PARAMS", {})) if cls.__name__ == "Collocation" else {}


def gen(kind, name, **params):
    from qmat import genQCoeffs, genQDeltaCoeffs
    if kind == "QD": return genQDeltaCoeffs(name, dTau=True, **params)
    return genQCoeffs(name, hCoeffs=True, **params)


def direct(kind, cls, params):
    o = cls(**params)
    return o.genCoeffs(dTau=True) if kind == "QD" else o.genCoeffs(hCoeffs=True)


def c18(rng, deep):
    from qmat.utils import getClasses
    from qmat.qcoeff.butcher import RK
    import qmat.qcoeff as qc
    import qmat.qdelta as qd
    R = registries()
    s = Session("c18.registries")
    ids = {}
    entry = lambda n, c: {"name": n, "cls": c.__name__, "id": ids.setdefault(c, len(ids) + 1), "module": c.__module__.split(".")[-1],
                          "decl": [c.__name__] + [x for x in (c.__dict__.get("aliases") or []) if isinstance(x, str)], "rk": issubclass(c, RK)}
    r = {k: [entry(n, c) for n, c in d.items()] for k, d in R.items()}
    h = s.new("reg.table", {}, r)
    for kind, d in R.items():
        mods = {"Q": ["butcher", "collocation"], "RK": ["butcher"], "QD": ["timestepping", "algebraic", "diag"]}[kind]
        for module in ["", *mods, "unknown", "Butcher", "coll", "but", "time", "qmat", "qcoeff", "qdelta", "ping", mods[0][1:], mods[-1] + ".", ".", "*"]:
            exc, out, _ = call(getClasses, d, module=module) if module else call(getClasses, d)
            s.add("reg.classes", {"kind": kind, "module": module},
                  {"exc": exc, "out": [{"name": n, "id": ids.get(c, 0)} for n, c in (out or {}).items()]}, h)
    yield s
    for kind, d in R.items():
        for c in sorted(set(d.values()), key=lambda c: c.__name__):
            s = Session(f"c18.{kind}.{c.__name__}")
            params = default(kind, c)
            ref = call(direct, kind, c, params)
            for n in [n for n, x in d.items() if x is c]:
                # the class is the one of the class statement with that name
                exc, v, _ = call(gen, "Q" if kind == "RK" else kind, n, **params)
                s.add("reg.gen", {"kind": kind, "name": n}, {"exc": exc + ref[0], "cls": c.__name__, "u": lst(v), "v": lst(ref[1])})
            yield s
    for kind in ["Q", "QD"]:
        s = Session(f"c18.unknown.{kind}")
        known = list(R[kind])
        bad = [n + " " for n in known] + [n.lower() for n in known] + [n[:-1] for n in known] + [n + "2" for n in known] + \
              ["", "None", "COLL", "nodes", "__init__", "RK", "QGenerator", "TimeStepping", "FromTable", "register", None, 0, 3.5, ("BE",)]
        bad = [n for n in bad if n not in R[kind]]
        for n in bad if deep else [bad[i] for i in sorted(rng.choice(len(bad) - 14, 25, replace=False))] + bad[-14:]:
            before = snapshot()
            exc, v, _ = call(gen, kind, n, **default(kind, object))
            s.add("reg.unknown", {"kind": kind, "name": str(n)}, {"exc": exc, "before": True, "after": snapshot() == before})
        yield s


class Unusable(Exception):
    pass


def build(d):
    """The class of a description."""
    from qmat.qcoeff import QGenerator
    from qmat.qcoeff.butcher import RK
    from qmat.qdelta import QDeltaGenerator
    f, n = d["fault"], 1 + int(d["id"][1:]) % 3
    ns = {"__module__": "user.generators"}
    c = np.linspace(0.2, 1, n)
    w = np.full(n, 1 / n)
    A = np.tril(np.ones((n, n))) / n + int(d["id"][1:])
    if d["kind"] == "Q":
        vals = {"nodes": c, "weights": w, "Q": A, "order": 1}
        for key, v in vals.items():
            if f == f"no-{key}": continue
            get = (lambda v: lambda self: v.copy() if isinstance(v, np.ndarray) else v)(v)
            ns[key] = get if f == f"{key}-not-property" else property(get)
        if f in ("no-default-params", "unusable-default-params"): ns["__init__"] = lambda self, p, q=1: None
        if f == "unusable-default-params": ns["DEFAULT_PARAMS"] = {"other": 3}
        if f == "constructor-fails":
            def init(self): raise Unusable()
            ns["__init__"] = init
        if f == "constructor-fails-with-params":
            # the parameters are of no use: the default instance is the one without any
            def init(self, p=None):
                if p is None: raise [ValueError, Unusable, KeyError][n - 1]("no default")
            ns["__init__"] = init
            ns["DEFAULT_PARAMS"] = {"p": 4}
        if f == "" and n == 2:
            def init(self, p, q=1): self.p = p
            ns["__init__"] = init
            ns["DEFAULT_PARAMS"] = {"p": 4}
        base = QGenerator
    elif d["kind"] == "RK":
        tab = {"A": A, "b": w, "c": c}
        if f == "A-too-small": tab["A"] = A[:-1, :-1]
        if f == "A-too-large": tab["A"] = np.ones((n + 1, n + 1))
        if f == "A-not-square": tab["A"] = np.ones((n, n + 1))
        if f == "b-too-small": tab["b"] = w[:-1]
        if f == "c-too-large": tab["c"] = np.append(c, 1)
        if f == "b2-too-small" or f == "" and n == 2: tab["b2"] = w[:-1] if f else w[::-1]
        if f == "b-two-dimensional": tab["b"] = np.array([w, w])
        if f == "c-scalar": tab["c"] = np.array(0.5)
        if f == "ragged-A": tab["A"] = [[0.0] * (i + 1) for i in range(n + 1)]
        for key in "Abc":
            if f == f"no-{key}": tab.pop(key)
        ns.update({k: v if isinstance(v, list) or n % 2 else v.tolist() for k, v in tab.items()})
        if f == "order-not-property": ns["order"] = lambda self: 1
        elif f == "order-none": ns["order"] = None
        elif f != "no-order": ns["order"] = property(lambda self: 1)
        base = RK
    else:
        dep = n == 3
        if f == "compute-without-k":
            def compute(self): return self.Q * 1
        elif f == "k-keyword-only":
            def compute(self, *, k=None): return self.Q * 1
        elif dep:
            def compute(self, k=1): return np.tril(self.Q) / (k or 1)
        else:
            def compute(self, k=None): return np.tril(self.Q) * 2
        if f != "no-compute": ns["computeQDelta"] = compute
        if f == "no-kwargs":
            def init(self, Q): self.Q = np.array(Q)
            ns["__init__"] = init
        if f == "kwargs-not-variable":
            if n == 1:
                def init(self, Q, kwargs=None): self.Q = np.array(Q)
            elif n == 2:
                def init(self, Q, *, kwargs=None): self.Q = np.array(Q)
            else:
                def init(self, Q, *kwargs): self.Q = np.array(Q)
            ns["__init__"] = init
        if f == "" and n == 2:
            def init(self, Q, **kwargs): self.Q = np.array(Q)
            ns["__init__"] = init
        base = QDeltaGenerator
    if d["aliases"] or int(d["id"][1:]) % 2: ns["aliases"] = list(d["aliases"]) if d["isList"] else tuple(d["aliases"])
    if not d["isList"] and len(d["aliases"]) == 1: ns["aliases"] = d["aliases"][0]
    return type(d["name"], (base,), ns)


def register(d, cls):
    from qmat.qcoeff import register
    from qmat.qcoeff.butcher import registerRK
    import qmat.qdelta
    return {"Q": register, "RK": registerRK, "QD": qmat.qdelta.register}[d["kind"]](cls)


def replay(s, history, rng):
    """Replay a sequence of registrations, with the state of the registries after every one."""
    R = registries()
    saved = {k: dict(d) for k, d in R.items()}
    ids = {}
    def state():
        return {k: [[n, ids.get(c, c.__name__)] for n, c in d.items()] for k, d in R.items()}
    try:
        s.nh = 1
        s.add("reg.base", {}, state(), 1)
        for d in history:
            cls = build(d)
            ids[cls] = d["id"]
            exc, got, _ = call(register, d, cls)
            if not exc and got is not cls: exc = "OtherClassReturned"
            s.add("reg.register", d, {"exc": exc, **state()})
            for name in ([d["name"]] + list(d["aliases"]))[:3]:
                kind = "Q" if d["kind"] == "RK" else d["kind"]
                if name in saved[kind]: continue
                use(s, kind, name, ids)
    finally:
        for k, d in R.items():
            d.clear()
            d.update(saved[k])
    return s


def use(s, kind, name, ids):
    from qmat.utils import getClasses
    R = registries()
    cls = R[kind].get(name)
    if cls is None:
        exc, v, _ = call(gen, kind, name, **default(kind, object))
        s.add("reg.use", {"kind": kind, "name": name}, {"exc": exc})
        return
    params = default(kind, cls) if kind == "QD" else dict(getattr(cls, "DEFAULT_PARAMS", {}))
    exc, v, _ = call(gen, kind, name, **params)
    if kind == "QD":
        g = params["qGen"]
        from qmat import genQDeltaCoeffs
        res = call(genQDeltaCoeffs, name, nSweeps=3, qGen=g)
        o = lambda: cls(Q=g.Q)
        v2 = call(lambda: [o().computeQDelta(), np.zeros(3), np.array([o().computeQDelta(k) for k in (1, 2, 3)])])
        u, w = lst(v) + [enc(res[1])], lst(v2[1])
        exc += res[0]
    else:
        o = cls(**params)
        v2 = call(lambda: [o.nodes, o.weights, o.Q])
        u, w = lst(v)[:3], lst(v2[1])
        exc += call(lambda: cls.getInstance().genCoeffs("N2N"))[0]
    s.add("reg.use", {"kind": kind, "name": name},
          {"exc": exc + v2[0], "u": u, "v": w, "listed": cls in getClasses(R[kind]).values()})


def c34(rng, deep):
    k = 0
    path = os.environ.get("BEHAVIOURS0")
    for line in open(path) if path else []:
        history = json.loads(line)
        if isinstance(history, str): history = json.loads(history)
        yield replay(Session(f"c34.generated.{k}"), history, rng)
        k += 1
    # one session for every fault alone, then the same class without it
    kinds = {"Q": ["no-nodes", "no-Q", "no-weights", "no-order", "nodes-not-property", "order-not-property", "Q-not-property",
                   "weights-not-property", "no-default-params", "unusable-default-params", "constructor-fails", "constructor-fails-with-params"],
             "RK": ["A-too-small", "A-too-large", "A-not-square", "b-too-small", "c-too-large", "no-order", "no-A", "no-b", "no-c",
                    "ragged-A", "order-not-property", "order-none", "b2-too-small", "b-two-dimensional", "c-scalar"],
             "QD": ["no-compute", "no-kwargs", "kwargs-not-variable", "compute-without-k", "k-keyword-only"]}
    for kind, faults in kinds.items():
        for f in ["", *faults]:
            for n in (1, 2, 3):
                al = [["A1", "A2"], [], ["Other"]][n - 1]
                d = dict(kind=kind, name="Fresh", aliases=al, isList=True)
                yield replay(Session(f"c34.{kind}.{f}.{n}"),
                             [dict(d, fault=f, id=f"U{n}"), dict(d, fault="", id=f"U{n + 3}"), dict(d, fault="", id=f"U{n + 6}", aliases=["Late"])], rng)
        taken = {"Q": "RK4", "RK": "coll", "QD": "LF"}[kind]
        for j, (name, al, isl) in enumerate([(taken, [], True), ("Fresh", [taken], True), ("Fresh", ["A1", taken], True), ("Fresh", [taken, "A1"], True),
                               ("Fresh", ["A1", "A2", "A1"], True), ("Fresh", ["Fresh"], True), ("Fresh", ["A1", "A2"], False), ("Fresh", ["A"], False)]):
            yield replay(Session(f"c34.{kind}.names.{j}"),
                         [dict(kind=kind, name=name, aliases=al, isList=isl, fault="", id="U1"),
                          dict(kind=kind, name="Fresh", aliases=["A1", "A2"], isList=True, fault="", id="U2"),
                          dict(kind=kind, name="Third", aliases=["A3", "A2"], isList=True, fault="", id="U3"),
                          dict(kind="RK" if kind == "Q" else "Q", name="Fresh", aliases=["A3"], isList=True, fault="", id="U4"),
                          dict(kind="QD", name="Third", aliases=["A3"], isList=True, fault="", id="U5")], rng)
