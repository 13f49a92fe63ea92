"""Sessions on Runge-Kutta schemes (C14..C17) and stability functions (C35)."""
import numpy as np
from ..rec import Session, call, enc, NONE
from .coll import rk_schemes, attrs, make

PAIRS = [("ARK548L2SA", "ARK548L2SAERK", "ARK548L2SAESDIRK"), ("ARK548L2SA2", "ARK548L2SAERK2", "ARK548L2SAESDIRK2"),
         ("ARK324L2SA", "ARK324L2SAERK", "ARK324L2SAESDIRK"), ("ARK222", "ARK222ERK", "ARK222EDIRK"),
         ("ARK443", "ARK443ERK", "ARK443ESDIRK"), ("ARK343", "ARK343ERK", "ARK343ESDIRK"), ("ARK4", "ARK4ERK", "ARK4EDIRK")]


def table(o, exc=""):
    """Butcher table of an instance."""
    if o is None: return {"exc": exc}
    exc, v = attrs(o, "A", "b", "c", "b2", "nodes", "weights", "Q", "order")
    if exc: return {"exc": exc}
    r = {"exc": "", "order": int(v[7])}
    for key, x in zip(["A", "b", "c", "b2", "nodes", "weights", "Q"], v): r[key] = enc(x)
    r["embExc"], w2, _ = call(lambda: o.weightsEmbedded)
    if not r["embExc"]: r["b2"] = enc(w2)
    r["orderEmb"] = int(call(lambda: o.orderEmbedded)[1] or 0)
    return r


def inst(cls, **kw):
    exc, o, _ = call(cls, **kw)
    return table(o, exc)


def c14(rng, deep):
    for name, cls in rk_schemes().items():
        for pad in [None] + (["LEFT", "RIGHT", "BOTH"] if deep else [str(rng.choice(["LEFT", "RIGHT", "BOTH"]))]):
            s = Session(f"c14.{name}" + (f".{pad}" if pad else ""))
            s.add("rk.order", {"name": name, "pad": pad or ""}, inst(cls, padding=pad))
            yield s


def c15(rng, deep):
    from qmat.qcoeff.butcher import RK_SCHEMES
    for name, cls in rk_schemes().items():
        s = Session(f"c15.{name}")
        s.add("rk.table", {"name": name}, inst(cls))
        yield s
    # every documented scheme through the registry, under the name of the class
    s = Session("c15.names")
    for name in ["FE", "RK4", "BE", "SDIRK3", "GAUSS_LG", "ARK4ERK", "CashKarp", "EDIRK43"]:
        s.add("rk.table", {"name": name}, inst(RK_SCHEMES[name]))
    yield s


def c16(rng, deep):
    from qmat.qcoeff.butcher import RK_SCHEMES
    for pair, ex, im in PAIRS:
        s = Session(f"c16.{pair}")
        E, I = inst(RK_SCHEMES[ex]), inst(RK_SCHEMES[im])
        s.add("rk.pair", {"pair": pair}, {"exc": E["exc"] + I["exc"], "E": E, "I": I})
        yield s


def c17(rng, deep):
    for name, cls in rk_schemes().items():
        s = Session(f"c17.{name}")
        exc, base, _ = call(cls)
        h = s.new("rk.new", {"name": name}, table(base, exc))
        if base is None:
            yield s
            continue
        order = ["LEFT", "RIGHT", "BOTH", "", "BOTH", "LEFT"] if not deep else ["LEFT", "RIGHT", "BOTH", ""] * 3
        for pad in rng.permutation(order):
            pad = str(pad)
            exc, o, _ = call(cls, padding=pad) if pad else call(cls)
            s.add("rk.pad", {"name": name, "pad": pad}, table(o, exc), h)
            # the first instance and the class are as before
            s.add("rk.pad", {"name": name, "pad": ""}, table(base), h)
            if o is not None and pad:
                emb = base.b2 is not None and rng.integers(0, 2) == 1
                arg = (complex(-1, 2), 1.5, 1.0, 3, emb)
                u, v = call(base.solveDahlquist, *arg), call(o.solveDahlquist, *arg)
                s.add("rk.padsolve", {"name": name, "pad": pad, "emb": bool(emb)}, {"exc": u[0] + v[0], "u": enc(u[1]), "v": enc(v[1])})
        for pad in ["left", "TOP", "BOTH ", "LEFTRIGHT", 1]:
            exc, o, _ = call(cls, padding=pad)
            s.add("rk.pad", {"name": name, "pad": str(pad)}, {"exc": exc} if o is None else table(o), h)
        yield s


def c35(rng, deep):
    for name, cls in rk_schemes().items():
        s = Session(f"c35.{name}")
        r = inst(cls)
        s.add("stability", {"kind": "rk", "name": name, "qt": ""}, {"exc": r["exc"], "A": r.get("A"), "b": r.get("b")})
        yield s
    for qt in ["GAUSS", "RADAU-RIGHT", "LOBATTO"]:
        for n in range(1 if qt != "LOBATTO" else 2, 11 if deep else 7):
            s = Session(f"c35.{qt}.{n}")
            for iv in [(0, 1)] + ([(2, 3), (-1, 0)] if deep else [(2, 3)]):
                exc, o, _ = make("LEGENDRE", qt, n, *iv)
                e2, v = attrs(o, "Q", "weights") if o is not None else (exc, None)
                s.add("stability", {"kind": "coll", "name": "Collocation", "qt": qt},
                      {"exc": e2, "A": enc(v[0]), "b": enc(v[1])} if v else {"exc": e2})
            yield s
