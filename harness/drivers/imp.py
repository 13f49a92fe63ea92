"""Imports of the modules of the library in new processes (C45)."""
import importlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import types
import warnings
import numpy as np
from ..rec import Session
from .env import bare_environment, choose, settings
from .ses import in_child

MODULES = {
    "qmat": "genQCoeffs genQDeltaCoeffs Q_GENERATORS QDELTA_GENERATORS",
    "qmat.nodes": "NodesGenerator",
    "qmat.lagrange": "LagrangeApproximation getSparseInterpolationMatrix computeFejerRule",
    "qmat.qcoeff": "genQCoeffs QGenerator Q_GENERATORS register",
    "qmat.qcoeff.butcher": "RK RK_SCHEMES registerRK RK4 BE",
    "qmat.qcoeff.collocation": "Collocation",
    "qmat.qdelta": "genQDeltaCoeffs QDeltaGenerator QDELTA_GENERATORS register",
    "qmat.qdelta.algebraic": "PIC Exact LU LU2 QPar GS LDU",
    "qmat.qdelta.timestepping": "TimeStepping BE FE TRAP BEPAR TRAPAR SOE",
    "qmat.qdelta.diag": "FromTable MIN MIN3 MIN_VDHS MIN_SR_NS MIN_SR_S MIN_SR_FLEX Jumper FlexJumper",
    "qmat.qdelta.mincoeffs": "",
    "qmat.utils": "getClasses Timer",
    "qmat.utils.num": "numericalOrder getExtrapolationMatrix lduFactorization",
    "qmat.utils.sdc": "solveDahlquistSDC errorDahlquistSDC getOrderSDC",
    "qmat.scripts.stability": "main",
}
NAMES = list(MODULES)


def get(m, way):
    """The names the caller gets."""
    ns = {}
    if way == 1: exec(f"import {m}", ns)
    elif way == 2: importlib.import_module(m)
    elif way == 3: exec(f"from {m} import *", ns)
    else:
        for x in MODULES[m].split(): exec(f"from {m} import {x}", ns)
        if not MODULES[m]: exec(f"import {m} as x", ns)
    return ns


def public(d):
    """Names and what they are (modules excluded: attributes of packages appear with the imports)."""
    return repr(sorted((k, f"{getattr(v, '__module__', '')}.{getattr(v, '__qualname__', type(v).__name__)}") for k, v in d.items()
                       if not k.startswith("_") and not isinstance(v, types.ModuleType)))


def state(m):
    mod = sys.modules[m]
    star = {}
    exec(f"from {m} import *", star)
    at = importlib.import_module
    Q, QD, RK, root = at("qmat.qcoeff").Q_GENERATORS, at("qmat.qdelta").QDELTA_GENERATORS, at("qmat.qcoeff.butcher").RK_SCHEMES, at("qmat")
    same = root.Q_GENERATORS is Q and root.QDELTA_GENERATORS is QD
    doc = all(hasattr(mod, x) for x in MODULES[m].split()) and all(k in star for k in getattr(mod, "__all__", [])) and same
    where = {k: [(x, f"{c.__module__}.{c.__qualname__}", getattr(sys.modules[c.__module__], c.__name__, None) is c) for x, c in sorted(d.items())] for k, d in (("Q", Q), ("RK", RK), ("QD", QD))}
    return {"reg": {"Q": sorted(Q), "RK": sorted(RK), "QD": sorted(QD)}, "names": public(vars(mod)) + public(star), "classes": repr(sorted(where.items())), "documented": doc}


def reference():
    """Everything imported in the documented order."""
    try:
        for m in NAMES: importlib.import_module(m)
        return {m: state(m) for m in NAMES}
    except Exception as e:
        return {m: {"names": type(e).__name__, "classes": ""} for m in NAMES}


def session(name, log, ref):
    s = Session(name)
    tmp = tempfile.mkdtemp(prefix="c45.", dir=os.environ.get("MPLCONFIGDIR"))
    for v in (1, 2, 3): os.mkdir(os.path.join(tmp, str(v)))
    here, out = os.getcwd(), sys.stdout
    if sum(map(ord, name)) % 2: bare_environment()
    try:
        old = settings(tmp)
        s.add("env.start", {"names": list(old)}, {"now": list(old.values())})
        for m in sorted({st[0] for st in log}): s.add("imp.ref", {"m": m}, {"names": ref[m]["names"], "classes": ref[m]["classes"]})
        for m, way, sets in log:
            for c, v in sets:
                choose(c, v, tmp)
                s.add("env.set", {"c": c, "v": v}, {"now": list(settings(tmp).values())})
            text, exc, r = io.StringIO(), "", {}
            sys.stdout = text
            try: get(m, way)
            except Exception as e: exc = type(e).__name__
            sys.stdout = out
            now = settings(tmp)
            # looked at in another process: this one imports nothing more
            def look():
                try: return "", state(m)
                except Exception as e: return type(e).__name__, {}
            if not exc: exc, r = in_child(look)
            s.add("imp.ask", {"m": m, "way": way}, {"exc": exc, "now": list(now.values()), "printed": text.getvalue()[:200], **r})
            if exc: break
    finally:
        sys.stdout = out
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    return s.ev


ALONE = '''
import os, sys
before = dict(os.environ)
sys.path[:0] = %r
sys.path_importer_cache.clear()
%s
assert sys.stdout.write("") == 0
import numpy as np, warnings
print("ALONE", dict(os.environ) == before and np.geterr() == dict(divide="warn", over="warn", under="ignore", invalid="warn"), len(__import__("qmat").QDELTA_GENERATORS) > 30)
'''


def c45(rng, deep):
    assert not any(k == "qmat" or k.startswith("qmat.") for k in sys.modules)
    import scipy.integrate, scipy.interpolate, scipy.linalg, scipy.optimize, scipy.sparse, scipy.special, numpy.testing  # noqa: F401,E401
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    ref = in_child(reference)
    plans = [(f"first.{m}.{w}", [(m, w, [])] + [(x, 1 + (w + k) % 4, []) for k, x in enumerate(rng.permutation(NAMES))][:3]) for m in NAMES for w in (1, 2, 3, 4)]
    for b, row in enumerate(json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])):
        sets = {1: [], 2: [(int(rng.integers(1, 11)), int(rng.integers(1, 4)))], 3: [(6, 2), (1, int(rng.integers(1, 4)))]}
        plans.append((f"c45.{b}", [(NAMES[st["m"] - 1], st["w"], sets[st["c"]]) for st in row]))
    for name, log in plans:
        s = Session(name)
        s.ev = in_child(lambda: session(name, [(str(m), int(w), c) for m, w, c in log], ref))
        yield s
    # processes in which nothing at all was imported before
    names = NAMES if deep else [str(x) for x in rng.permutation(NAMES)[:4]]
    repo = os.environ.get("QMAT_REPO", "/repo")
    for m in names:
        for flag in ([], ["-W", "error"], ["-O"]) if deep else ([["-W", "error"], ["-O"], []][int(rng.integers(0, 3))],):
            s = Session(f"alone.{m}{''.join(flag)}")
            env = {k: os.environ[k] for k in ("PATH", "HOME", "MPLCONFIGDIR") if k in os.environ} if rng.integers(0, 2) else None
            p = subprocess.run([sys.executable, "-B", *flag, "-c", ALONE % ([repo], f"import {m}")], capture_output=True, text=True, timeout=120, env=env)
            s.add("imp.alone", {"m": m}, {"rc": p.returncode, "out": p.stdout.strip()})
            yield s
