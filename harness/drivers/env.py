"""Settings of the process before and after requests of all kinds (C44)."""
import atexit
import decimal
import gc
import hashlib
import io
import json
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import warnings
import numpy as np
from ..rec import Session, Hang
from .ses import in_child
from .own import functions
from .util import catalog

sha = lambda x: hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def settings(tmp):
    """name -> present value, as text"""
    import scipy.special
    import scipy.linalg
    import scipy.optimize
    state = np.random.get_state()
    mods = [np, np.linalg, np.polynomial.legendre, scipy.linalg, scipy.special, scipy.optimize, sys.modules["builtins"], os, time]
    return {
        "numpy-errors": json.dumps(np.geterr(), sort_keys=True) + str(np.getbufsize()),
        "numpy-errcall": str(id(np.geterrcall())),
        "numpy-print": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "numpy-random": sha((state[0], state[1].tobytes(), state[2:])),
        "random": sha(random.getstate()),
        "warning-filters": repr(warnings.filters),
        "warning-handlers": repr((id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn))),
        "scipy-errors": json.dumps(scipy.special.geterr(), sort_keys=True),
        "folder": os.getcwd(),
        "environment": sha(sorted(os.environ.items())),
        "search-path": sha((sys.path, [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks])),
        "limits": repr((sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), len(gc.callbacks), sys.gettrace() is None, sys.getprofile() is None)),
        "hooks": repr((id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.stderr), id(sys.stdin), id(sys.__stdout__), atexit._ncallbacks())),
        "signals": repr([str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGUSR1, signal.SIGALRM, signal.SIGCHLD)]),
        "locale": repr((locale.setlocale(locale.LC_ALL), time.tzname, decimal.getcontext().prec, str(decimal.getcontext().rounding))),
        "logging": repr((logging.root.level, [id(h) for h in logging.root.handlers], logging.root.disabled, logging.raiseExceptions)),
        "threads": repr(sorted(t.name for t in threading.enumerate())),
        "files": repr(sorted(os.path.join(d, x) for d, a, b in os.walk(tmp) for x in a + b)),
        "functions": sha([(m.__name__, k, id(v)) for m in mods for k, v in sorted(vars(m).items()) if callable(v)]),
    }


def quiet1(*a): pass
def quiet2(*a): pass


class Seen(list):
    def write(self, text): self.append(text)


SEEN = Seen()


def choose(c, v, tmp):
    """The caller chooses the v-th value of a setting."""
    import scipy.special
    if c == 1:
        np.seterr(**[dict(all="ignore"), dict(all="warn"), dict(divide="ignore", over="warn", under="ignore", invalid="call")][v - 1])
        np.setbufsize([8192, 4096, 16384][v - 1])
    elif c == 2: np.seterrcall([quiet1, quiet2, SEEN][v - 1])
    elif c == 3: np.set_printoptions(precision=[3, 8, 12][v - 1], suppress=v == 2, linewidth=60 + v, floatmode=["fixed", "maxprec", "unique"][v - 1])
    elif c == 4: np.random.seed(v)
    elif c == 5: random.seed(v)
    elif c == 6:
        warnings.simplefilter(["default", "error", "ignore"][v - 1])
        # entries the library could want to have itself, below others
        for action, cat in [[("ignore", RuntimeWarning), ("always", DeprecationWarning), ("ignore", UserWarning)],
                            [("ignore", DeprecationWarning), ("error", RuntimeWarning), ("default", ImportWarning)],
                            [("ignore", RuntimeWarning), ("ignore", DeprecationWarning), ("error", FutureWarning)]][v - 1]:
            warnings.simplefilter(action, cat)
    elif c == 7: os.chdir(os.path.join(tmp, str(v)))
    elif c == 8: os.environ.update(QMAT=str(v), OMP_NUM_THREADS=str(v), TZ=["UTC", "CET", "EST"][v - 1])
    elif c == 9:
        sys.setrecursionlimit(900 + 300 * v)
        gc.set_threshold(700 + v, 10, 10)
        (gc.disable if v == 3 else gc.enable)()
        warnings.showwarning = [quiet1, quiet2, warnings.showwarning][v - 1]
    else: scipy.special.seterr(all=["ignore", "warn", "ignore"][v - 1])


def extremes(rng):
    """(label, request, does it print): numbers out of the range of doubles, no convergence, wrong classes, timers."""
    import qmat
    from qmat import genQDeltaCoeffs, genQCoeffs
    from qmat.lagrange import LagrangeApproximation as LA
    from qmat.nodes import NodesGenerator
    from qmat.qcoeff import register as registerQ, QGenerator
    from qmat.qcoeff.collocation import Collocation
    from qmat.qdelta import QDELTA_GENERATORS, register
    from qmat.utils import Timer, num, sdc
    from .coll import rk_schemes
    n, sc = int(rng.integers(150, 1300)), 10.0 ** -int(rng.integers(0, 4))
    cheb = np.cos(np.pi * np.arange(n) / (n - 1)) * sc
    coll = Collocation(int(rng.integers(2, 5)), "LEGENDRE", "RADAU-RIGHT")
    m = coll.nNodes
    rk = rk_schemes()[str(rng.choice(list(rk_schemes())))]()
    alg = str(rng.choice(["AUTO", "AUTO", "AUTO", "FAST", "STABLE", "CHEBFUN"]))
    near = np.sort(rng.uniform(0, 1, 6)); near[1] = near[0] + 10.0 ** -int(rng.integers(8, 300))
    flex = [c for c in ("MIN_SR_FLEX", "MIN_SR_S", "FlexJumper", "Jumper", "MIN3", "MIN_VDHS", "TRAP", "LU", "GS", "SOE", "QPar")]
    name = str(rng.choice(flex))
    bad = ["deprecated", "timer", "timer-fails"][int(rng.integers(0, 3))]

    def timer():
        with Timer("things", scale=2):
            if bad == "timer-fails": raise KeyError("inside")

    def clocks():
        a, b = Timer("a"), Timer("b", descr="b")
        a.start()
        if rng.integers(0, 2):
            b.start()
            a.stop()

    def wrong():
        class Wrong(QGenerator):
            @property
            def nodes(self): return np.zeros(2)
        if rng.integers(0, 2): Wrong.aliases = ["BE"]
        return registerQ(Wrong)

    out = [
        (f"{n} points {alg}", lambda: LA(cheb, weightComputation=alg, scaleRef=["MAX", "ZERO"][int(rng.integers(0, 2))])),
        (f"{n} equidistant points", lambda: LA(np.arange(float(n)) if rng.integers(0, 2) else np.linspace(0, sc, n), weightComputation=alg).getInterpolationMatrix([0.5])),
        ("near points", lambda: [LA(near, weightComputation=alg).getDerivativeMatrix("ALL"), LA(near).getInterpolationMatrix(near)]),
        ("sparse points", lambda: LA(near * 1e-250, weightComputation=alg).getIntegrationMatrix([(0, 1)], str(rng.choice(["FEJER", "LEGENDRE_SCIPY", "LEGENDRE_NUMPY"])))),
        ("overflow of steps", lambda: [rk.solveDahlquist(1e9, 1, 1, 300), rk.errorDahlquist(1e300, 1, 1, 3)]),
        ("overflow of sweeps", lambda: sdc.solveDahlquistSDC(1e30, 1, 1, 20, 30, coll.Q, np.zeros((m, m)), monitors=["errors", "residuals"])),
        ("singular systems", lambda: sdc.solveDahlquistSDC(1, 1, 1, 1, 1, np.zeros((2, 2)), np.eye(2)) if rng.integers(0, 2) else num.lduFactorization(np.zeros((3, 3)))),
        ("orders of nothing", lambda: [num.numericalOrder([1, 2, 4], [0, 0, 0]), num.numericalOrder([2, 2], [1, 1]), num.numericalOrder([1, 0], [-1, 1])]),
        (f"{name} for all forms", lambda: [genQDeltaCoeffs(name, form=f, nSweeps=3, dTau=d, nNodes=m, nodeType="LEGENDRE", quadType="RADAU-RIGHT", nodes=coll.nodes, Q=coll.Q)
                                           for f in ("Z2N", "N2N") for d in (False, True)]),
        (f"{name} without convergence", lambda: QDELTA_GENERATORS[name](nNodes=m, nodeType="CHEBY-4", quadType="LOBATTO", nodes=np.array([0.0, 1e-200, 1.0]), Q=np.full((3, 3), 1e200)).getQDelta(2)),
        ("deprecated names", lambda: [LA([0, 1]).getDerivationMatrix(), genQDeltaCoeffs("BE", coll=coll)] if bad == "deprecated" else timer(), bad != "deprecated"),
        ("running timers", clocks, True),
        ("wrong classes", lambda: wrong() if rng.integers(0, 2) else register(type("Wrong", (object,), {"aliases": None}))),
        ("many nodes", lambda: [NodesGenerator("CHEBY-3", "RADAU-LEFT").getNodes(int(rng.integers(40, 150))), genQCoeffs("Collocation", nNodes=25, nodeType="EQUID", quadType="LOBATTO")]),
        ("nothing", lambda: [LA([]), NodesGenerator(0, 0)]),
        ("all registered", lambda: [rk_schemes()[k].getInstance().genCoeffs() for k in list(rk_schemes())[:8]] + [Collocation.getInstance().order]),
    ]
    return [(x[0], x[1], len(x) > 2 and x[2]) for x in out]


def bare_environment():
    """The environment of a user who chose nothing."""
    for k in list(os.environ):
        if k not in ("PATH", "HOME", "MPLCONFIGDIR"): del os.environ[k]


def c44(rng, deep):
    import scipy.integrate, scipy.interpolate, scipy.linalg, scipy.optimize, scipy.sparse, scipy.special, numpy.testing  # noqa: F401,E401
    rows = [json.loads(json.loads(x)) for x in open(os.environ["BEHAVIOURS0"])]
    for b, log in enumerate(rows):
        seed = int(rng.integers(0, 2**31))

        def session():
            rng = np.random.default_rng(seed)
            s = Session(f"c44.{b}")
            tmp = tempfile.mkdtemp(prefix="c44.", dir=os.environ.get("MPLCONFIGDIR"))
            for v in (1, 2, 3): os.mkdir(os.path.join(tmp, str(v)))

            def alarm(*_): raise Hang()
            signal.signal(signal.SIGALRM, alarm)
            here, out = os.getcwd(), sys.stdout
            if b % 2: bare_environment()
            try:
                old = settings(tmp)
                s.add("env.start", {"names": list(old)}, {"now": list(old.values())})
                objs = {}
                for st in log:
                    if st["op"] == "set":
                        choose(st["c"], st["v"], tmp)
                        s.add("env.set", {"c": st["c"], "v": st["v"]}, {"now": list(settings(tmp).values())})
                        continue
                    k, i, prints = st["c"], st["v"], False
                    # preparing the request is no part of it
                    with np.errstate(all="ignore"), warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if k in (1, 2):
                            o = i % 3
                            if o not in objs:
                                x = catalog(rng)
                                objs[o] = x, x[1]()
                            (label, _, valid, invalid), inst = objs[o]
                            f = valid[i % 7] if k == 1 else invalid[i - 1]
                            label, request = f"{label} {'valid' if k == 1 else 'invalid'} {i}", lambda: f(inst)
                        elif k == 3:
                            fs = functions(rng)
                            label, makers, g = fs[int(rng.integers(0, len(fs)))]
                            args = {a: mk() for a, mk in makers.items()}
                            request = lambda: g(**args)
                        else:
                            xs = extremes(rng)
                            label, request, prints = xs[int(rng.integers(0, len(xs)))]
                    before = settings(tmp)
                    if list(before.values()) != s.ev[-1]["r"]["now"]: s.add("env.set", {"c": 0, "v": 0}, {"now": list(before.values())})
                    text, exc = io.StringIO(), ""
                    sys.stdout = text
                    signal.alarm(60)
                    try: request()
                    except Exception as e: exc = type(e).__name__
                    finally: signal.alarm(0)
                    changed = sys.stdout is not text
                    sys.stdout = out
                    now = settings(tmp)
                    if changed: now["hooks"] += "stdout"
                    s.add("env.ask", {"what": label, "prints": prints}, {"exc": exc, "now": list(now.values()), "printed": text.getvalue()[:200]})
            finally:
                sys.stdout = out
                os.chdir(here)
                shutil.rmtree(tmp, ignore_errors=True)
            return s.ev
        s = Session(f"c44.{b}")
        s.ev = in_child(session)
        yield s
