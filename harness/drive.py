"""Runs the driver of a property against /repo and writes the recorded sessions (one JSON line each)."""
import importlib
import os
import sys
import traceback

REPO = os.environ.get("QMAT_REPO", "/repo")


def main(prop, tier, seed, out):
    sys.path.insert(0, REPO)
    import numpy as np
    from . import table
    from .rec import Session, TooManyHangs
    np.seterr(all="ignore")
    n = 0
    with open(out, "w") as f:
        for k, (mod, fun) in enumerate(table.PROPS[prop]["drivers"]):
            rng = np.random.default_rng([seed, k, int(prop[1:])])
            try:
                m = importlib.import_module(f"harness.drivers.{mod}")
                for s in getattr(m, fun)(rng, tier == "thorough"):
                    f.write(s.dump() + "\n")
                    n += 1
            except (Exception, TooManyHangs) as e:          # a call outside the recorded ones failed
                traceback.print_exc()
                s = Session(f"{mod}.{fun}.crash")
                s.add("crash", {"prop": prop, "what": f"{type(e).__name__}: {e}"[:300]}, {})
                f.write(s.dump() + "\n")
            f.flush()
    import qmat
    assert os.path.dirname(os.path.dirname(os.path.abspath(qmat.__file__))) == os.path.abspath(REPO), qmat.__file__
    print(n, "sessions")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4])
