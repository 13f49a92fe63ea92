"""Arrays of other types holding the same numbers."""
import numpy as np

TYPES = [np.int64, np.uint8, np.int8, np.uint64, np.int16, np.float32, np.uint32, np.float16, np.int32, np.uint16, np.longdouble]


def retyped(a, k):
    """The array in the k-th type (counted over the ones that represent all its values exactly)."""
    a = np.asarray(a, dtype=float)
    ok = []
    for t in TYPES:
        if np.issubdtype(t, np.integer):
            i = np.iinfo(t)
            if not (np.all(a == np.round(a)) and np.all((a >= i.min) & (a <= min(i.max, 2**53)))): continue
        if t is np.longdouble and np.any((a != 0) & ((np.abs(a) < 1e-290) | (np.abs(a) > 1e290))): continue      # results beyond the range of doubles
        with np.errstate(all="ignore"): b = a.astype(t)
        if np.array_equal(b.astype(float), a): ok.append(b)
    return ok[k % len(ok)] if ok else a
