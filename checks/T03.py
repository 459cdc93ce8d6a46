"""T03: weight inversion, every short vector over an alphabet of special values."""
import itertools, math
import numpy as np
from vf import Result
from PyFHD.pyfhd_tools.pyfhd_utils import weight_invert

ID, LEVEL = "T03", "exploration"
RULE = ("every vector up to the length bound over special float/complex values (zeros, NaN, infinities, subnormal, "
        "negative), times threshold settings and use_abs, plus scalars and 2-D shapes; non-trivial: contains a zero, "
        "NaN, infinity or a value on either side of the threshold")
ASSUMPTIONS = ["use_abs selects by magnitude; the inverse itself is of the value"]
nan, inf = float("nan"), float("inf")
F = [0.0, 1.0, -2.0, 0.5, nan, inf, -inf, 1e-320, -1e-320, -0.0]
C = [0j, 1 + 1j, -3j, 0.5 + 0j, complex(nan, 0), complex(0, inf), 3 - 4j, complex(-1e-320, 0), complex(0, 1e-320)]
TH = [None, 0.0, 0.75, 1.0, 3.0, -1.5]
INT = [0, 1, -2, 3, 7]


def cases(tier):
    L = 2 if tier == "quick" else 4
    for n in range(1, L + 1):
        for k, a in (("f", F), ("c", C)):
            for d in itertools.product(range(len(a)), repeat=n):
                yield {"kind": k, "data": list(d)}
    for n in range(1, 4):
        for d in itertools.product(range(len(INT)), repeat=n):
            yield {"kind": "i", "data": list(d)}
    for d in itertools.product(range(len(F)), repeat=3):
        yield {"kind": "f", "data": list(d), "shape2d": 1}
    for k, a in (("f", F), ("c", C), ("i", INT)):
        for i in range(len(a)):
            yield {"kind": "scalar" + k, "data": [i]}


def want_one(x, th, use_abs):
    m = abs(x) if (use_abs or isinstance(x, complex)) else x
    if th is not None:
        sel = m >= th
    else:
        sel = m != 0
    if not sel:
        return x * 0 if False else (0j if isinstance(x, complex) else 0.0)
    with np.errstate(all="ignore"):
        y = 1 / np.asarray(x, dtype=complex if isinstance(x, complex) else float)
    y = y[()]
    if np.isnan(y) or np.isinf(y):
        y = y * 0 if False else (0j if isinstance(x, complex) else 0.0)
    return y


def check(c):
    r = Result()
    k = c["kind"][-1]
    alpha = {"f": F, "c": C, "i": INT}[k]
    vals = [alpha[i] for i in c["data"]]
    outs = []
    for th in TH:
        for ua in (False, True):
            want = np.array([want_one(x, th, ua) for x in vals])
            if c["kind"].startswith("scalar"):
                for x in (vals[0], np.array(vals)[0]):
                    got = weight_invert(x, threshold=th, use_abs=ua)
                    r.steps += 1
                    r.expect(np.ndim(got) == 0 and np.allclose(got, want[0], rtol=1e-14, atol=0), "scalar",
                             lambda: f"{x!r} threshold={th} use_abs={ua}: {got!r} expected {want[0]!r}")
                continue
            a = np.array(vals)
            if c.get("shape2d"):
                a = a.reshape(-1, 1).repeat(2, axis=1); want = want.reshape(-1, 1).repeat(2, axis=1)
            keep = a.copy()
            got = weight_invert(a, threshold=th, use_abs=ua)
            r.steps += 1
            r.expect(np.array_equal(a, keep, equal_nan=True), "input_changed", lambda: f"{vals} {th} {ua}")
            if a.size == 1:
                ok = np.ndim(got) == 0 and np.allclose(got, want.ravel()[0], rtol=1e-14, atol=0)
            else:
                ok = np.shape(got) == a.shape and np.allclose(got, want, rtol=1e-14, atol=0)
            r.expect(ok, "values", lambda: f"{vals} threshold={th} use_abs={ua}: {got!r} expected {want!r}")
            outs.append(np.atleast_1d(np.asarray(got)))
    r.out = outs
    return r
