"""T02: rebin against the definition (linear interpolation / block mean / nearest sampling)."""
import itertools, math
import numpy as np
from vf import Result, close, diff
from PyFHD.pyfhd_tools.pyfhd_utils import rebin

ID, LEVEL = "T02", "exploration"
RULE = ("every source shape up to the bound, every target shape that is an integer multiple or factor per axis up to the "
        "bound, value patterns {random-like, unit impulses at every position, constant, ramp} in int/float/complex, "
        "sampling on and off, target as tuple and list; non-trivial: the shape changes")
ASSUMPTIONS = ["mixed grow/shrink on integer data is not compared (rounding order unspecified)"]


def factors(n, cap):
    return sorted({n * k for k in (1, 2, 3, 4) if n * k <= cap} | {n // k for k in (2, 3, 4) if n % k == 0})


def cases(tier):
    cap = 6 if tier == "quick" else 8
    for r in range(0, cap + 1):      # 0 rows: a 1-D source
        for c in range(1, cap + 1):
            for tr in factors(max(r, 1), 12):
                for tc in factors(c, 12):
                    yield {"rows": r, "cols": c, "to": [tr, tc]}


def patterns(shape):
    n = int(np.prod(shape))
    base = (np.arange(n) * 37 + 11) % 29 - 9
    yield "int", base.reshape(shape).astype(np.int64)
    yield "int-", (-base).reshape(shape).astype(np.int64)
    yield "int--", (base - 12 - 3 * np.arange(n)).reshape(shape).astype(np.int64)
    yield "float", (base / 4.0 + 0.125).reshape(shape)
    yield "complex", (base / 4.0 + 1j * ((base * 5) % 7)).reshape(shape)
    yield "const", np.full(shape, 3.5)
    yield "ramp", np.arange(n, dtype=float).reshape(shape)
    for i in range(n):
        a = np.zeros(n); a[i] = 8.0
        yield f"impulse{i}", a.reshape(shape)


def grow(a, k, integer):
    """Linear interpolation between neighbours along axis 0, last sample held."""
    n = a.shape[0]
    out = []
    for i in range(n):
        for j in range(k):
            if i + 1 < n:
                inc = (a[i + 1] - a[i]) / k * j
                out.append(a[i] + (np.floor(inc).astype(int) if integer else inc))
            else:
                out.append(a[i])
    return np.array(out)


def reference(a, shape, sample):
    integer = np.issubdtype(a.dtype, np.integer)
    one_d = a.ndim == 1
    m = a[None, :] if one_d else a
    R, C = m.shape
    tr, tc = shape
    if sample:
        rows = np.repeat(np.arange(R), tr // R) if tr >= R else np.arange(0, R, R // tr)
        cols = np.repeat(np.arange(C), tc // C) if tc >= C else np.arange(0, C, C // tc)
        return m[np.ix_(rows, cols)]
    if tr > R:
        m = grow(m, tr // R, integer)
    if tc > C:
        m = grow(m.T, tc // C, integer).T
    if tr < R or tc < C:
        kr, kc = max(R // tr, 1), max(C // tc, 1)
        b = m.reshape(tr, kr, tc, kc).mean(-1)
        if integer:
            b = np.fix(b).astype(int)
        m = b.mean(1)
        if integer:
            m = np.fix(m).astype(int)
    return m


def check(c):
    r = Result()
    R, C = c["rows"], c["cols"]
    tr, tc = c["to"]
    src = (C,) if R == 0 else (R, C)
    r.nontrivial = (max(R, 1), C) != (tr, tc)
    mixed = (tr > max(R, 1) and tc < C) or (tr < max(R, 1) and tc > C)
    for name, a in patterns(src):
        if mixed and name.startswith("int"):
            continue
        for sample in (False, True):
            if sample and (R <= 1 and tr > 1):
                continue          # sampling a single row into several is not offered
            keep = a.copy()
            got = rebin(a, (tr, tc), sample=sample)
            r.steps += 1
            want = reference(a, (tr, tc), sample)
            g = np.asarray(got)
            if tr == 1 and g.ndim == 1:
                g = g[None, :]
            lab = f"{name} {src}->{(tr, tc)} sample={sample}"
            r.expect(close(g, want), "values", lambda: f"{lab}: {diff(g, want)}")
            if name.startswith("int"):
                r.expect(g.dtype.kind == "i", "dtype", lambda: f"{lab}: integer data became {g.dtype}")
            r.expect(np.array_equal(keep, a), "input_changed", lambda: lab)
            if name == "float":
                r.out = want
    if not mixed and R > 1:
        # shapes that are no multiple or factor are refused
        for bad in ((R * 2, C * 2 + 1), (R * 2 + 1, C * 2)):
            if bad[0] % R == 0 and bad[1] % C == 0:
                continue
            try:
                rebin(np.ones(src), bad)
                r.fail("bad_shape_accepted", f"{src}->{bad}")
            except ValueError:
                pass
            r.steps += 1; r.states += 1
    return r
