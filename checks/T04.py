"""T04: index lookups (value matching, last occurrence of each unique value) against membership tests."""
import itertools
import numpy as np
from vf import Result
from PyFHD.pyfhd_tools.pyfhd_utils import array_match, idl_argunique, idl_median

ID, LEVEL = "T04", "exploration"
RULE = ("every pair of equal-length vectors up to the bound over a small alphabet with every set of wanted values; every "
        "sorted vector up to the bound; every vector for the median and the running median of each width; non-trivial: more than one element")
ASSUMPTIONS = ["last-occurrence lookup is stated for sorted input, as its callers provide"]
A = [0, 2, 3, 5]


def cases(tier):
    L = 3 if tier == "quick" else 4
    for n in range(1, L + 1):
        for a in itertools.product(range(4), repeat=n):
            yield {"op": "match", "a": list(a)}
    for n in range(1, 7 if tier == "quick" else 9):
        for a in itertools.combinations_with_replacement(range(4), n):
            yield {"op": "uniq", "a": list(a)}
    for n in range(1, 9 if tier == "quick" else 11):
        for a in itertools.product(range(3), repeat=n):
            yield {"op": "median", "a": list(a)}
    for w in range(1, 6):
        for n in range(2 * (w // 2) + 1, 7 if tier == "quick" else 9):
            for a in itertools.product(range(3), repeat=n):
                yield {"op": "running", "a": list(a), "w": w}


def check(c):
    r = Result()
    r.nontrivial = len(c["a"]) > 1
    a = np.array([A[i] for i in c["a"]])
    if c["op"] == "median":
        v = a * 1.5
        got = idl_median(v)
        s = sorted(v.tolist())
        r.steps += 1
        r.expect(got == s[len(s) // 2], "median", lambda: f"{v.tolist()}: {got}")
        got = idl_median(v, even=True)
        r.steps += 1
        r.expect(abs(got - (s[len(s) // 2] + s[(len(s) - 1) // 2]) / 2) < 1e-12, "median_even", lambda: f"{v.tolist()}: {got}")
        r.out = s
        return r
    if c["op"] == "running":
        v, w = a * 1.5 - np.arange(a.size) * 0.01, c["w"]; l = v.tolist()
        got = idl_median(v, width=w)
        want = [x if i < w // 2 or i >= len(l) - w // 2 else sorted(l[i - w // 2:i - w // 2 + w])[w // 2] for i, x in enumerate(l)]
        r.steps += 1
        r.expect(got.tolist() == want and v.tolist() == l, "running", lambda: f"{l} width {w}: {got.tolist()} expected {want}")
        r.out = want
        return r
    if c["op"] == "uniq":
        for arr in (a, a * 0.5, a + 2456840.5, 2456840.5 + a * 4.7e-10, a * 1e-12 - 2e-12, a.astype(np.float32) / 3):
            got = idl_argunique(arr)
            l = arr.tolist()
            want = [max(i for i, x in enumerate(l) if x == u) for u in sorted(set(l))]
            r.steps += 1
            r.expect(got.tolist() == want, "uniq", lambda: f"{l}: {got.tolist()} expected {want}")
            r.out = want
        return r
    outs = []
    seconds = [None] + [np.array([A[i] for i in b]) for b in itertools.product(range(4), repeat=len(c["a"]))]
    wants = [w for k in range(1, 4) for w in itertools.combinations(A + [9], k)]
    for b in seconds:
        for w in wants:
            got = array_match(a, np.array(w)) if b is None else array_match(a, np.array(w), b)
            l = [i for i in range(a.size) if a[i] in w or (b is not None and b[i] in w)]
            r.steps += 1
            r.expect(isinstance(got, np.ndarray) and got.tolist() == l, "match",
                     lambda: f"first={a.tolist()} second={None if b is None else b.tolist()} values={w}: {got!r} expected {l}")
        outs.append(len(l))
    r.out = [c["a"], outs]
    return r
