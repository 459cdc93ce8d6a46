"""T01: histogram and reverse indices against a per-element reference, every short data sequence."""
import itertools, math
import numpy as np
from vf import Result
from PyFHD.pyfhd_tools.pyfhd_utils import histogram

ID, LEVEL = "T01", "exploration"
RULE = ("every data sequence up to the length bound over an integer and a dyadic-float alphabet (including NaN when "
        "bounds are given), times bin widths, bin counts and explicit minimum/maximum; non-trivial: at least two data "
        "values fall in bins")
ASSUMPTIONS = ["requested minimum <= maximum; bin width positive; dyadic values so that bin edges are exact in floating point"]
INTS, FLTS = [-2, 0, 1, 3], [-1.5, 0.0, 0.25, 2.0, float("nan")]


def cases(tier):
    L = 4 if tier == "quick" else 5
    for n in range(1, L + 1):
        for d in itertools.product(range(len(INTS)), repeat=n):
            yield {"kind": "int", "data": list(d)}
        for d in itertools.product(range(len(FLTS)), repeat=n):
            yield {"kind": "float", "data": list(d)}
    # long runs: many values per bin, 2-D input, large integers
    for n in (64, 1000, 4097):
        for m in (3, 10, 97):
            yield {"kind": "long", "data": [n, m]}


def reference(flat, lo, hi, bs, nb=None):
    if nb is None:
        nb = int(math.floor((hi - lo) / bs)) + 1
    which = []
    for x in flat:
        if not (x >= lo and x <= hi):
            which.append(None)
        else:
            which.append(min(int(math.floor((x - lo) / bs)), nb - 1))
    lists = [[i for i, w in enumerate(which) if w == b] for b in range(nb)]
    return nb, lists


def compare(r, label, arr, kw, lo, hi, bs, nb=None):
    before = arr.copy()
    hist, bins, ri = histogram(arr, **kw)
    r.steps += 1
    n, lists = reference(arr.flatten().tolist(), lo, hi, bs, nb)
    ok = hist.shape == (n,) and [int(h) for h in hist] == [len(x) for x in lists]
    if not r.expect(ok, "counts", lambda: f"{label} {kw}: counts {hist.tolist()} expected {[len(x) for x in lists]}"):
        return
    r.expect(np.allclose(bins, [lo + bs * k for k in range(n)], rtol=0, atol=1e-12), "bins",
             lambda: f"{label} {kw}: bins {bins.tolist()}")
    tot = sum(map(len, lists))
    ok = ri.size == n + 1 + tot and all(ri[ri[b]:ri[b + 1]].tolist() == lists[b] for b in range(n)) and int(ri[0]) == n + 1 \
        and int(ri[n]) == ri.size
    r.expect(ok, "reverse", lambda: f"{label} {kw}: reverse indices {ri.tolist()} expected lists {lists}")
    r.expect(np.array_equal(before, arr, equal_nan=True), "input_changed", lambda: f"{label} {kw}: data modified")
    if tot < 2:
        return
    r.out = (r.out or []) + [hist.tolist()]


def warmup():
    for d in (np.array([1, 2]), np.array([1.0, 2.0])):
        for kw in ({}, {"bin_size": 0.5}, {"bin_size": 2}, {"min": 0}, {"max": 3}, {"min": 0.5, "max": 3}, {"num_bins": 2},
                   {"min": 0, "max": 3}, {"min": 0, "max": 3.5}):
            histogram(d, **kw)


def check(c):
    r = Result()
    if c["kind"] == "long":
        n, m = c["data"]
        v = (np.arange(n, dtype=np.int64) * 7919 + 13) % m
        for arr in (v, v.reshape(-1, 1), v.astype(float), v + 10 ** 9):
            lo, hi = arr.min(), arr.max()
            for bs in (1, 4):
                compare(r, f"n={n} m={m}", arr, {"bin_size": bs}, lo, hi, bs)
        return r
    alpha = INTS if c["kind"] == "int" else FLTS
    vals = [alpha[i] for i in c["data"]]
    arr = np.array(vals, dtype=np.int64 if c["kind"] == "int" else np.float64)
    nan = bool(np.isnan(arr).any()) if c["kind"] == "float" else False
    sizes = (1, 2, 0.5) if c["kind"] == "int" else (1, 0.5, 1.25)
    r.nontrivial = len(vals) > 1
    for mn in (None, -1, 0.5, 1) if c["kind"] == "float" else (None, -1, 1):
        for mx in (None, 1, 2, 2.5):
            if nan and (mn is None or mx is None):
                continue
            lo = arr.min() if mn is None else mn
            hi = arr.max() if mx is None else mx
            if lo > hi:
                continue
            kw = {k: v for k, v in (("min", mn), ("max", mx)) if v is not None}
            for bs in sizes:
                compare(r, str(vals), arr, dict(kw, bin_size=bs), lo, hi, bs)
            if hi > lo:
                for nb in (1, 2, 4):
                    compare(r, str(vals), arr, dict(kw, num_bins=nb), lo, hi, (hi - lo) / nb, nb)
    return r
