"""T06: resistant mean against its definition."""
import itertools
import numpy as np
from vf import Result, close
from PyFHD.pyfhd_tools.pyfhd_utils import resistant_mean

ID, LEVEL = "T06", "exploration"
RULE = ("every multiset up to the length bound over an alphabet with close values and outliers (real and complex), times "
        "deviations {1,2,3,5} and every cyclic ordering; non-trivial: some element is rejected")
ASSUMPTIONS = ["truncation compensation 1/polyval(c, max(dev,1)) for dev <= 4.5, as documented for RESISTANT_MEAN",
               "cases within 1e-9 of a rejection threshold are skipped"]
R = [0.0, 1.0, 1.25, 2.0, 10.0, -7.0]
Z = [1 + 0j, 1 + 0.5j, 1.25 - 0.25j, 2 + 0j, 9 + 9j]
COEF = (0.020142, -0.23584, 0.90723, -0.15405)


def cases(tier):
    L = 6 if tier == "quick" else 8
    for k, a in (("r", R), ("c", Z)):
        for n in range(1, L + 1):
            for d in itertools.combinations_with_replacement(range(len(a)), n):
                yield {"kind": k, "data": list(d)}


def std(v):
    v = np.asarray(v, float)
    return np.sqrt(np.sum((v - v.sum() / v.size) ** 2) / v.size)


def ref(v, dev):
    re = sorted(x.real for x in v)
    n = len(v)
    med = re[n // 2] if n % 2 else (re[n // 2] + re[n // 2 - 1]) / 2
    ad = [abs(x - med) for x in v]
    s = sorted(ad)
    mad = (s[n // 2] if n % 2 else (s[n // 2] + s[n // 2 - 1]) / 2) / 0.6745
    edge = any(abs(a - dev * mad) < 1e-9 and a > 1e-12 for a in ad)
    keep = [x for x, a in zip(v, ad) if a <= dev * mad]
    sig = complex(std([x.real for x in keep]), std([x.imag for x in keep]))
    dx = max(dev, 1.0)
    if dx <= 4.5:
        sig /= COEF[0] * dx ** 3 + COEF[1] * dx ** 2 + COEF[2] * dx + COEF[3]
    thr = abs(sig * dev)
    edge |= any(abs(a - thr) < 1e-9 and a > 1e-12 for a in ad)
    keep2 = [x for x, a in zip(v, ad) if a <= thr]
    return (sum(keep2) / len(keep2) if keep2 else complex(np.nan)), edge, len(keep2)


def check(c):
    r = Result()
    alpha = R if c["kind"] == "r" else Z
    v = [alpha[i] for i in c["data"]]
    outs, rejected = [], False
    for dev in (1, 2, 3, 5, 4.5, 0.8):
        want, edge, n = ref(v, dev)
        if edge:
            continue
        rejected |= n < len(v)
        for rot in range(len(v)):
            a = np.array(v[rot:] + v[:rot])
            keep = a.copy()
            got = resistant_mean(a, dev)
            r.steps += 1
            w = want if c["kind"] == "c" else want.real
            ok = (np.isnan(w) and np.isnan(got)) or abs(got - w) <= 1e-9 * (1 + abs(w))
            r.expect(ok, "mean", lambda: f"{a.tolist()} dev={dev}: {got} expected {w}")
            r.expect(np.array_equal(a, keep), "input_changed", lambda: f"{v}")
        outs.append(np.array([w]))
    r.nontrivial = rejected
    r.out = outs
    return r
