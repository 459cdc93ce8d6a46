"""K08: the adaptive gain of the solver follows its filter equations."""
import itertools
import numpy as np
from vf import Result
from PyFHD.calibration.calibration_utils import calculate_adaptive_gain

ID, LEVEL = "K08", "exploration"
RULE = ("every sequence of convergence values over a three-letter alphabet up to the length bound, for every base gain and with the final value given or estimated: the weight of every "
        "iteration compared with the filter equations, fed by the previous ones; non-trivial: more than three iterations")
ASSUMPTIONS = ["no two consecutive values for which the predicted change vanishes (division by zero)"]


def cases(tier):
    for n in range(1, 8 if tier == "quick" else 10):
        for s in itertools.product((1.0, 0.5, 0.2), repeat=n):
            yield dict(seq=list(s))


def check(c):
    r = Result(); n = len(c["seq"]); outs = []
    conv = np.zeros(n + 3); conv[:n] = np.array(c["seq"]) * .9 ** np.arange(n)
    for base in (1.0, 0.75, 2):
        for fin in (None, 0, 0.05):
            g = np.zeros(n + 3); eg = []
            for i in range(n + 1):
                keep = conv.copy()
                got = calculate_adaptive_gain(g, conv, i, base, final_convergence_estimate=fin); r.steps += 1
                if i < 3:
                    e = base
                else:
                    f = fin
                    if f is None:
                        est = [max(0.0, ((1 + eg[j]) * conv[j + 1] - conv[j]) / eg[j]) for j in range(i - 1)][max(i - 5, 0):]
                        f = sorted(est)[len(est) // 2] if len(est) % 2 else sum(sorted(est)[len(est) // 2 - 1:len(est) // 2 + 1]) / 2
                    lg, lc, nc = eg[i - 1], conv[i - 2], conv[i - 1]
                    den = (lc - f) / (base + lg)
                    if abs(den) < 1e-9:
                        break
                    d = ((f * lg + lc) / (base + lg) - nc) / den
                    e = max(base / 2, (1 - abs(d) + lg) / 2)
                eg.append(e)
                if not r.expect(abs(got - e) < 1e-9 * (1 + abs(e)) and g[i] == got and np.array_equal(keep, conv), "weight", lambda: f"base {base}, final {fin}, iteration {i}: {got}, expected {e}"):
                    break
            outs.append(np.array(eg))
    r.out = outs; r.nontrivial = n > 3
    return r
