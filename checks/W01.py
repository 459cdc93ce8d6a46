"""W01: the w-term phase is exp(i * direction * freq * w), undone by the opposite direction."""
import numpy as np
import fx
from vf import Result, NullLogger, close, diff, product
from PyFHD.pyfhd_tools.pyfhd_utils import simple_deproject_w_term

ID, LEVEL = "W01", "exploration"
RULE = ("every combination of sizes, used polarisations, directions and w patterns; each visibility is compared with its phase computed alone, the amplitudes must stay, and applying the opposite direction "
        "must restore the data; non-trivial: some phase differs from one")
ASSUMPTIONS = []


def cases(tier):
    t = tier == "thorough"
    yield from product(np=(1, 2, 4), extra=(0, 1, 2), nf=(1, 2, 3, 5) + ((8, 16) if t else ()), nt=(1, 2, 3), ntile=(2, 3, 4) + ((6,) if t else ()),
                       d=(1.0, -1.0, 0.5, -2.5, 2 * np.pi, -2 * np.pi, 0.0), w=("zero", "lin", "big", "one"))


def check(c):
    r = Result()
    obs, params = fx.obs_params(n_tile=c["ntile"], n_freq=c["nf"], n_time=c["nt"], n_pol=c["np"], res=1e6)
    k = np.arange(len(params["uu"]))
    params["ww"] = {"zero": 0.0 * k, "lin": 1e-9 * (k - 2), "big": 3e-7 * np.sin(k), "one": np.where(k == 1, 2e-8, 0.0)}[c["w"]]
    v = fx.pattern((c["np"] + c["extra"], c["nf"], k.size), 3)
    v0, p0 = v.copy(), {x: np.array(y).copy() for x, y in params.items()}
    got = simple_deproject_w_term(obs, params, v.copy(), c["d"], NullLogger()); r.steps += 1
    exp = v0.copy()
    for p in range(c["np"]):
        for i, fr in enumerate(obs["baseline_info"]["freq"]):
            for j in k:
                a = c["d"] * fr * params["ww"][j]
                exp[p, i, j] *= complex(np.cos(a), np.sin(a))
    r.expect(close(got, exp, rtol=1e-8), "phase", lambda: diff(got, exp))
    r.expect(close(np.abs(got), np.abs(v0)), "amplitude", "amplitudes changed")
    back = simple_deproject_w_term(obs, params, got.copy(), -c["d"], NullLogger()); r.steps += 1
    r.expect(close(back, v0, rtol=1e-8), "round trip", lambda: diff(back, v0))
    r.expect(all(np.array_equal(np.asarray(params[x]), p0[x]) for x in p0), "inputs altered", "params changed")
    r.out = exp; r.nontrivial = not close(exp, v0)
    return r
