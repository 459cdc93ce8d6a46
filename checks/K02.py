"""K02: applying gains divides each visibility by the gains of its two tiles, and aligns the cross polarisations."""
import copy
import numpy as np
import fx
from vf import Result, NullLogger, close, diff, product
from PyFHD.calibration.calibration_utils import vis_calibration_apply

ID, LEVEL = "K02", "exploration"
RULE = ("every combination of array sizes, times, polarisations, row orders, gain patterns (with zero and NaN gains on each tile or channel), cross-polarisation phases and weight patterns; each calibrated visibility is "
        "compared with the data divided by g_a conj(g_b) computed alone; data corrupted by the gains must come back as the model; non-trivial: some gain differs from one")
ASSUMPTIONS = ["every time step holds the same number of rows"]


def cases(tier):
    t = tier == "thorough"
    for c in product(np=(1, 2, 4), n=(2, 3, 4) + ((6,) if t else ()), nf=(1, 3) + ((8,) if t else ()), nt=(1, 2) + ((3, 5) if t else ()), swap=(0, 1),
                     g=("one", "gen", "zero0", "zero1", "nan0", "nan1", "zeroch", "tiny", "huge"), w=("ones", "neg", "mixed", "times"), ph=(0.0, 0.7, -2.5, 3.0), nz=(0, 1)):
        if (c["np"] == 4 and not (c["nz"] and c["ph"] == 0.7)) or (c["ph"] == 0.0 and c["w"] == "mixed" and not c["nz"]):
            yield c


def check(c):
    r = Result(); n, nf, nt, np_ = c["n"], c["nf"], c["nt"], c["np"]
    pairs = [(a, b) for a in range(1, n + 1) for b in range(a, n + 1)]
    if c["swap"]:
        pairs = [(b, a) if (a + b) % 2 else (a, b) for a, b in pairs][::-1]
    obs, params = fx.obs_params(n_tile=n, n_freq=nf, n_time=nt, n_pol=np_, pairs=pairs)
    b = obs["baseline_info"]; A, B = b["tile_a"] - 1, b["tile_b"] - 1
    M = fx.vis(obs, 4)
    k = np.arange(2 * nf * n).reshape(2, nf, n)
    g = (1 + 0.4 * np.sin(k + 1)) * np.exp(1j * 2 * np.sin(1.7 * k)) if c["g"] != "one" else np.ones((2, nf, n), complex)
    g = g * {"tiny": 1e-6, "huge": 1e6}.get(c["g"], 1)
    bad = {"zero0": 0, "zero1": 0, "nan0": np.nan, "nan1": np.nan}.get(c["g"])
    if bad is not None:
        g[:, :, int(c["g"][-1])] = bad
    if c["g"] == "zeroch":
        g[:, nf - 1] = 0
    w = np.ones(M.shape)
    if c["w"] != "ones":
        w[:, :, 1::2] = -1 if c["w"] == "neg" else 0
    if c["w"] == "mixed":
        w[:, 0, ::3] = 0.5; w[1:, 0, 0] = 0; w[:, :, 0] = 2.0
    if c["w"] == "times":  # each baseline has its own weight in each time: some flagged in some times only
        nb = len(pairs)
        for t in range(nt):
            for j in range(nb):
                w[:, :, t * nb + j] = (1.0, 0.0, 1.0, 0.25, -1.0, 3.0)[(t * 5 + j * (t + 1)) % 6]
    V = np.zeros_like(M); den = np.zeros_like(M)
    pp = [(0, 0), (1, 1), (0, 1), (1, 0)][:np_]
    true = np.where(np.isnan(g) | (g == 0), 1.0 + 0.2j, g)
    for p, (x, y) in enumerate(pp):
        V[p] = M[p] * true[x][:, A] * np.conj(true[y][:, B])
        den[p] = g[x][:, A] * np.conj(g[y][:, B])
    if np_ == 4:  # the two single-polarisation solutions leave a phase between X and Y undetermined
        V[2] *= np.exp(-1j * c["ph"]); V[3] *= np.exp(1j * c["ph"])
    if c["nz"]:  # errors that differ from sample to sample, so that it matters which weight belongs to which time
        e = np.arange(V.size).reshape(V.shape)
        V += 2.0 * np.sin(1.3 * e + 0.4) * np.exp(1j * 2.1 * e)
    exp = np.zeros_like(V)
    okd = np.isfinite(den) & (den != 0)
    exp[okd] = V[okd] / den[okd]
    phase = None
    if np_ == 4:
        W = np.clip(w[0], 0, 1).reshape(nf, nt, -1)
        av = lambda a: (a.reshape(nf, nt, -1) * W).sum(axis=1)
        s = np.sum(np.conj(av(exp[2])) * av(M[2])) + np.sum(av(exp[3]) * np.conj(av(M[3])))
        phase = float(np.angle(s)) if s != 0 else 0.0
        exp[2] *= np.exp(1j * phase); exp[3] *= np.exp(-1j * phase)
    cal = dict(n_pol=min(np_, 2), gain=g.copy()[:min(np_, 2)]); g0 = cal["gain"].copy()
    M0, w0, o0 = M.copy(), w.copy(), copy.deepcopy(obs)
    got, cal = vis_calibration_apply(V.copy(), obs, cal, M, w, NullLogger()); r.steps += 1
    r.expect(close(got, exp), "calibrated", lambda: diff(got, exp))
    r.expect(np.array_equal(cal["gain"], g0, equal_nan=True), "gains", "the gains changed")
    r.expect(np.array_equal(M, M0) and np.array_equal(w, w0) and np.array_equal(obs["baseline_info"]["tile_a"], o0["baseline_info"]["tile_a"]), "inputs altered",
             "model, weights or observation changed")
    if phase is not None:
        r.expect(abs(np.exp(1j * cal["cross_phase"]) - np.exp(1j * phase)) < 1e-9, "cross phase", lambda: f"{cal['cross_phase']}, expected {phase}")
        if c["w"] == "ones" and c["g"] in ("one", "gen") and not c["nz"]:
            r.expect(abs(np.exp(1j * cal["cross_phase"]) - np.exp(1j * c["ph"])) < 1e-9, "cross phase truth", lambda: f"{cal['cross_phase']}, put in {c['ph']}")
    if c["g"] in ("one", "gen") and not c["nz"] and (np_ < 4 or c["w"] == "ones"):
        r.expect(close(got, M), "recovered", lambda: diff(got, M))
    r.out = exp; r.nontrivial = c["g"] != "one"
    return r
