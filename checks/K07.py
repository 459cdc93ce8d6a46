"""K07: calibration diagnostics: Q-U mixing angle and residuals against baseline length."""
import itertools
import numpy as np
import fx
from vf import Result, close, diff
from PyFHD.calibration.calibrate import calibrate_qu_mixing
from PyFHD.calibration.calibration_utils import vis_baseline_hist
from PyFHD.pyfhd_tools.pyfhd_utils import reshape_and_average_in_time

ID, LEVEL = "K07", "exploration"
RULE = ("Q-U mixing: every rotation angle of a grid for data and model, sizes and weight patterns (flags on every row and channel in turn), against the least-squares slope written out; residual histograms: "
        "every length window and zero-model pattern, bin by bin; non-trivial: something is flagged or outside the window")
ASSUMPTIONS = ["lengths away from bin edges", "at least two usable averaged samples for the mixing angle"]


def cases(tier):
    t = tier == "thorough"
    ang = np.round(np.linspace(-3, 3, 7 if not t else 13), 3).tolist()
    for a, m in itertools.product(ang, ang):
        for nt in (1, 2, 3):
            for g in ("exact", "gen"):
                yield dict(kind="qu", a=a, m=m, nt=nt, nf=3, w="none", g=g)
    for nt, nf in itertools.product((1, 2, 3), (2, 3)):
        for w in ["half", "neg", "big"] + [f"row{i}" for i in range(6 * nt)] + [f"chan{i}" for i in range(nf)]:
            for g in ("exact", "gen"):
                yield dict(kind="qu", a=0.7, m=-1.1, nt=nt, nf=nf, w=w, g=g)
    for lo, hi in itertools.product((0.0, 3.0, 11.0, 22.0), (7.0, 25.0, 33.3, 60.0, 200.0)):
        if lo < hi:
            for np_, nt, z in itertools.product((1, 2, 4), (1, 2), range(-1, 6 if not t else 10)):
                for w in ("none", "one", "differ"):
                    yield dict(kind="hist", lo=lo, hi=hi, np=np_, nt=nt, zero=z, w=w)


def check(c):
    r = Result(); nt = c["nt"]
    if c["kind"] == "qu":
        obs, _ = fx.obs_params(n_tile=4, n_freq=c["nf"], n_time=nt, n_pol=4, autos=False); nb = obs["n_baselines"]; nf = c["nf"]

        def make(salt, ang):
            v = fx.pattern((4, nf, nb * nt), salt)
            U = fx.pattern((nf, nb * nt), salt + 1)
            Q = 1.7 * np.exp(1j * ang) * U + (0 if c["g"] == "exact" else .3 * fx.pattern((nf, nb * nt), salt + 2))
            if c["g"] == "exact" and nt == 1: Q = Q + .4 - .2j  # a constant offset does not matter
            v[1] = v[0] + Q; v[3] = U - v[2]
            return v
        D, M = make(1, c["a"]), make(5, c["m"])
        w = np.ones(D.shape); f = c["w"]
        if f == "half": w[0, :, ::2] = .5
        if f == "neg": w[0, :, 1::3] = -2
        if f == "big": w[0, 0, ::2] = 3
        if f.startswith("row"): w[0][:, int(f[3:])] = 0
        if f.startswith("chan"): w[0][int(f[4:])] = 0
        w[1:] = .77
        cut = np.broadcast_to(w[0] <= 0, D.shape)
        D[cut] = 1e3; M[cut] = -1e3j
        D0, M0, w0 = D.copy(), M.copy(), w.copy()
        got = calibrate_qu_mixing(D, M, w, obs); r.steps += 1
        r.expect(np.array_equal(D, D0) and np.array_equal(M, M0) and np.array_equal(w, w0), "inputs altered", "inputs changed")
        W = np.clip(w[0], 0, 1)

        def slope(v):
            s = lambda x: sum((x * W)[:, t * nb:(t + 1) * nb] for t in range(nt))
            use = s(np.ones_like(W)) > 0
            Q, U = s(v[1] - v[0])[use], s(v[2] + v[3])[use]
            d = U - U.mean()
            return np.vdot(d, Q - Q.mean()) / np.vdot(d, d)
        e = np.angle(slope(M0)) - np.angle(slope(D0))
        r.expect(abs(np.exp(1j * got) - np.exp(1j * e)) < 1e-9, "angle", lambda: f"{got}, expected {e}")
        if c["g"] == "exact" and f not in ("half", "big"):
            r.expect(abs(np.exp(1j * got) - np.exp(1j * (c["m"] - c["a"]))) < 1e-9 or nt > 1 and False, "exact", lambda: f"{got}, expected {c['m'] - c['a']}")
        s = reshape_and_average_in_time(D0[2], nf, nt, nb, W.reshape(nf, nt, nb)); r.steps += 1
        e2 = sum((D0[2] * W)[:, t * nb:(t + 1) * nb] for t in range(nt))
        r.expect(close(s, e2), "time sum", lambda: diff(s, e2))
        r.out = [e, e2]; r.nontrivial = f != "none"
        return r
    obs, params = fx.obs_params(n_tile=5, n_freq=3, n_time=nt, n_pol=c["np"], spread=9.0, min_bl=c["lo"], max_bl=c["hi"])
    D, M = fx.vis(obs, 2), fx.vis(obs, 6)
    if c["zero"] >= 0: M[0, c["zero"] % 3, c["zero"]::4] = 0
    D0, M0 = D.copy(), M.copy()
    w = None if c["w"] == "none" else np.ones(D.shape)
    if c["w"] == "differ":
        i = np.arange(D.size).reshape(D.shape); w = np.cos(1.7 * i) * (np.cos(.9 * i) > -.5)
        D[w <= 0] = 1e4
    D0 = D.copy()
    h = vis_baseline_hist(obs, params, D, M) if w is None else vis_baseline_hist(obs, params, D, M, vis_weights=w); r.steps += 1
    r.expect(np.array_equal(D, D0) and np.array_equal(M, M0), "inputs altered", "visibilities changed")
    L = np.hypot(params["uu"], params["vv"])[None, :] * obs["baseline_info"]["freq"][:, None]
    lo, hi = c["lo"], c["hi"]
    nbin = int((hi - lo) // 5) + 1
    em, es = np.zeros((c["np"], nbin)), np.zeros((c["np"], nbin))
    for p in range(c["np"]):
        for k in range(nbin):
            s = (L >= lo + 5 * k) & (L < lo + 5 * (k + 1)) & (L <= hi) & (np.abs(M[p]) > 0)
            if w is not None: s = s & (w[p] > 0)
            if s.any():
                d = np.abs(D[p][s] - M[p][s]); m = np.mean(np.abs(M[p][s]))
                em[p, k], es[p, k] = d.mean() / m, d.std() / m
    r.expect(close(h["vis_res_ratio_mean"], em), "mean", lambda: diff(h["vis_res_ratio_mean"], em))
    r.expect(close(h["vis_res_sigma"], es), "sigma", lambda: diff(h["vis_res_sigma"], es))
    r.out = [em, es]; r.nontrivial = bool((L > hi).any() or (L < lo).any() or c["zero"] >= 0)
    return r
