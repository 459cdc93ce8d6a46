"""K10: calibration with every combination of options turns the data back into the model it can describe."""
import copy, itertools, warnings
import numpy as np
import fx
from ref import resistant
from vf import Result, NullLogger, close, diff
from PyFHD.calibration.calibrate import calibrate
from PyFHD.calibration.calibration_utils import cal_auto_ratio_divide, cal_auto_ratio_remultiply, vis_baseline_hist, vis_cal_auto_fit, vis_cal_bandpass, vis_cal_polyfit, vis_extract_autocorr

ID, LEVEL = "K10", "exploration"
RULE = ("every combination of bandpass, polynomial, auto-correlation ratio, fit and start options, time averaging, 1, 2 and 4 polarisations and flag patterns, with data made from a model by gains of the "
        "form the options describe: calibrated data equal the model, gains equal the true ones, residual gains and statistics follow, flagged data do not matter; non-trivial: flags or auto-correlations in use")
ASSUMPTIONS = ["gains within the family the chosen options can represent; auto-correlation power of the model the same for all tiles where ratios are used"]
FLAGS = ["none", "tile", "reftile", "chan", "edges", "sample", "time"]


def cases(tier):
    t = tier == "thorough"
    for bp, pf, ratio in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)):
        for fit, init in itertools.product((0, 1), (0, 1)):
            for autos in (0, 1):
                if (ratio and not autos) or (not autos and (fit or init) and not (bp == 0 and pf == 0)):
                    continue
                for np_ in (1, 2, 4):
                    for f in FLAGS:
                        for nt, avg in ((1, False), (2, True)) + (((2, False), (3, True), (3, False)) if t else ()):
                            if f == "time" and nt == 1:
                                continue
                            yield dict(bp=bp, pf=pf, ratio=ratio, fit=fit, init=init, autos=autos, np=np_, f=f, nt=nt, avg=avg, fc=0)
    for bp, pf, ratio, fit, init, autos, np_, f in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1, 2), (1, 2, 4), FLAGS):
        if (ratio or fit or init) and not autos and np_ != 2: continue
        if not t and (bp + pf + ratio + fit + init + autos + np_ + FLAGS.index(f)) % 3: continue
        for nt, avg in ((1, False), (2, True), (2, False))[int(f == "time"):]:
            yield dict(bp=bp, pf=pf, ratio=ratio, fit=fit, init=init, autos=autos, np=np_, f=f, nt=nt, avg=avg, fc=0, rough=1)
    for i in (3, 17):
        for k in ("amp", "phase"):
            yield dict(bp=0, pf=0, ratio=0, fit=0, init=0, autos=0, np=2, f=f"out{k}{i}", nt=1, avg=False, fc=1)


def steps(r, c, obs, params, V, w, M, cfg, vis, cal):
    """gains the options cannot describe: the steps asked for, in order, on the solver's gains; the residual is what they leave"""
    off = dict(cfg, bandpass_calibrate=False, calibration_polyfit=False, calibration_auto_fit=False, auto_ratio_calibration=False)
    log = NullLogger()
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, base, _ = calibrate(copy.deepcopy(obs), params, V.copy(), w.copy(), M.copy(), off, log)
        gain = base["gain"].copy()
        new = lambda g: dict(n_pol=base["n_pol"], gain=g.copy(), ref_antenna=base["ref_antenna"])
        va, ti = vis_extract_autocorr(obs, V, cfg); vm, _ = vis_extract_autocorr(obs, M, cfg)
        k, extra = new(gain), set()
        autos = c["autos"] > 0
        if c["bp"]:
            if c["ratio"] and autos: k, ratio = cal_auto_ratio_divide(obs, k, va, ti)
            band, rest = vis_cal_bandpass(obs, new(k["gain"]), cfg, log)
            if c["pf"]:
                p = vis_cal_polyfit(obs, new(rest["gain"]), ratio if c["ratio"] and autos else None, cfg, log)
                k = new(p["gain"] * band["gain"]); extra = set(p)
            else: k = new(band["gain"])
            if c["ratio"] and autos: k = cal_auto_ratio_remultiply(k, ratio, ti)
        elif c["pf"]: k = vis_cal_polyfit(obs, k, None, cfg, log); extra = set(k)
        if c["fit"] and autos: k = vis_cal_auto_fit(obs, new(k["gain"]), va, vm, ti); extra |= set(k)
    eg = k["gain"]; r.steps += 2
    b = obs["baseline_info"]; fr, tl = np.nonzero(b["freq_use"])[0], np.nonzero(b["tile_use"])[0]
    z = lambda x: np.where(np.isfinite(x), x, 0)
    r.expect(np.array_equal(np.isfinite(eg), np.isfinite(cal["gain"])) and close(z(cal["gain"]), z(eg), rtol=1e-7), "steps", lambda: diff(z(cal["gain"]), z(eg)))
    r.expect(close(z(cal["gain_residual"]), z(gain - eg), rtol=1e-7), "residual", lambda: diff(z(cal["gain_residual"]), z(gain - eg)))
    r.expect(extra <= set(cal), "entries", lambda: f"missing from the calibration: {extra - set(cal)}")
    for pi in range(min(c["np"], 2)):
        g, d = np.abs(cal["gain"][pi][np.ix_(fr, tl)]), np.abs((gain - eg)[pi][np.ix_(fr, tl)])
        if not (np.isfinite(g).all() and np.isfinite(d).all()): continue
        for name, e in (("mean_gain", g.mean()), ("mean_gain_residual", d.mean()), ("stddev_gain_residual", d.std())) + ((("mean_gain_restrict", resistant(d)),) if d.std() > 1e-6 else ()):
            r.expect(abs(cal[name][pi] - e) < 1e-7 * (1 + e), "statistics", lambda: f"{name} {cal[name]}, expected {e} for polarisation {pi}")
    h = vis_baseline_hist(obs, params, vis, M, w)
    r.expect(set(h) == set(cal["vis_baseline_hist"]) and all(close(z(h[x]), z(cal["vis_baseline_hist"][x]), rtol=1e-7) for x in h), "residuals against length", "not those of the calibrated data")
    r.out = [z(eg)]; r.nontrivial = True
    return r


def check(c):
    r = Result(); P, nt, f = c["np"], c["nt"], c["f"]
    n, nf = (34, 30) if c["fc"] else (8, 12)
    pairs = None
    if c["autos"] == 2: pairs = [(i, j) for i in range(1, n + 1) for j in range(i, n + 1) if i != j or i not in (3, 6)]
    obs, params = fx.obs_params(n_tile=n, n_freq=nf, n_time=nt, n_pol=P, autos=bool(c["autos"]), pairs=pairs, dim=256, spread=4.0, max_bl=300.0)
    b = obs["baseline_info"]; A, B = b["tile_a"] - 1, b["tile_b"] - 1; au = A == B; nb = obs["n_baselines"]
    M = np.tile(fx.pattern((P, nf, nb), 2), (1, 1, nt)) * (1 + 0.1 * np.repeat(np.arange(nt), nb))
    power = np.repeat(1 + .2 * np.arange(nt), nb)[au] * (3 + np.cos(np.arange(nf)))[:, None]
    M[:2, :, au] = power * (1 if c["ratio"] else 1 + .1 * np.sin(A[au] + 1))
    nc = min(P, 2)
    p, q, t = np.meshgrid(np.arange(2), np.arange(nf), np.arange(n), indexing="ij")
    x = q / nf
    ct = 1 + .2 * np.sin(2.1 * t + p); Bf = 1 + .2 * np.sin(1.9 * q + p)
    gen = 1 + .2 * np.sin(1.3 * (t + 1) * (q + 1) + p); lin = .5 * np.cos(1.7 * t + p) + (.4 * np.sin(t) + .1) * x
    anyph = .5 * np.sin(2.7 * q + 1.9 * t + p)
    if P == 4:  # one phase for the whole band is all that the cross polarisations are aligned by
        k = 0 if f == "reftile" else 1
        anyph = anyph - anyph[:, :, k:k + 1] + .7 * p
    fu = np.ones(nf, int); tu = np.ones(n, int)
    if f == "tile": tu[4] = 0
    if f == "reftile": tu[1] = 0
    if f == "chan": fu[5] = 0
    if f == "edges": fu[[0, nf - 1]] = 0
    fr, ti = np.nonzero(fu)[0], np.nonzero(tu)[0]
    if c["bp"] and not c["pf"] and not c.get("rough"):
        nrm = np.array([resistant(Bf[i, fr, 0]) for i in range(2)])
        amp, ph = Bf / nrm[:, None, None], 0 * lin
        if c["fit"]: amp = amp * 1.0
    elif c.get("rough"): amp, ph = gen * (1 + .5 * ((7 * q + 3 * t) % 11 == 0)), anyph
    elif c["ratio"]: amp, ph = gen, lin
    elif c["bp"]: amp, ph = ct * Bf, lin
    elif c["pf"]: amp, ph = ct * (1 + .3 * np.sin(t + p) * x + .2 * np.cos(t) * x * x), lin
    else: amp, ph = gen, anyph
    if c["fc"]:
        amp, ph = 1 + .1 * np.sin(t + p) + .01 * np.sin(13.1 * q + 7.7 * t), lin * .2 + .01 * np.cos(11.3 * q + 5.1 * t)
        i = int(f[-2:].strip("pe"))
        if "amp" in f: amp[0, :, i] *= 3
        else: ph[1, :, i] += .9 * np.sin(12.9 * np.arange(nf))
    g = amp * np.exp(1j * ph)
    pa, pb = [0, 1, 0, 1], [0, 1, 1, 0]
    V = np.stack([M[i] * g[pa[i]][:, A] * np.conj(g[pb[i]][:, B]) for i in range(P)])
    w = np.ones(V.shape); w[:, fu == 0] = 0; w[:, :, (tu[A] == 0) | (tu[B] == 0)] = 0
    if f == "sample": w[:, 3, 2::9] = -1; w[:, :, 6] = 0
    if f == "time": b["time_use"][0] = 0; w[:, :, :nb] = 0
    b["freq_use"], b["tile_use"] = fu.copy(), tu.copy()
    cut = w <= 0; auto_cut = cut & ~au[None, None] if f == "sample" else cut
    V[auto_cut] = (2.5 if c["init"] and f == "time" else 1e2) * np.exp(1j * np.arange(auto_cut.sum())) if c["fc"] == 0 else V[auto_cut]
    if f == "time" and not c["avg"]: V[:, :, au] = np.stack([M[i] * g[pa[i]][:, A] * np.conj(g[pb[i]][:, B]) for i in range(P)])[:, :, au]
    V[:2, :, au] = np.abs(V[:2, :, au])
    V0, M0, w0 = V.copy(), M.copy(), w.copy()
    cfg = dict(cal_time_average=c["avg"], cal_convergence_threshold=1e-10, calibration_auto_initialize=bool(c["init"]), cal_gain_init=1.0, flag_calibration=bool(c["fc"]), bandpass_calibrate=bool(c["bp"]),
               auto_ratio_calibration=bool(c["ratio"]), calibration_polyfit=bool(c["pf"]), calibration_auto_fit=bool(c["fit"]), calibration_plots=False, min_cal_baseline=None,
               max_cal_baseline=None, max_cal_iter=300, cal_adaptive_calibration_gain=False, cal_base_gain=1.0, cal_phase_fit_iter=4, cal_bp_transfer=None, cable_bandpass_fit=False, instrument="mwa",
               cal_amp_degree_fit=2, cal_phase_degree_fit=1, digital_gain_jump_polyfit=False, cal_reflection_mode_theory=0, cal_reflection_mode_file=False, cal_reflection_mode_delay=False,
               cal_reflection_hyperresolve=False, flag_calibration_frequencies=False)
    if c.get("rough"): cfg.update(max_cal_iter=10, cal_convergence_threshold=1e-3)
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        vis, cal, o = calibrate(obs, params, V, w, M, cfg, NullLogger()); r.steps += 1
    r.expect(np.array_equal(M, M0) and np.array_equal(w, w0), "inputs altered", "model or weights changed")
    if c.get("rough"):
        return steps(r, c, obs, params, V0, w, M, cfg, vis, cal)
    tu2 = tu.copy()
    if c["fc"]:
        tu2[i] = 0
        r.expect(np.array_equal(np.asarray(o["baseline_info"]["tile_use"]) > 0, tu2 > 0), "flagged tiles", lambda: f"{np.nonzero(o['baseline_info']['tile_use'] == 0)[0]}, expected tile {i}")
    ref = 1 if tu[1] else 0
    eg = g * np.conj(g[:, :, ref:ref + 1]) / np.abs(g[:, :, ref:ref + 1])
    sel = np.ix_(range(nc), fr, ti)
    r.expect(cal["ref_antenna"] == ref and close(cal["gain"][sel], eg[sel], rtol=1e-5), "gains", lambda: diff(cal["gain"][sel], eg[sel]))
    good = ~cut
    good &= (fu > 0)[None, :, None] & ((tu[A] > 0) & (tu[B] > 0))[None, None]
    scale = np.abs(M).max()
    d = np.abs(vis - M0)[good]
    ok = np.isfinite(d).all() and d.max() < 1e-4 * scale
    r.expect(vis.shape == M.shape and ok, "calibrated", lambda: f"calibrated data differ from the model by up to {np.nanmax(d)} ({np.argwhere(good & ~(np.abs(vis - M0) < 1e-4 * scale))[:2]})")
    if P == 4:
        ph_ref = np.angle(np.sum(np.conj(vis[2][good[2]]) * M0[2][good[2]]))
        r.expect(abs(ph_ref) < 1e-5, "cross phase", lambda: f"remaining cross phase {ph_ref}")
    res = cal["gain_residual"][sel]
    r.expect(np.abs(res).max() < 1e-4, "residual gains", lambda: f"residual gains up to {np.abs(res).max()}")
    s2 = np.ix_(range(nc), fr, np.nonzero(tu2)[0])
    em = np.abs(eg[s2]).mean(axis=(1, 2))
    r.expect(close(cal["mean_gain"], em, rtol=1e-5) and np.abs(cal["mean_gain_residual"]).max() < 1e-4 and np.abs(cal["stddev_gain_residual"]).max() < 1e-4 and np.abs(cal["mean_gain_restrict"]).max() < 1e-4,
             "statistics", lambda: f"{cal['mean_gain']}, expected {em}")
    r.out = [eg[sel], em]; r.nontrivial = f != "none" or bool(c["autos"])
    return r
