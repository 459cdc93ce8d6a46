"""K04: polynomial and cable-reflection fits of the calibration gains."""
import copy, itertools, warnings
import numpy as np
import fx
from ref import polyfit, unwrap
from vf import Result, NullLogger, close, diff, REPO
from PyFHD.calibration.calibration_utils import vis_cal_polyfit

ID, LEVEL = "K04", "exploration"
RULE = ("every pair of polynomial degrees, every pattern of used channels of a small band (and of removed edges and coarse-band patterns of larger ones), phase wraps, the digital gain jump at "
        "every channel, and the reflection fit in each of its modes (file, nominal cable length with every included or excluded length, delay spectrum, hyper-resolved, on auto-correlation ratios), "
        "against least squares and discrete Fourier sums written out; non-trivial: a channel is cut, a phase wraps or a reflection is fitted")
ASSUMPTIONS = ["compared for tiles and channels in use", "more used channels than coefficients, unambiguous phase steps", "unique strongest mode",
               "with auto-correlation ratios: some tile of another cable length in use"]
LIGHT = 299792458.0


def table(name):
    rows = [ln.split() for ln in (REPO / f"PyFHD/templates/mwa_cable_{name}.txt").read_text().splitlines()[1:] if ln.strip()]
    return np.array([[float(x) for x in r] for r in rows]).T


def cases(tier):
    t = tier == "thorough"
    nf = 7 if t else 6
    for fu in itertools.product((0, 1), repeat=nf):
        for da, dp in itertools.product(range(4 if t else 3), range(3)):
            if sum(fu) > max(da, dp) + 1:
                for g in ("poly", "gen"):
                    yield dict(kind="fit", fu="".join(map(str, fu)), da=da, dp=dp, g=g, np=2)
    for da, dp in itertools.product(range(5), range(4)):
        for g in ("poly", "gen", "wrap"):
            for fu in ("all", "edges", "coarse"):
                for np_ in (1, 2):
                    yield dict(kind="fit", fu=fu, da=da, dp=dp, g=g, np=np_)
    for j in range(0, 33):
        for da in (1, 2, 3):
            for fu in ("all", "edges", "coarse"):
                for whole in (0, 1):
                    yield dict(kind="jump", j=j, da=da, dp=1, fu=fu, g="poly" if j % 2 else "gen", np=2, whole=whole)
    for hyper in (False, True):
        for fu in ("all", "edges"):
            for th in (1, 90, 150, 230, 320, 400, 524, -90, -150, -230, -320, -400, -524, 77):
                for g in ("gen", "refl"):
                    yield dict(kind="theory", th=th, hyper=hyper, fu=fu, g=g, da=2, dp=1, np=2)
            for th in (0, 150, -150, 320) if not hyper else ():
                yield dict(kind="file", th=th, hyper=False, fu=fu, g="gen", da=2, dp=1, np=2 - (th == 0))
        for m in range(3, 62 if t else 40):
            for fu in ("all", "coarse", "edges", "one", "half", "third"):
                yield dict(kind="delay", m=m, hyper=hyper, fu=fu, g="refl", da=2, dp=1, np=1 + m % 2)
        for m in (1, 2, 3, 4):
            for off in range(-48, 49, 8) if hyper else (0,):
                for fu in ("all", "coarse"):
                    yield dict(kind="delay", m=m, off=off, hyper=hyper, fu=fu, g="refl", da=0, dp=0, np=2)
    for off in (range(-45, 46, 3) if t else range(-45, 46, 9)):
        yield dict(kind="delay", m=17, off=off, hyper=True, fu="all", g="refl", da=2, dp=1, np=2)
    for th in (1, 150):
        for fu in ("all", "edges"):
            for off in (0, 7, -12):
                yield dict(kind="auto", th=th, hyper=True, fu=fu, off=off, g="refl", da=2, dp=1, np=2)


def check(c):
    r = Result(); kind = c["kind"]
    big = kind in ("theory", "file", "auto")
    n = 128 if big else 3
    nf = len(c["fu"]) if c["fu"][0] in "01" else (128 if kind == "delay" else 64 if big else 32)
    fu = np.ones(nf, int)
    if c["fu"][0] in "01": fu = np.array([int(x) for x in c["fu"]])
    if c["fu"] == "edges": fu[[0, 1, nf - 1]] = 0
    if c["fu"] == "coarse": fu[8::16] = 0
    if c["fu"] == "one": fu[c["m"]] = 0
    if c["fu"] == "half": fu[:64] = 0
    if c["fu"] == "third": fu[4::8] = 0; fu[0] = 0
    if c["fu"] == "coarse" and nf == 32: fu[[0, 7, 9, 20]] = 0
    obs, _ = fx.obs_params(n_tile=2, n_freq=nf, n_time=1, n_pol=c["np"], res=80e3 * (5 if big else 1), f0=187.515e6 - (c["j"] - .5 * (1 - c["whole"])) * 80e3 if kind == "jump" else 170e6)
    b = obs["baseline_info"]; obs["n_tile"] = n; b["freq_use"] = fu
    b["tile_use"] = np.ones(n, int); b["tile_use"][n // 2] = 0
    if big: b["tile_use"][5::9] = 0
    use, fr = np.nonzero(b["tile_use"])[0], np.nonzero(fu)[0]
    x = np.arange(nf); P, T = c["np"], n
    p, t = np.meshgrid(np.arange(P), np.arange(T), indexing="ij")
    k = (1.3 * p + 0.7 * t)[:, None, :]; X = ((x - nf / 2) / nf)[None, :, None]
    amp = sum((.3 + .7 * (d == 0)) * (1 + .5 * np.sin(k * (d + 1) + d)) * X ** d for d in range(c["da"] + 1))
    ph = sum((1.0 + .5 * (d == 0)) * np.cos(k * (d + 2)) * X ** d for d in range(c["dp"] + 1))
    if kind == "jump":
        amp = np.where((x < c["j"])[None, :, None], 1, 1.6) * sum((.3 + .7 * (d == 0)) * (1 + .4 * np.sin(k * (d + 1))) * X ** d for d in range(c["da"]))
    if c["g"] == "wrap": ph = ph + .9 * (x[None, :, None] - 5) * np.sign(np.cos(k)) * (c["dp"] > 0) + 3 * (c["dp"] == 0) * np.sin(k)
    g = amp * np.exp(1j * ph)
    if c["g"] == "gen":
        g = g * (1 + .05 * np.sin(2.9 * x[None, :, None] * (1 + t[:, None, :] % 5) + k)) * np.exp(.03j * np.cos(1.9 * x[None, :, None] + k))
    cfg = dict(cal_amp_degree_fit=c["da"], cal_phase_degree_fit=c["dp"], digital_gain_jump_polyfit=kind == "jump", cal_reflection_mode_theory=None, cal_reflection_mode_file=False,
               cal_reflection_mode_delay=False, cal_reflection_hyperresolve=c.get("hyper", False), instrument="mwa")
    modes, auto, length = None, None, None
    if kind in ("theory", "auto"):
        tb = table("length"); length = tb[2]
        band = (b["freq"][-1] - b["freq"][0]) * nf / (nf - 1)
        modes = np.tile(band * 2 * tb[2] / (LIGHT * tb[3]) * np.clip(tb[4], 0, 1), (P, 1))
        cfg["cal_reflection_mode_theory"] = c["th"]
    if kind == "file":
        tb = table("reflection_coefficients"); length = tb[2]
        modes = np.stack([tb[5], tb[8]])[:P] * np.clip(tb[4], 0, 1)
        cfg["cal_reflection_mode_file"] = True; cfg["cal_reflection_mode_theory"] = c["th"]
    if kind == "delay":
        cfg["cal_reflection_mode_delay"] = True
        modes = np.full((P, n), float(c["m"]))
    if c["g"] == "refl":
        inj = modes + .05 * c.get("off", 0)
        refl = .05 * (1 + .3 * np.sin(k)) * np.exp(-2j * np.pi * inj[:, None, :] * x[None, :, None] / nf + 1j * np.cos(3 * k) * 3)
        g = g * (1 + refl)
        if kind == "auto":
            auto = 1.2 * (1 + .2 * np.cos(k)) * (1 + refl.real) * np.ones((P, nf, n))
    if modes is not None and kind != "delay" and kind != "auto" and abs(c["th"]) > 1:
        modes = modes * ((length == c["th"]) if c["th"] > 0 else (length != -c["th"]))
    g[:, :, b["tile_use"] == 0] = np.nan
    cal = dict(gain=g.copy(), n_pol=P, extra=np.arange(2.0)); cfg0 = dict(cfg); a0 = None if auto is None else auto.copy()
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = vis_cal_polyfit(obs, cal, auto, cfg, NullLogger()); r.steps += 1
    r.expect(cfg == cfg0 and (auto is None or np.array_equal(auto, a0)), "inputs altered", "options or ratios changed")
    jump = kind == "jump" and 0 < np.sum(fr < c["j"]) < fr.size
    if jump and min(np.sum(fr < c["j"]), np.sum(fr >= c["j"])) <= c["da"] - 1:
        return r  # not enough channels on one side
    exp, mp, alt = np.zeros_like(g), np.zeros((P, n, 3)), None
    fit, amps = np.zeros_like(g), np.zeros(g.shape)
    got = out["gain"]; sel = np.ix_(range(P), fr, use)
    for pi in range(P):
        for ti in use:
            a, w = np.abs(g[pi, fr, ti]), np.angle(g[pi, fr, ti])
            u = unwrap(w)
            pp = polyfit(fr, u, c["dp"])
            if jump:
                am = np.zeros(nf); pars = []
                for s, q in ((fr < c["j"], x < c["j"]), (fr >= c["j"], x >= c["j"])):
                    pa = polyfit(fr[s], a[s], c["da"] - 1); pars.append(pa)
                    am[q] = sum(pa[d] * x[q] ** d for d in range(c["da"]))
                pars = np.array(pars)
            else:
                pars = polyfit(fr, a, c["da"])
                am = sum(pars[d] * x ** d for d in range(c["da"] + 1))
            pm = sum(pp[d] * x ** d for d in range(c["dp"] + 1))
            amps[pi, :, ti] = am
            fit[pi, :, ti] = am * np.exp(1j * pm)
            if ti % 16 == 1 or not big:
                r.expect(close(out["phase_params"][pi, ti], pp, rtol=1e-7), "phase coefficients", lambda: diff(out["phase_params"][pi, ti], pp))
                ap = out["amp_params"][pi, ti]
                r.expect(ap.shape == pars.shape and close(ap, pars, rtol=1e-6), "amplitude coefficients", lambda: diff(ap, pars))
    exp[:] = fit
    if kind == "delay":  # the strongest mode of the residual amplitudes not hidden by the pattern of flags
        half = np.arange(nf // 2); W = np.exp(-2j * np.pi * np.outer(half, x) / nf)
        power = sum(np.abs(W @ (np.abs(g[pi, :, ti]) - np.abs(amps[pi, :, ti]))) for pi in range(P) for ti in use)
        psf = np.abs(W @ fu)
        if not fu.all():
            hid = psf > psf.max() / 1000
            power[[i for i in half if hid[max(i - 2, 0):i + 3].any()]] = 0
        top = np.sort(power)[::-1]
        if top[0] and (top[0] < 1e-9 or top[1] > .9999 * top[0]):
            return r  # nothing but rounding left, or two modes equally strong
        modes[:] = np.argmax(power)
        nom = c["m"] + .05 * c.get("off", 0)
        if fu.all() and c["da"] == 2 and abs(nom - round(nom)) < .3: r.expect(modes[0, 0] == round(nom), "mode found", lambda: f"strongest mode {modes[0, 0]}, injected {nom}")
    if modes is not None:
        gr = np.full_like(g, np.nan)
        gr[sel] = g[sel] / fit[sel]
        for pi in range(P):
            for ti in use:
                m0 = modes[pi, ti]
                if m0 == 0:
                    continue
                z = gr[pi, fr, ti]; dft = lambda m, v: np.sum(np.exp(2j * np.pi * m * fr / nf) * v)
                if c["hyper"]:
                    if kind == "auto":
                        oth = [j for j in use if modes[pi, j] > 0 and abs(modes[pi, j] - m0) > .01]
                        nrm = auto[pi] / auto[pi].mean(axis=0)
                        q = nrm[:, ti] / nrm[:, oth].mean(axis=1); q = (q - q.mean())[fr]
                    else:
                        q = z - z.mean()
                    grid = [m0 + .05 * (i - 50) for i in range(101)]
                    F = np.array([dft(m, q) for m in grid]); i = int(np.argmax(np.abs(F)))
                    m, A, ph_ = grid[i], abs(F[i]) / fr.size, np.angle(F[i])
                    if kind == "auto":
                        phs = np.angle(gr[pi][fr])
                        ch = []
                        for o in (oth, [j for j in use if modes[pi, j] > 0 and abs(modes[pi, j] - m) > .01]):
                            q2 = phs[:, ti] - phs[:, o].mean(axis=1)
                            s = dft(m, q2); ch.append((2 * abs(s) / fr.size, np.angle(s) + np.pi / 2))
                        A, ph_ = min(ch, key=lambda v: abs(v[0] - out["mode_params"][pi, ti, 1]))
                elif kind == "file":
                    m, A, ph_ = m0, tb[6 + 3 * pi][ti], tb[7 + 3 * pi][ti]
                else:
                    s = dft(m0, z); m, A, ph_ = m0, abs(s) / fr.size, np.angle(s)
                mode = A * np.exp(-2j * np.pi * m * x / nf + 1j * ph_)
                exp[pi, :, ti] *= np.exp(1j * mode.imag) if kind == "auto" else 1 + mode
                mp[pi, ti] = m, A, ph_
                o = out["mode_params"][pi, ti]
                r.expect(abs(o[0] - m) < 1e-6 and abs(o[1] - A) < 1e-7 and (A < 1e-12 or abs(np.exp(1j * o[2]) - np.exp(1j * ph_)) < 1e-5), "mode", lambda: f"tile {ti}: {o}, expected {mp[pi, ti]}")
    ok = np.isfinite(exp[sel])
    r.expect(got.shape == g.shape and close(np.where(ok, got[sel], 0), np.where(ok, exp[sel], 0), rtol=1e-7), "gain", lambda: diff(np.where(ok, got[sel], 0), np.where(ok, exp[sel], 0)))
    if c["g"] == "poly" and kind == "fit":
        r.expect(close(np.abs(got[sel]), np.abs(g[sel]), rtol=1e-7), "recovery", lambda: "polynomial amplitudes are not recovered")
    if not jump:  # the fit covers the whole band
        w = np.isfinite(exp[:, :, use])
        r.expect(close(np.where(w, got[:, :, use], 0), np.where(w, exp[:, :, use], 0), rtol=1e-6), "whole band", lambda: diff(got[:, :, use], exp[:, :, use]))
    r.expect(np.array_equal(out["extra"], [0.0, 1.0]), "entries", "other entries changed")
    r.out = [exp[sel]]; r.nontrivial = not fu.all() or c["g"] == "wrap" or modes is not None
    return r
