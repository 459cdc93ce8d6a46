"""Q01: quickview writes exactly the requested products; its images are the calibrated sky images and their headers place them right."""
import copy, itertools, math, os, warnings
import numpy as np
from astropy.io import fits
from astropy.wcs import WCS
import fx, mini
from href import project, pictures
from mini import make_beam
from vf import Result, Scratch, NullLogger, close, diff, tree_diff
from PyFHD.data_setup.obs import project_slant_orthographic
from PyFHD.io.pyfhd_io import load
from PyFHD.io.pyfhd_quickview import quickview

ID, LEVEL = "Q01", "exploration"
RULE = ("every combination of the saving options with one image set; every combination of polarisations, padding factor, filter, pointing, beam form, used channels and image set (dense planes, and every single uv pixel of the small ones); "
        "the names and contents of all files written, against Fourier sums and projections written out; non-trivial: padded, filtered, slanted or cross-polarised")
ASSUMPTIONS = ["square even images, whole padding factors", "no beam value within rounding of the smallest that is corrected"]
mini.stub_sites()
FLAGS = ("save_obs", "save_params", "save_visibilities", "recalculate_grid", "save_cal", "calibrate_visibilities", "save_weights")


def cases(tier):
    t = tier == "thorough"
    for bits in range(2 ** len(FLAGS)):
        yield dict(part="files", bits=bits, npol=2, dim=6, pad=1.0, filt="uniform", slant=0, gs=1, ff=15, px=-1)
    for npol, pad, filt, slant, gs, ff, dim in itertools.product((1, 2, 4), (1.0, 2.0, 3.0), ("uniform", "optimal") + (("natural",) if t else ()), (0, 1, 2), (0, 1), (15, 6, 8), (12,) if not t else (8, 12, 16)):
        yield dict(part="images", bits=127, npol=npol, dim=dim, pad=pad, filt=filt, slant=slant, gs=gs, ff=ff, px=-1)
    for npol, pad in itertools.product((2, 4), (1.0, 2.0)):
        for px in range(npol * 36):
            yield dict(part="images", bits=3, npol=npol, dim=6, pad=pad, filt="uniform", slant=0, gs=1, ff=15, px=px)


def check(c):
    r = Result(); log = NullLogger(); P, dim, pad = c["npol"], c["dim"], int(c["pad"])
    obs, params = fx.obs_params(n_tile=3, n_freq=4, n_time=2, n_pol=P, dim=dim, kpix=.55, avg=2, max_bl=60.)
    b = obs["baseline_info"]; b["freq_use"] = np.array([c["ff"] >> k & 1 for k in range(4)])
    zra, zdec = ((20., -27.), (20., -27.), (28., -12.))[c["slant"]]
    ra, dec = 20., -27.
    if c["slant"] == 1: zra, zdec = 358., -40.
    jd = 2456840.4
    astr, _, _ = project_slant_orthographic(dict(phasera=ra, phasedec=dec, zenra=zra, zendec=zdec, obsx=dim // 2, obsy=dim // 2, jd0=jd), dict(dimension=dim, elements=dim, degpix=obs["degpix"]))
    obs.update(astr=astr, jd0=jd, n_vis=123, pol_names=["XX", "YY", "XY", "YX", "I", "Q", "U", "V"])
    nb = 2; psf = make_beam(n_pol=P, n_fbin=nb, dim=4, res=2, n_bl=obs["n_baselines"], gaussian=False)
    hor = dim * 1.1
    psf["pix_horizon"] = hor; psf["fnorm"] = 1 + .13 * np.arange(nb)
    if c["gs"]:
        h, u = hor * 1.3 / 2, hor / 8
        psf["beam_gaussian_params"] = np.array([[[1 - .1 * p, h + .2 * u * f, (2.4 + .3 * f) * u, h - .3 * u * p, (1.9 + .2 * p) * u, .3 + .1 * f, h + 2 * u, .9 * u, h - 1 * u, (.7 + .1 * f) * u] for f in range(nb)] for p in range(P)])
    shp = (P, dim, dim)
    cnt = (np.arange(dim * dim).reshape(dim, dim) * 7 % 5).astype(float); cnt[dim // 2, dim // 2] = 3
    wuv = np.abs(fx.pattern(shp, 2)) * (cnt > 0) + .1j * fx.pattern(shp, 8).real
    wuv[:, cnt == 0] = 0
    for p in range(P):
        wuv[p, np.arange(dim) % (p + 4) == 1] = 0      # polarisations with different samples
    if c["px"] >= 0:
        iuv, muv = np.zeros(shp, complex), np.zeros(shp, complex); iuv.flat[c["px"]] = 1 + .4j; muv.flat[(c["px"] * 5 + 3) % iuv.size] = .7 - .2j
        cnt[:] = np.maximum(cnt, 1)
    else:
        iuv, muv = fx.pattern(shp, 4), fx.pattern(shp, 5)
    var = np.abs(fx.pattern(shp, 6)); V = fx.vis(obs); W = np.abs(V)
    cal = dict(gain=fx.pattern((2, 4, 3), 9), n_pol=P, name="cal")
    on = {k: bool(c["bits"] >> i & 1) for i, k in enumerate(FLAGS)}
    cfg = dict(on, obs_id="77", pad_uv_image=c["pad"], image_filter=f"filter_uv_{c['filt']}")
    args = (obs, psf, params, cal, V, W, iuv, wuv, var, cnt, muv); keep = copy.deepcopy(args)
    with Scratch() as d:
        cfg["output_dir"] = d
        try:
            quickview(*args, cfg, log); r.steps += 1
        except Exception as e:
            r.fail("raised", repr(e)); return r
        for k, (x, y) in enumerate(zip(args, keep)):
            td = tree_diff(x, y)
            r.expect(td is None, "inputs altered", lambda: f"argument {k}: {td}")
        obs, psf, params, cal, V, W, iuv, wuv, var, cnt, muv = keep
        names = list(obs["pol_names"]); saved = {}
        if on["save_obs"]: saved["metadata/77_obs.h5"] = obs
        if on["save_params"]: saved["metadata/77_params.h5"] = params
        if on["save_visibilities"]:
            saved["visibilities/77_calibrated_vis_arr.h5"] = V
            if on["recalculate_grid"]:
                saved.update({f"gridding/77_{n}.h5": a for n, a in (("image_uv", iuv), ("weights_uv", wuv), ("variance_uv", var), ("uniform_filter_uv", cnt), ("model_uv", muv))})
        if on["save_cal"] and on["calibrate_visibilities"]: saved["calibration/77_cal.h5"] = cal
        if on["save_weights"]: saved["visibilities/77_calibrated_vis_weights.h5"] = W
        if P == 4: names[2:4] = ["XY_real", "XY_imag"]
        pics = [f"fits/77_{c['filt']}_{k}_{n}.fits" for k in ("dirty", "model", "residual") for n in names[:P]] + [f"fits/77_{k}_{n}.fits" for k in ("beam", "uv_weights") for n in names[:P]]
        there = sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)
        if not r.expect(there == sorted(pics + list(saved)), "files", lambda: f"extra {sorted(set(there) - set(pics) - set(saved))} missing {sorted((set(pics) | set(saved)) - set(there))}"):
            return r
        for f, val in saved.items():
            td = tree_diff(load(d / f, logger=log), val)
            r.expect(td is None, "saved " + f.split("_", 1)[1], td)
        # --- images
        N = dim * pad; deg = math.degrees(1 / (obs["kpix"] * N))
        raw, dirty, model, wts, disc = pictures(obs, psf, iuv, muv, wuv, cnt, c["filt"], pad, (ra, dec, zra, zdec), bool(c["gs"]))
        up = disc >= 0; doubtful = np.abs(disc) < 1e-9
        r.out = [dirty[0], model[-1]]
        for p in range(P):
            g = {}
            for k in ("dirty", "model", "residual", "beam", "uv_weights"):
                with fits.open(d / (f"fits/77_{c['filt']}_{k}_{names[p]}.fits" if k in ("dirty", "model", "residual") else f"fits/77_{k}_{names[p]}.fits")) as hd:
                    g[k] = (np.array(hd[0].data), hd[0].header.copy())
            R = raw[p]; unsure = (np.abs(R - 1e-3) < 1e-9) | doubtful; inv = np.where(R >= 1e-3, 1 / np.where(R >= 1e-3, R, 1), 0.)
            for k, e in (("dirty", dirty[p] * inv), ("model", model[p] * inv), ("residual", (dirty[p] - model[p]) * inv), ("beam", R), ("uv_weights", np.abs(wts[p]) * obs["n_vis"])):
                a = g[k][0]
                if k != "uv_weights" and a.shape == e.shape:
                    a, e = np.where(unsure, 0, a), np.where(unsure, 0, e)
                r.expect(close(a, e, rtol=1e-8), k, lambda: f"{names[p]}: " + diff(a, e))
            for k in ("dirty", "beam") if p == 0 else ("residual",):
                h = g[k][1]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore"); w = WCS(h)
                    yy, xx = np.nonzero(up & ~doubtful & (disc > 1e-3))
                    ra_, de_ = w.all_pix2world(xx, yy, 0)
                ok = np.isfinite(ra_); v = frame_vec(ra_[ok], de_[ok])
                X, Y, _ = project(v, ra, dec, zra, zdec, N, deg)
                r.expect(ok.all() and close(X, xx[ok], atol=1e-5) and close(Y, yy[ok], atol=1e-5), "header", lambda: f"{names[p]} {k}: header places pixel {xx[0], yy[0]} at ra {ra_[0]} dec {de_[0]}, which is pixel {X[:1]}, {Y[:1]}")
                r.expect(h["MJD-OBS"] == astr["mjdobs"] and h.get("BUNIT") == (None if k == "beam" else "Jy/sr (apparent)"), "header fields", f"{k}: {h.get('BUNIT')} {h['MJD-OBS']}")
            h = g["uv_weights"][1]; kp = obs["kpix"]
            r.expect([h["CD1_1"], h["CD2_2"], h["CD1_2"], h["CD2_1"]] == [kp, kp, 0, 0] and [h["CRPIX1"], h["CRPIX2"]] == [dim // 2 + 1] * 2 and [h["CRVAL1"], h["CRVAL2"]] == [0, 0], "uv header", lambda: repr({k: h[k] for k in ("CD1_1", "CRPIX1", "CRPIX2")}))
    r.nontrivial = pad > 1 or P == 4 or c["slant"] > 0 or c["filt"] != "uniform"
    return r


def frame_vec(ra, dec):
    a, d = np.radians(ra), np.radians(dec)
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
