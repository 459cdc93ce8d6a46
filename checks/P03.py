"""P03: every product of a whole run follows from the input files and options."""
import itertools, math, os
from pathlib import Path
import numpy as np
import e2e, gref, mini
import G01, G03
from href import bilinear, cube, even_odd, lobes, pictures, project
import healpy as hp
from vf import Result, Scratch, close, diff, tree_diff

ID, LEVEL = "P03", "exploration"
RULE = ("whole runs from input files: every kind of observation (polarisations, times, auto-correlations, missing baselines, antenna numbers, flags, beam groups) with every option, and pairs of options; raw and calibrated visibilities and weights, gains, gridded planes, images, and HEALPix cubes "
        "against a reference pipeline that works one visibility at a time from the input arrays; non-trivial: all")
ASSUMPTIONS = ["single pointing at the phase centre; even image sizes", "some channels and times are left, with five equations for each tile", "the gains solved are those of the saved calibration (their values are K01's to K10's matter); with noiseless data and nothing fitted they must restore the model"]
CHUNK = 2
POLS = ["XX", "YY", "XY", "YX"]
PLAIN = dict(bandpass_calibrate=False, calibration_polyfit=False, max_cal_iter=300)
SCENES = [dict(), dict(n_pol=4), dict(n_time=1), dict(n_time=3), dict(n_time=4, n_pol=4), dict(autos=False), dict(missing_pairs=((2, 5), (1, 8))), dict(ant_numbers="odd"), dict(flags=False), dict(avg=2), dict(avg=1, n_pol=4),
          dict(tiles=(2, 3, 5, 8, 11, 17)), dict(gains=0.0), dict(gains=0.4), dict(n_freq=6), dict(n_freq=3)]
BAND = [(dict(n_freq=96, avg=32, tiles=(1, 2, 3, 5, 8, 9)), o) for o in (dict(flag_frequencies=True, n_avg=24), dict(flag_frequencies=True, flag_freq_start=181.2, n_avg=16), dict(flag_frequencies=True, flag_freq_end=183.6, n_avg=32))]  # enough channels for a coarse band
NOISY = [(dict(noise=k, n_freq=m, tiles=tuple(range(1, 15)), n_pol=p, n_time=t), dict(flag_visibilities=True, flag_calibration=False)) for k, m, p, t in (("tile", 4, 2, 2), ("tile", 4, 4, 3), ("chan", 13, 2, 2))]  # outliers for flagging after calibration
OPTIONS = [dict(), dict(interpolate_kernel=False), dict(flag_tiles=["3"]), dict(flag_tiles=["1", "99"]), dict(time_cut=1.0), dict(time_cut=-1.0), dict(deproject_w_term=0.4), dict(deproject_w_term=-2.0), dict(pad_uv_image=2.0), dict(image_filter="filter_uv_optimal"), dict(dimension=18, elements=18),
           dict(kbinsize=1.5), dict(kbinsize=3.0, dimension=20, elements=20), dict(min_baseline=1.5), dict(calibrate_visibilities=False), dict(bandpass_calibrate=True), dict(bandpass_calibrate=True, calibration_polyfit=True), dict(calibration_auto_fit=True), dict(max_cal_iter=6), dict(n_avg=1), dict(n_avg=4), dict(n_avg=3),
           dict(split_ps_export=False), dict(rephase_weights=False), dict(ps_kbinsize=1.6), dict(ps_kspan=32), dict(ps_tile_flag_list=["5"]), dict(beam_nfreq_avg=1), dict(beam_nfreq_avg=2), dict(flag_calibration=False), dict(vis_baseline_hist=False), dict(auto_ratio_calibration=False), dict(calibration_auto_initialize=False), dict(min_cal_baseline=3.0),
           dict(cal_convergence_threshold=1e-3), dict(grid_spectral=True), dict(flag_freq_start=180.2), dict(flag_freq_end=181.2), dict(lazy_load_beam=True), dict(mask_mirror_indices=True),
           dict(cal_time_average=False), dict(cal_gain_init=2), dict(cal_base_gain=0.5), dict(cal_adaptive_calibration_gain=True), dict(max_cal_baseline=20.0), dict(cal_phase_fit_iter=2), dict(recalculate_all=True), dict(cable_bandpass_fit=False, bandpass_calibrate=True), dict(digital_gain_jump_polyfit=False, bandpass_calibrate=True),
           dict(calibration_polyfit=True), dict(cal_reflection_hyperresolve=False, calibration_polyfit=True), dict(cal_reflection_mode_delay=True, cal_reflection_mode_theory=0, calibration_polyfit=True), dict(ps_beam_threshold=0.3), dict(image_filter="filter_uv_natural"), dict(image_filter="filter_uv_hanning"), dict(ring_radius_multi=2.0), dict(flag_basic=False), dict(flag_visibilities=True)]


def cases(tier):
    t = tier == "thorough"
    seen = set()
    for s, o in (BAND if t else BAND[1:2]) + NOISY + [(dict(s, n_freq=4), {}) for s, o in NOISY[:2]]:
        yield dict(scene=dict(s), opt=dict(o))
    for s, o in itertools.product(SCENES, OPTIONS) if t else [(s, {}) for s in SCENES] + [(s, o) for s in SCENES[:2] for o in OPTIONS] + [(s, o) for i, s in enumerate(SCENES[2:]) for j, o in enumerate(OPTIONS) if (i + j) % 5 == 0]:
        yield_ = dict(scene=dict(s), opt=dict(o))
        k = repr(yield_)
        if s.get("n_time") == 1 and o.get("time_cut") or o.get("n_avg", 2) > s.get("n_freq", 4): continue  # nothing left
        if k not in seen:
            seen.add(k); yield yield_
    if t:
        for a, b in itertools.combinations([o for o in OPTIONS if o], 2):
            if not set(a) & set(b) and repr((a, b)) not in seen:
                yield dict(scene=dict(n_pol=2, n_time=4), opt=dict(a, **b))


def warmup():
    e2e.warm(Path(os.environ.get("VERIF_SCRATCH", "/tmp"), "p03"))


def weights_update(w, o, geo, psf_dim, freq_use, tile_use, time_use):
    """Weights left by the flags and by the extent of the uv plane."""
    w = w.copy(); n_pol, nf, N = w.shape
    par = dict(uu=o.uu, vv=o.vv)
    L = np.outer(geo["baseline_info"]["freq"], np.hypot(o.uu, o.vv))
    loc = gref.locate(dict(geo, min_baseline=0, max_baseline=1e99), psf_dim, 4, par, np.ones((nf, N)), range(nf), range(N))
    for k in range(nf):
        for i in range(N):
            t = i // o.n_bl
            if not freq_use[k] or not tile_use[o.ant1[i] - 1] or not tile_use[o.ant2[i] - 1] or not time_use[t] or L[k, i] < geo["min_baseline"] or L[k, i] > geo["max_baseline"] or (k, i) not in loc:
                w[:, k, i] = 0
    return w


def check(c):
    r = Result(); sc = dict(c["scene"]); opt = dict(PLAIN, **c["opt"])
    sc["avg"] = opt["beam_nfreq_avg"] = opt.get("beam_nfreq_avg") or sc.get("avg", 4)
    if sc.get("ant_numbers") == "odd":
        sc["ant_numbers"] = np.arange(mini.N_TILE) + 120
    n_pol = sc.pop("n_pol", 2); sc.setdefault("tiles", (1, 2, 3, 5, 8, 9, 12))
    if sc.get("n_time", 2) - bool(opt.get("time_cut")) < 2:
        sc["tiles"] = tuple(sorted(set(sc["tiles"]) | {4, 14, 19, 26}))  # enough equations for each tile in one time
    with Scratch() as d:
        s = e2e.Scene(d / "s", n_pol=n_pol, **sc); o = s.obs
        cfg = s.config(d / "o", **opt)
        rc, out, said, _ = e2e.run(s, d, "o", **opt); r.steps += 1
        if not r.expect(rc == 0, "ends", f"{c}: ends with {rc}: {said}"):
            return r
        got = {n: e2e.contents(p) for n, p in e2e.products(out).items() if p.suffix == ".h5"}
        fit = {n: e2e.contents(p)["0"] for n, p in e2e.products(out).items() if p.suffix == ".fits"}
    O = e2e.OBS; obs = got[f"metadata/{O}_obs.h5"]; par = got[f"metadata/{O}_params.h5"]; b = obs["baseline_info"]
    nf, nt, nb, N = o.n_freq, o.n_time, o.n_bl, o.n_blt
    kb = cfg["kbinsize"]; dim = cfg["dimension"]
    eq = lambda a, e, tag, **k: r.expect(close(a, e, **k), tag, lambda: diff(np.asarray(a), np.asarray(e)))
    # --- what is read
    raw, rw = got[f"visibilities/{O}_raw_vis_arr.h5"], got[f"visibilities/{O}_raw_vis_weights.h5"]
    raw = raw if isinstance(raw, np.ndarray) else next(iter(raw.values())); rw = rw if isinstance(rw, np.ndarray) else next(iter(rw.values()))
    eq(raw, o.vis, "raw visibilities"); eq(rw, o.wts, "raw weights")
    eq(par["uu"], o.uu, "u"); eq(par["vv"], o.vv, "v"); eq(par["ww"], o.ww, "w")
    for k, e in (("n_pol", n_pol), ("n_freq", nf), ("n_time", nt), ("n_tile", mini.N_TILE), ("n_baselines", nb), ("kpix", kb), ("dimension", dim), ("elements", dim)):
        eq(obs[k], e, f"obs {k}")
    eq(b["freq"], o.freq, "frequencies"); eq(b["tile_a"], o.ant1, "first tiles"); eq(b["tile_b"], o.ant2, "second tiles")
    # --- flags
    time_use = np.ones(nt, int)
    if opt.get("time_cut"):
        k = min(math.ceil(abs(opt["time_cut"]) / o.time_res), nt)
        if opt["time_cut"] > 0: time_use[:k] = 0
        else: time_use[nt - k:] = 0
    eq(b["time_use"], time_use, "times used")
    meta = np.array([i + 1 not in o.flagged_meta for i in range(mini.N_TILE)])
    flagged = dict(baseline_info=dict(freq=o.freq, tile_a=o.ant1, tile_b=o.ant2, tile_names=[str(x) for x in o.ant_numbers], bin_offset=np.arange(nt) * nb, time_use=time_use, freq_use=np.ones(nf), tile_use=meta), n_tile=mini.N_TILE)
    V = o.vis
    if opt.get("deproject_w_term") is not None:
        V = V * np.exp(1j * opt["deproject_w_term"] * np.outer(o.freq, o.ww))
    w, fuse, tuse = G01.reference(o.wts, V, flagged, dict(flag_freq_start=opt.get("flag_freq_start"), flag_freq_end=opt.get("flag_freq_end"), flag_tiles=opt.get("flag_tiles", []), flag_frequencies=opt.get("flag_frequencies", False)))
    L = np.outer(o.freq, np.hypot(o.uu, o.vv))
    geo = dict(kpix=kb, dimension=dim, elements=dim, min_baseline=float(obs["min_baseline"]) * (1 - 1e-9), max_baseline=float(obs["max_baseline"]) * (1 + 1e-9), baseline_info=dict(freq=o.freq))
    d_ = int(s.psf["dim"])
    if not cfg["flag_basic"]:
        w, fuse, tuse = o.wts.copy(), np.ones(nf), meta
    w = weights_update(w, o, geo, d_, fuse, tuse, time_use); w0 = w[0]
    cal = cfg["calibrate_visibilities"]
    # a tile needs five equations in each channel
    eqs = (w[:2] > 0) & (L >= opt.get("min_cal_baseline", 1.0))[None] & (o.ant1 != o.ant2)
    count = np.array([(eqs & ((o.ant1 == x + 1) | (o.ant2 == x + 1))).sum(axis=2).min() for x in range(mini.N_TILE) if tuse[x] and x + 1 in o.ant1])
    solvable = (count >= 5).all()
    if cal:
        r.expect(not (np.asarray(b["tile_use"]) > tuse).any() and not (np.asarray(b["freq_use"]) > fuse).any(), "unflagged", "calibration puts flagged tiles or channels into use")
        if solvable and not c["scene"].get("noise") and "max_cal_iter" not in c["opt"] and opt.get("kbinsize") != 1.5 and not opt.get("bandpass_calibrate") and not opt.get("calibration_auto_fit"):
            r.expect(np.array_equal(b["tile_use"], tuse), "tiles", lambda: f"tiles used {np.nonzero(b['tile_use'])[0]}, expected {np.nonzero(tuse)[0]}")
        known = not cfg["flag_calibration"] and cfg.get("flag_visibilities")  # the tiles and channels used before the visibilities are flagged
        w = weights_update(w, o, geo, d_, fuse if known else np.asarray(b["freq_use"]), tuse if known else np.asarray(b["tile_use"]), time_use)
    else:
        eq(b["tile_use"], tuse.astype(int), "tiles"); eq(b["freq_use"], fuse.astype(int), "channels")
    cw = got[f"visibilities/{O}_calibrated_vis_weights.h5"]; cw = cw if isinstance(cw, np.ndarray) else next(iter(cw.values()))
    cv = got[f"visibilities/{O}_calibrated_vis_arr.h5"]; cv = cv if isinstance(cv, np.ndarray) else next(iter(cv.values()))
    # a channel whose reference tile cannot be solved loses its weights while being calibrated
    G = None
    if cal and known:
        lim = dict(flagged, n_pol=n_pol, min_baseline=geo["min_baseline"], max_baseline=geo["max_baseline"]); lim["baseline_info"] = dict(flagged["baseline_info"], tile_use=tuse.astype(int), freq_use=fuse.astype(int))
        w, et, ef, doubt = G03.reference(cv, w, lim, np.hypot(o.uu, o.vv) * np.sort(o.freq)[nf // 2])
        if doubt:
            w = cw
        else:
            eq(b["tile_use"], et, "tiles after flagging"); eq(b["freq_use"], ef, "channels after flagging")
    if cal:
        G = np.asarray(got[f"calibration/{O}_cal.h5"]["gain"])
    edge = np.abs(L - float(obs["max_baseline"])) < 1e-9 * L  # the longest baseline may be cut by rounding
    w = np.where(edge, cw, w)
    eq(cw, w, "calibrated weights")
    # --- calibrated visibilities
    exp = V.copy()
    if cal:
        for p in range(n_pol):
            pa, pb = ((0, 0), (1, 1), (0, 1), (1, 0))[p]
            g = G[pa][:, o.ant1 - 1] * np.conj(G[pb][:, o.ant2 - 1])
            ok = np.isfinite(g) & (g != 0)
            exp[p] = np.where(ok, V[p] / np.where(ok, g, 1), 0)
        if n_pol == 4:
            ph = float(got[f"calibration/{O}_cal.h5"]["cross_phase"])
            exp[2] *= np.exp(1j * ph); exp[3] *= np.exp(-1j * ph)
        eq(cv, exp, "calibrated visibilities", rtol=1e-9)
        exact = solvable and not sc.get("noise") and opt.get("deproject_w_term") is None and not (set(c["opt"]) & {"max_cal_iter", "calibration_auto_fit", "cal_convergence_threshold"}) and not opt["bandpass_calibrate"] and not opt["calibration_polyfit"]
        if exact:
            both = (w[:2] > 0).all(axis=0)[None].repeat(n_pol, 0)
            # the phase between X and Y of the reference tile can be restored on average only
            eq(np.where(both, cv, 0)[:2], np.where(both, o.model, 0)[:2], "restored model", rtol=1e-4)
        # the noise from pairs of neighbouring times, and the phase between Q and U
        eq(obs["vis_noise"], scatter(cv, cw, np.asarray(b["time_use"]), nb), "noise", rtol=1e-9)
        if n_pol == 4:
            got_ = float(got[f"calibration/{O}_cal.h5"]["stokes_mix_phase"]); e = []
            for W in (w0, np.where(edge, o.wts[0], w0), np.where(edge, 0, w0)):
                W = np.clip(W, 0, 1); e.append(slope(o.model, W, nt, nb) - slope(cv, W, nt, nb))
            r.expect(min(abs(np.exp(1j * got_) - np.exp(1j * x)) for x in e) < 1e-7, "Q-U phase", lambda: f"{got_}, expected {e[0]}")
    else:
        eq(cv, exp, "uncalibrated visibilities")
    # --- gridded planes
    go = dict(geo, baseline_info=dict(freq=o.freq, freq_use=np.asarray(b["freq_use"]), fbin_i=np.asarray(b["fbin_i"])))
    fb = np.arange(nf) // max(int(cfg["beam_nfreq_avg"]), 1)
    psf = dict(s.psf)
    par_ = dict(uu=o.uu, vv=o.vv)
    plane = lambda n: (lambda x: np.asarray(x if isinstance(x, np.ndarray) else next(iter(x.values()))))(got[f"gridding/{O}_{n}.h5"])
    pl = {n: plane(n) for n in ("image_uv", "weights_uv", "variance_uv", "uniform_filter_uv", "model_uv")}
    M = o.model
    ref = [gref.grid(go, psf, par_, cv[p], cw[p], p, interp=bool(cfg["interpolate_kernel"]), no_mirror=bool(opt.get("mask_mirror_indices")), model=M[p], no_conj=p > 1) for p in range(n_pol)]
    E = dict(image_uv=np.array([g["image_uv"] for g in ref]), weights_uv=np.array([g["weights"] for g in ref]), variance_uv=np.array([g["variance"] for g in ref]), model_uv=np.array([g["model_return"] for g in ref]))
    if n_pol == 4:
        for k in ("image_uv", "weights_uv", "model_uv"):
            x = (E[k][2] - gref.mirror(E[k][3])) / 2
            E[k][2], E[k][3] = x, gref.mirror(x)
    E["uniform_filter_uv"] = ref[0]["uniform_filter"]
    for k in E:
        eq(pl[k], E[k], k, rtol=1e-7)
    nfv = [ref[n_pol - 1]["nf"].get(k, 0) for k in range(nf)]
    eq(obs["nf_vis"], nfv, "numbers of visibilities"); eq(obs["n_vis"], int((w[0] > 0).sum()), "number of visibilities")
    # --- images
    pad = int(cfg.get("pad_uv_image") or 1); how = cfg["image_filter"].replace("filter_uv_", "")
    lobed = True
    names = ["XX", "YY", "XY_real", "XY_imag"][:n_pol]
    go2 = dict(go)
    go2["baseline_info"]["fbin_i"] = np.asarray(b["fbin_i"])
    psf2 = dict(psf)
    beam, dirty, model, wts, disc = pictures(go2, psf2, E["image_uv"], E["model_uv"], E["weights_uv"], E["uniform_filter_uv"], how, pad, (float(obs["phasera"]), float(obs["phasedec"]), float(obs["zenra"]), float(obs["zendec"])), lobed)
    sure = np.abs(disc) > 1e-9
    for p in range(n_pol):
        R = beam[p]; inv = np.where(R >= 1e-3, 1 / np.where(R >= 1e-3, R, 1), 0.0); unsure = (np.abs(R - 1e-3) < 1e-9) | ~sure
        for k, e, f in (("dirty", dirty[p] * inv, f"{how}_dirty"), ("model", model[p] * inv, f"{how}_model"), ("residual", (dirty[p] - model[p]) * inv, f"{how}_residual"), ("beam", R, "beam"), ("uv_weights", np.abs(wts[p]) * int((w[0] > 0).sum()), "uv_weights")):
            a = np.asarray(fit[f"fits/{O}_{f}_{names[p]}.fits"]["data"])
            if k != "uv_weights" and a.shape == e.shape: a, e = np.where(unsure, 0, a), np.where(unsure, 0, e)
            r.expect(close(a, e, rtol=1e-6, atol=1e-9 * max(1.0, float(np.abs(dirty[p]).max()))), f"image {k}", lambda: f"{names[p]}: " + diff(a, e))
    r.out = [cv, E["image_uv"]]
    cubes(r, c, s, cfg, obs, got, cv, cw, o)
    return r


def slope(v, W, nt, nb):
    """Phase of U's slope against Q, summed over times."""
    s = lambda x: sum((x * W)[:, t * nb:(t + 1) * nb] for t in range(nt))
    use = s(np.ones_like(W)) > 0
    Q, U = s(v[1] - v[0])[use], s(v[2] + v[3])[use]; d = U - U.mean()
    return np.angle(np.vdot(d, Q - Q.mean()))


def scatter(v, w, use, nb):
    """Scatter of the imaginary parts' differences between neighbouring times, over the square root of two."""
    out = np.zeros(v.shape[:2]); nt = len(use)
    if nt < 2: return out
    s = int(np.argmax(use)); pairs = [(t, t + 1) for t in range(s, nt - 1, 2) if use[t] and use[t + 1]]
    rows = [np.array([x * nb + i for q in pairs for x in q if x % 2 == k for i in range(nb)], int) for k in (0, 1)]
    ok = (w[:, :, rows[0]] > 0) & (w[:, :, rows[1]] > 0); d = v[:, :, rows[0]].imag - v[:, :, rows[1]].imag
    for p, k in np.ndindex(out.shape):
        if ok[p, k].any(): out[p, k] = d[p, k][ok[p, k]].std() / math.sqrt(2)
    return out


def cubes(r, c, s, cfg, obs, got, v, w, o):
    """HEALPix cubes of even and odd times."""
    O = e2e.OBS; b = obs["baseline_info"]; n_pol, nf, N = w.shape; nb = o.n_bl; avg = cfg["n_avg"]; D = 180 / math.pi
    kb = cfg["ps_kbinsize"]; dim = int(cfg["ps_kspan"] / kb + 1e-9); deg = D / kb / dim; nu = nf // avg
    fb = np.asarray(b["fbin_i"])
    fu = np.asarray(b["freq_use"]); maxb = min(float(obs["max_baseline"]), dim * kb / math.sqrt(2))
    wr = w.copy(); cut = {int(x) for x in cfg.get("ps_tile_flag_list", [])}
    names = [str(x) for x in np.asarray(b["tile_names"])]; cut = {names.index(str(x)) + 1 for x in cut if str(x) in names}
    wr[:, :, np.isin(o.ant1, list(cut)) | np.isin(o.ant2, list(cut))] = 0
    geo = dict(baseline_info=dict(freq=o.freq), kpix=kb, dimension=dim, elements=dim, min_baseline=float(obs["min_baseline"]) * (1 - 1e-9), max_baseline=maxb * (1 + 1e-9))
    wr = weights_update(wr, o, geo, int(s.psf["dim"]), fu, np.asarray(b["tile_use"]), np.asarray(b["time_use"]))
    wr, parts, _ = even_odd(wr, np.asarray(b["time_use"]), nb, bool(cfg["split_ps_export"]))
    at = (float(obs["phasera"]), float(obs["phasedec"]), float(obs["zenra"]), float(obs["zendec"]))
    ip = hp.query_disc(64, hp.ang2vec(0.0, -27.0, lonlat=True), np.radians(5))
    x, y, n = project(np.array(hp.pix2vec(64, ip)), *at, dim, deg)
    W = bilinear(x, y, n, dim).reshape(len(ip), -1)
    hor = s.psf["pix_horizon"]
    beams = np.array([[lobes(s.psf["beam_gaussian_params"][p, fb[math.floor(j * nf / nu)]], dim, hor) ** 2 / s.psf["fnorm"][fb[math.floor(j * nf / nu)]] for j in range(nu)] for p in range(n_pol)])
    go = dict(geo, baseline_info=dict(freq=o.freq, freq_use=fu, fbin_i=fb)); par = dict(uu=o.uu, vv=o.vv)
    for (cn, un, rows), p in itertools.product(parts, range(n_pol)):
        name = f"healpix/{O}_{cn}_{POLS[p]}.h5"
        if not r.expect(name in got, "cube missing", name):
            continue
        h = got[name]
        e, cnt, tot = cube(go, s.psf, par, v, o.model, wr, p, rows, avg, W, beams, np.ones((dim, dim)), deg, "dirty_cube", bool(cfg["interpolate_kernel"]), bool(cfg.get("mask_mirror_indices")))
        r.expect(np.array_equal(h["hpx_inds"], ip), "cube pixels", "")
        for k in e:
            r.expect(close(h[k], e[k], rtol=1e-6), f"cube {k}", lambda: f"{cn} {p}: " + diff(np.asarray(h[k]), e[k]))
        r.expect(np.array_equal(h["obs"]["nf_vis"], cnt) and int(h["obs"]["n_vis"]) == tot, "cube counts", lambda: f"{h['obs']['nf_vis']}, {h['obs']['n_vis']}, expected {cnt}, {tot}")
