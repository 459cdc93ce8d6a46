"""H02: per-channel-group images for the power spectrum are the images of exactly that group's gridded visibilities."""
import itertools, math
import numpy as np
import fx, gref
from href import dft
from mini import make_beam
from vf import Result, Scratch, NullLogger, close, diff
from PyFHD.data_setup.obs import project_slant_orthographic
from PyFHD.healpix.healpix_utils import vis_model_freq_split, phase_shift_uv_image
from PyFHD.io.pyfhd_io import load

ID, LEVEL = "H02", "exploration"
RULE = ("every subset of used channels x channels per image x polarisation x row subset (even, odd, given or found from the weights) x rephasing of weights x images or uv planes x saved or not, on data with flags "
        "and several layouts; images, uv files, visibility counts against visibilities gridded one at a time and Fourier sums; every phase centre of a grid for the rephasing; non-trivial: a channel or row is unused")
ASSUMPTIONS = ["square planes"]


def cases(tier):
    t = tier == "thorough"
    for nf, avg in ((3, 1), (4, 2), (5, 2), (4, 4), (4, 3)) + (((6, 2), (6, 4)) if t else ()):
        for ff in range(1, 2 ** nf):
            for pol, rows in itertools.product((0, 1), ("none", "even", "odd", "few")):
                yield dict(part="split", nf=nf, avg=avg, ff=ff, pol=pol, rows=rows, reph=(ff >> 1) & 1, fft=1, save=(ff & 1) or nf == 3, npol=2, lay=0)
    for npol, rows, reph, fft, save, lay, avg, flags in itertools.product((1, 2, 4), ("none", "even", "odd", "few"), (0, 1, 2), (0, 1), (0, 1), (0, 1, 2), (1, 2, 3), (0, 1, 2, 3)):
        if t or flags == 3 and rows == 'none' or flags < 3 and (lay + avg + flags) % 2 == 0:
            for pol in range(npol):
                yield dict(part="split", nf=4, avg=avg, ff=13 if flags else 15, pol=pol, rows=rows, reph=reph, fft=fft, save=save, npol=npol, lay=lay, flags=flags)
    for ra, dec, dra, ddec, dim in itertools.product((0., 60., 359.), (-27., -60., 10.), (0., .4, -2.), (0., -.3, 1.5), (8, 16)):
        yield dict(part="phase", ra=ra, dec=dec, dra=dra, ddec=ddec, dim=dim)


def centre(ra, dec, ra0, dec0, dim, deg):
    a, d, e = np.radians(ra - ra0), math.radians(dec), math.radians(dec0)
    return math.cos(d) * math.sin(a) / math.radians(deg), (math.sin(d) * math.cos(e) - math.cos(d) * math.sin(e) * math.cos(a)) / math.radians(deg)


def check(c):
    r = Result(); log = NullLogger()
    if c["part"] == "phase":
        dim, deg = c["dim"], 1.0; ra1, dec1 = (c["ra"] + c["dra"]) % 360, c["dec"] + c["ddec"]
        astr, _, _ = project_slant_orthographic(dict(phasera=c["ra"], phasedec=c["dec"], zenra=c["ra"], zendec=c["dec"], obsx=dim // 2, obsy=dim // 2, jd0=2456840.4), dict(dimension=dim, elements=dim, degpix=deg))
        g = phase_shift_uv_image(dict(astr=astr, phasera=c["ra"], phasedec=c["dec"], orig_phasera=ra1, orig_phasedec=dec1, dimension=dim, elements=dim)); r.steps += 1
        dx, dy = centre(ra1, dec1, c["ra"], c["dec"], dim, deg); k = np.arange(dim) - dim // 2
        e = np.exp(2j * np.pi * (k[:, None] * dy + k[None, :] * dx) / dim)
        r.nontrivial = bool(c["dra"] or c["ddec"])
        r.expect(close(g, e, rtol=1e-7), "phase", lambda: diff(g, e)); r.out = e
        return r
    nf, avg, pol, npol = c["nf"], c["avg"], c["pol"], c["npol"]; dim = 14
    obs, params = fx.obs_params(n_tile=3, n_freq=nf, n_time=2, n_pol=npol, dim=dim, avg=2, res=3e6, spread=(1., .25, 3.)[c["lay"]], min_bl=.05)
    b = obs["baseline_info"]; N = len(b["tile_a"])
    deg = obs["degpix"]; ra1, dec1 = {0: (0., -27.), 1: (0., -27.), 2: (1.3, -27.9)}[c["reph"]]
    astr, _, _ = project_slant_orthographic(dict(phasera=0., phasedec=-27., zenra=0., zendec=-27., obsx=dim // 2, obsy=dim // 2, jd0=2456840.4), dict(dimension=dim, elements=dim, degpix=deg))
    obs.update(astr=astr, orig_phasera=ra1, orig_phasedec=dec1)
    obs["nf_vis"] = np.full(nf, 50)
    psf = make_beam(n_pol=npol, n_fbin=int(b["fbin_i"].max()) + 1, dim=4, res=2, n_bl=obs["n_baselines"])
    F = [k for k in range(nf) if c["ff"] >> k & 1]; b["freq_use"][:] = 0; b["freq_use"][F] = 1
    w = np.ones((npol, nf, N)); fl = c.get("flags", 1)
    if fl:
        w[:, nf - 1] = -1 if fl == 1 else 0; w[0, 0, ::3] = 0; w[-1, :, 1] = 0; w[:, :, 4] = -2
    if fl == 2:
        w[:, :2, :] = 0
    if fl == 3:
        w[-1, :, 10] = 0; w[0, :, 2] = 0; w[:, :, 4] = -1; w[:, 0, 4] = .5; w[:, :, 7] = -1
    v, m = fx.pattern((npol, nf, N), 3), fx.pattern((npol, nf, N), 5)
    bi = {"none": None, "even": np.arange(0, N // 2), "odd": np.arange(N // 2, N), "few": np.array([1, 2, 7, 10])}[c["rows"]]
    rows = [i for i in range(N) if np.maximum(w[:2, :, i].max(0), 0).sum() > 0] if bi is None else list(bi)
    groups = [[k for k in F if k // avg == q] for q in range((nf - 1) // avg + 1)]
    exp = []; counts = np.zeros(nf, int)
    for g in groups:
        e = gref.grid(obs, psf, params, v[pol], w[pol], pol, g, rows, model=m[pol]) if g else dict(n_vis=0)
        exp.append(e)
        for k in g:
            counts[k] = e["nf"][k]
    names = ("image_uv", "weights", "variance", "model_return")
    dx, dy = centre(ra1, dec1, 0., -27., dim, deg) if c["reph"] else (0., 0.); k = np.arange(dim) - dim // 2
    ph = np.exp(2j * np.pi * (k[:, None] * dy + k[None, :] * dx) / dim)
    uv = {n: np.array([(e[n] if e["n_vis"] else np.zeros((dim, dim))) * (ph if n in ("weights", "variance") else 1) * e["n_vis"] for e in exp]) for n in names}
    with Scratch() as d:
        cfg = dict(n_avg=avg, rephase_weights=bool(c["reph"]), output_dir=str(d), obs_id="7", interpolate_kernel=False, mask_mirror_indices=False, grid_spectral=False, grid_uniform=False, grid_weights=True, grid_variance=True, beam_per_baseline=False, image_filter="filter_uv_uniform")
        keep = [x.copy() for x in (v, m, w, params["uu"])]
        s = vis_model_freq_split(obs, psf, params, w, m, v, pol, cfg, log, fft=bool(c["fft"]), save_uvf=bool(c["save"]), uvf_name="even", bi_use=bi); r.steps += 1
        r.expect(all(np.array_equal(x, y) for x, y in zip((v, m, w, params["uu"]), keep)), "inputs altered", "data, model, weights or parameters changed")
        r.nontrivial = len(F) < nf or len(rows) < N
        for n, key in zip(names, ("residual_arr", "weights_arr", "variance_arr", "model_arr")):
            e = uv[n]
            if c["fft"]:
                e = np.array([dft(x).real for x in e]) / math.radians(deg) ** 2
            r.expect(close(s[key], e), key, lambda: diff(s[key], e))
        r.expect(np.array_equal(s["obs"]["nf_vis"], counts), "nf_vis", lambda: f"{s['obs']['nf_vis']}, expected {counts}")
        r.expect(s["obs"]["n_vis"] == sum(e["n_vis"] for e in exp), "n_vis", lambda: f"{s['obs']['n_vis']}")
        fs = sorted(d.rglob("*.h5"))
        if not r.expect(len(fs) == (4 if c["save"] else 0), "files", lambda: str(fs)):
            return r
        for n, tag in zip(names, ("dirty_uv_arr", "weights_uv", "variance_uv_arr", "model_uv_arr")):
            if c["save"]:
                p = d / "healpix" / "uvf_grid" / f"7_even_{obs['pol_names'][pol]}_{tag}_gridded_uvf.h5"
                if not r.expect(p.is_file(), "files", lambda: f"{p.name} missing: {[x.name for x in fs]}"):
                    continue
                q = load(p, logger=log)
                key = tag.removesuffix("_arr")
                r.expect(close(q[key], uv[n]), "file", lambda: f"{key}: {diff(q[key], uv[n])}")
    r.out = [uv["image_uv"], counts]
    return r
