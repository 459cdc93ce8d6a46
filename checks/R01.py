"""R01: gridding adds every visibility with its own kernel at its own place, and nothing else."""
import copy, itertools
import h5py
import numpy as np
import fx, gref
from mini import make_beam
from vf import Result, NullLogger, Scratch, close, diff
from PyFHD.gridding.visibility_grid import visibility_grid

ID, LEVEL = "R01", "exploration"
RULE = ("(a) a visibility at every third-of-pixel position of square and rectangular planes, for each kernel size and resolution, nearest or interpolated kernel; (b) every subset of used rows and channels given or found from "
        "the weights; (c) every combination of kernel interpolation, mirror, conjugate, weights, variance, uniform, spectral, model and stored-beam options on crowded and sparse layouts, beams differing per frequency group and polarisation; all planes "
        "compared with visibilities added one at a time; non-trivial: a visibility is left out or conjugated")
ASSUMPTIONS = ["positions further than rounding from pixel and kernel-step edges"]


def cases(tier):
    t = tier == "thorough"
    for (el, di), pd, res, interp in itertools.product(((12, 12), (12, 16), (16, 10)), (2, 4) + ((6,) if t else ()), (1, 2, 4) + ((8,) if t else ()), (0, 1)):
        for row in range(3 * (el + 4)):
            yield dict(part="pos", el=el, di=di, pd=pd, res=res, interp=interp, row=row)
    for n, nf, nt in ((3, 3, 1), (2, 4, 2)) + (((3, 2, 2), (2, 3, 3)) if t else ()):
        nb = n * (n + 1) // 2 * nt
        for ff in range(1, 2 ** nf):
            for bb in range(1, 2 ** nb, 1 if t else 3):
                for how in ("given", "weights"):
                    yield dict(part="sub", n=n, nf=nf, nt=nt, ff=ff, bb=bb, how=how)
    opts = list(itertools.product((0, 1), repeat=7))
    for lay in ("sparse", "crowd", "same"):
        for avg in (1, 2, 8):
            for pol in (0, 1):
                for interp, nomir, noconj, spec, model, file, uni in opts:
                    for wv in ((0, 1, 2, 3) if t else (3, 0) if not spec else (3,)):
                        yield dict(part="opt", lay=lay, avg=avg, pol=pol, interp=interp, nomir=nomir, noconj=noconj, spec=spec, model=model, file=file, uni=uni, wv=wv)


def check(c):
    r = Result(); pol, kw, fi, bi = 0, dict(interp=0, nomir=0, noconj=0, spec=0, model=0, file=0, uni=0, wv=3), None, None
    if c["part"] == "pos":
        kw["interp"] = c["interp"]
        obs, params = fx.obs_params(n_tile=2, n_freq=1, n_time=1, dim=c["di"], elements=c["el"], kpix=0.5)
        y = (c["row"] - 1.5 * (c["el"] + 4)) / 3 + .04
        g = np.arange(-(c["di"] // 2 + 2) * 3, (c["di"] // 2 + 2) * 3 + 1) / 3 + .07
        f0 = obs["baseline_info"]["freq"][0]; N = g.size
        params["uu"], params["vv"] = g * .5 / f0, np.full(N, y) * .5 / f0
        psf = make_beam(n_pol=1, n_fbin=1, dim=c["pd"], res=c["res"])
        w = np.ones((1, N))
        obs["n_baselines"] = N; psf["id"] = np.zeros((1, 1, N), int)
    else:
        if c["part"] == "sub":
            n, nf, nt, avg, spread, dim, el = c["n"], c["nf"], c["nt"], 2, 1.0, 14, 12
        else:
            kw = {k: c[k] for k in kw}; pol = c["pol"]
            n, nf, nt, avg = 4, 4, 2, c["avg"]; spread = {"sparse": 1.5, "crowd": .12, "same": .8}[c["lay"]]; dim, el = 16, 14
        obs, params = fx.obs_params(n_tile=n, n_freq=nf, n_time=nt, dim=dim, elements=el, avg=avg, spread=spread, res=3e6, max_bl=1e9 if c["part"] == "sub" or c["lay"] != "sparse" else 3.6, min_bl=0.0 if c["part"] == "sub" else .05)
        b = obs["baseline_info"]; N = len(b["tile_a"])
        if c["part"] == "opt" and c["lay"] == "same":  # many rows at the very same place
            j = (np.arange(N) % 3) + 1
            params["uu"], params["vv"] = j * .9 / 180e6 * np.where(np.arange(N) % 2, -1, 1), (j - 2.2) / 180e6 * np.where(np.arange(N) % 2, -1, 1)
        psf = make_beam(n_pol=2, n_fbin=int(b["fbin_i"].max()) + 1, dim=4 if c["part"] == "opt" else 2, res=2, n_bl=obs["n_baselines"])
        psf["id"][...] = np.arange(psf["id"].size).reshape(psf["id"].shape) % 2
        w = np.ones((nf, N))
        if c["part"] == "sub":
            F = [k for k in range(nf) if c["ff"] >> k & 1]; R = [k for k in range(N) if c["bb"] >> k & 1]
            if c["how"] == "given":
                fi, bi = np.array(F), np.array(R)
            else:
                b["freq_use"][:] = 0; b["freq_use"][F] = 1
                w[:] = np.where(np.isin(np.arange(N), R), 1.0, np.where(np.arange(N) % 2, -1, 0))
        else:
            w[1, ::3] = 0; w[2, 1::4] = -2; w[:, 5] = 0; w[0] *= .5
            b["freq_use"][0] = 0 if c["nomir"] else 1
    nf = w.shape[0]
    vis = fx.pattern((nf, w.shape[1]), 3); model = fx.pattern((nf, w.shape[1]), 8) if kw["model"] else None
    obs["nf_vis"] = np.full(nf, 77)
    cfg = dict(interpolate_kernel=bool(kw["interp"]), mask_mirror_indices=bool(kw["nomir"]), grid_spectral=bool(kw["spec"]), grid_uniform=False, grid_weights=bool(kw["wv"] & 1), grid_variance=bool(kw["wv"] & 2),
               beam_per_baseline=False)
    exp = gref.grid(obs, psf, params, vis, w, pol, fi, bi, kw["interp"], kw["nomir"], model, kw["noconj"])
    keep = [x.copy() for x in (vis, w, params["uu"], params["vv"])] + ([model.copy()] if model is not None else [])
    with Scratch() as d:
        use = psf
        if kw["file"]:
            with h5py.File(d / "b.h5", "w") as h:
                for k in ("beam_ptr", "id"):
                    h[k] = psf[k]
                for k in ("dim", "resolution"):
                    h[k] = np.array([psf[k]])
            use = h5py.File(d / "b.h5", "r")
        got = visibility_grid(vis, w, obs, use, params, pol, cfg, NullLogger(), uniform_flag=bool(kw["uni"]), no_conjugate=bool(kw["noconj"]), model=model, fi_use=fi, bi_use=bi)
        r.steps += 1
        if kw["file"]:
            use.close()
    now = [vis, w, params["uu"], params["vv"]] + ([model] if model is not None else [])
    r.expect(all(np.array_equal(a, b2) for a, b2 in zip(now, keep)), "inputs altered", "data, weights, model or parameters changed")
    r.nontrivial = exp["n_vis"] < w.size
    r.out = [exp["image_uv"], exp["n_vis"]]
    if exp["n_vis"] == 0:
        r.expect(got == {}, "empty", "planes returned although nothing can be gridded")
        return r
    names = ["image_uv"] + ["weights"] * (kw["wv"] & 1) + ["variance"] * (kw["wv"] >> 1) + ["uniform_filter"] * kw["uni"] + ["model_return"] * kw["model"] + ["spectral_uv"] * kw["spec"] + ["spectral_model_uv"] * (kw["spec"] & kw["model"])
    for k in names:
        r.expect(close(got[k], exp[k], rtol=1e-6 if "spec" in k else 1e-10), k, lambda: diff(got[k], exp[k]))
    r.expect(got["n_vis"] == exp["n_vis"], "n_vis", lambda: f"{got['n_vis']}, expected {exp['n_vis']}")
    r.expect(all(got["obs"]["nf_vis"][k] == v for k, v in exp["nf"].items()), "nf_vis", lambda: f"{got['obs']['nf_vis']}, expected {exp['nf']}")
    return r
