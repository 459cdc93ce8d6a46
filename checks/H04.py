"""H04: the beam image is the (squared) beam of exactly the requested polarisation and channels, averaged; the mask is where every beam is above threshold."""
import itertools, math
import h5py
import numpy as np
import fx
from href import lobes, fourier, grow
from mini import make_beam
from vf import Result, Scratch, NullLogger, close, diff
from PyFHD.beam_setup.beam_utils import beam_image, gaussian_decomp
from PyFHD.healpix.healpix_utils import beam_image_cube

ID, LEVEL = "H04", "exploration"
RULE = ("every subset of used channels and every single channel x grouping of channels x polarisation x beam stored as lobes or uv kernel x squared or not x image and horizon size x beam in memory or on disk; sums of lobes moved between every two grids and resolutions; every number of frequency bins, every increasing list of "
        "channels or frequencies and several thresholds for the cube; against the lobes, or the Fourier sum of the kernel, written out, and a flood fill; non-trivial: more than one frequency group is involved")
ASSUMPTIONS = ["square images, one beam for all tiles, even kernel sizes", "no pixel within rounding of the threshold"]


def cases(tier):
    t = tier == "thorough"
    geo = ((12, 64.0), (16, 8.0)) + (((20, 15.4), (8, 6.0)) if t else ())
    for (dim, hor), avg, pol, gs, sq, h5 in itertools.product(geo, (1, 2, 3, 4), (0, 1), (0, 1), (0, 1), (0, 1)):
        for ff in range(1, 16):
            yield dict(part="img", dim=dim, hor=hor, avg=avg, pol=pol, gs=gs, sq=sq, h5=h5, ff=ff, fi=None, ab=0, pd=4)
        for fi in range(4):
            for ab in (0, 1) if sq and not gs else (0,):
                for pd in (2, 6):
                    yield dict(part="img", dim=dim, hor=hor, avg=avg, pol=pol, gs=gs, sq=sq, h5=h5, ff=11, fi=fi, ab=ab, pd=pd)
    for (dim, hor), avg, gs, sq, thr in itertools.product(geo[:1] + geo[1:2], (1, 2, 4), (0, 1), (0, 1), (None, .2, .5) if not t else (None, .01, .1, .2, .35, .5, .7)):
        for nb in range(1, 7):
            yield dict(part="cube", dim=dim, hor=hor, avg=avg, gs=gs, sq=sq, thr=thr, how="n", arg=nb)
        for s in range(1, 64):
            for how in ("i", "hz"):
                yield dict(part="cube", dim=dim, hor=hor, avg=avg, gs=gs, sq=sq, thr=thr, how=how, arg=s)


    for n, npix, mr, k in itertools.product((5, 6, 8, 12), (None, 3, 5, 6, 8, 10.4, 20.8), (None, .5, 1, 1.7), (1, 2, 3)):
        yield dict(part="lobes", n=n, npix=npix, mr=mr, k=k)


def check(c):
    if c["part"] == "lobes":
        r = Result(); n = c["n"]; p = np.array([[1, 2.2, 1.5, 3.1, .8], [-.4, 4.5, .7, 1.2, 2.1], [.3, 0, 3., 5.5, 1.1]])[:c["k"]].ravel(); keep = p.copy()
        y, x = np.mgrid[:n, :n]; e = 0; s = c["mr"] or 1
        for a, ox, sx, oy, sy in p.reshape(-1, 5):
            if c["npix"] is not None: ox, oy = ox + (n - c["npix"]) / 2, oy + (n - c["npix"]) / 2       # same distance from the centre
            ox, oy = (ox - n / 2) * s + n / 2, (oy - n / 2) * s + n / 2
            e = e + a * np.exp(-((x - ox) / (sx * s)) ** 2 / 2 - ((y - oy) / (sy * s)) ** 2 / 2)
        for _ in range(2):
            g = gaussian_decomp(np.arange(n), np.arange(n), p, model_npix=c["npix"], model_res=c["mr"])[0]; r.steps += 1
            r.expect(close(g, e), "lobes", lambda: diff(g, e))
        r.expect(np.array_equal(p, keep), "inputs altered", "the lobes changed"); r.out = e; r.nontrivial = c["npix"] is not None
        return r
    r = Result(); dim, hor = c["dim"], c["hor"]; nf = 4 if c["part"] == "img" else 6
    obs, _ = fx.obs_params(n_tile=3, n_freq=nf, n_time=1, dim=dim, avg=c["avg"])
    fb = obs["baseline_info"]["fbin_i"]; nb = int(fb.max()) + 1
    psf = make_beam(n_pol=2, n_fbin=nb, dim=c.get("pd", 4), res=2, n_bl=6, gaussian=False)
    psf["pix_horizon"] = hor; psf["fnorm"] = 1 + .13 * np.arange(nb)
    if c["gs"]:
        h = hor * 1.3 / 2; u = hor / 12
        psf["beam_gaussian_params"] = np.array([[[1 - .1 * p, h + .2 * u * f, (2.4 + .3 * f) * u, h - .3 * u * p, (1.9 + .4 * p) * u, .3 + .1 * f, h + 4 * u, .9 * u, h - 2 * u, (.7 + .1 * f) * u] for f in range(nb)] for p in range(2)])
    keep = {k: np.array(v, copy=True) for k, v in psf.items() if isinstance(v, np.ndarray)}

    def one(pol, bins, square, ab=0):
        """Average over a list of frequency groups, one per channel."""
        tot = 0
        for b in bins:
            if c["gs"]:
                g = lobes(keep["beam_gaussian_params"][pol, b], dim, hor); tot = tot + (g * g if square else g)
            else:
                K = keep["beam_ptr"][pol, b, 0, 0].reshape(psf["dim"], psf["dim"]); g = fourier(np.abs(K) if ab else K, dim)
                tot = tot + (np.abs(g) ** 2 if square else g.real)
        return tot / sum(keep["fnorm"][b] for b in bins)

    with Scratch() as d:
        use = psf
        if c.get("h5"):
            with h5py.File(d / "b.h5", "w") as f:
                for k, v in keep.items():
                    f[k] = v
                f["dim"] = np.array([psf["dim"]]); f["pix_horizon"] = np.array([hor])
            use = h5py.File(d / "b.h5", "r")
        try:
            if c["part"] == "img":
                F = [k for k in range(nf) if c["ff"] >> k & 1]
                obs["baseline_info"]["freq_use"] = np.isin(np.arange(nf), F).astype(int)
                bins = [fb[c["fi"]]] if c["fi"] is not None else [fb[k] for k in F]
                e = one(c["pol"], bins, c["sq"], c["ab"]); r.nontrivial = len(set(bins)) > 1
                g = beam_image(use, obs, c["pol"], freq_i=c["fi"], square=bool(c["sq"]), **(dict(abs=True) if c["ab"] else {})); r.steps += 1
                r.expect(np.isrealobj(g) and close(g, e), "beam", lambda: diff(g, e)); r.out = e
            else:
                if c["how"] == "n":
                    idx = [math.floor(j * nf / c["arg"]) for j in range(c["arg"])]; kw = dict(n_freq_bin=c["arg"])
                else:
                    idx = [k for k in range(nf) if c["arg"] >> k & 1]; kw = dict(freq_i_arr=np.array(idx) if c["how"] == "i" else obs["baseline_info"]["freq"][idx].copy())
                e = np.array([[one(p, [fb[k]], c["sq"]) for k in idx] for p in range(2)])
                low = (.05 if c["thr"] is None else c["thr"]) ** (2 if c["sq"] else 1)
                m = np.ones((dim, dim))
                if np.abs(e / low - 1).min() < 1e-7 or (e[:, :, dim // 2, dim // 2] < low).any():
                    r.nontrivial = False; r.out = "excluded"
                    return r
                for im in e.reshape(-1, dim, dim):
                    m *= grow(im, low, dim // 2, dim // 2)
                g, gm = beam_image_cube(obs, use, NullLogger(), square=bool(c["sq"]), **kw, **({} if c["thr"] is None else dict(beam_threshold=c["thr"]))); r.steps += 1
                r.nontrivial = len(set(fb[k] for k in idx)) > 1
                r.expect(close(g, e), "cube", lambda: diff(g, e)); r.expect(np.array_equal(gm, m), "mask", lambda: diff(gm, m)); r.out = [e, m]
        finally:
            if use is not psf:
                use.close()
    r.expect(all(np.array_equal(psf[k], v) for k, v in keep.items()), "inputs altered", "the beam changed")
    return r
