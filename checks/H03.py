"""H03: the exported HEALPix cubes are exactly the requested ones and hold the images of exactly their times and channels."""
import copy, itertools, math
import healpy as hp
import numpy as np
from astropy import units as u
from astropy.coordinates import AltAz, EarthLocation, SkyCoord
from astropy.time import Time
import fx, gref, mini
from href import frame, project, bilinear, lobes, grow, dft, even_odd, cube
from mini import make_beam
from vf import Result, Scratch, NullLogger, close, diff, tree_diff
from PyFHD.data_setup.obs import project_slant_orthographic
from PyFHD.healpix.export import healpix_snapshot_cube_generate
from PyFHD.io.pyfhd_io import load, save

ID, LEVEL = "H03", "exploration"
RULE = ("every way of giving the size and resolution of the cubes, alone and against the ones it overrides; every combination of even/odd split, times (also unused ones), polarisations, channels per image, residual or dirty, pixel list, flagged tiles and channels, "
        "beam groups; names and contents of all files against visibilities weighted, split, gridded one at a time, Fourier summed and interpolated on the sphere; non-trivial: data are cut")
ASSUMPTIONS = ["even image sizes", "lists of HEALPix pixels clear of the horizon"]
mini.stub_sites()
LOC = EarthLocation.from_geodetic(mini.MWA[0] * u.deg, mini.MWA[1] * u.deg, mini.MWA[2] * u.m)
NO = dict(ps_kbinsize=None, ps_fov=None, ps_kspan=None, ps_dimension=None, ps_degpix=None, ps_nfreq_avg=None)
BASE = dict(split=1, nt=2, npol=2, nf=4, avg=2, resid=0, src="file", tiles=[], ps={}, reph=0, thr=.1, cut=0, model=1, bavg=2)


def cases(tier):
    t = tier == "thorough"
    sizes = [{}, dict(ps_kbinsize=1.25), dict(ps_fov=40.), dict(ps_kspan=12), dict(ps_dimension=12), dict(ps_degpix=4.), dict(ps_nfreq_avg=4), dict(ps_nfreq_avg=1), dict(ps_kbinsize=1.25, ps_fov=30.), dict(ps_fov=40., ps_kspan=20), dict(ps_kbinsize=2., ps_dimension=10),
             dict(ps_kspan=14, ps_dimension=10, ps_degpix=3.), dict(ps_dimension=10, ps_degpix=3.), dict(ps_kbinsize=1.5, ps_degpix=3.), dict(ps_kspan=10, ps_kbinsize=.5), dict(ps_fov=50., ps_dimension=14, ps_nfreq_avg=3)]
    seen = set()

    def case(**k):
        c = dict(BASE); c.update(k); s = repr(sorted(c.items()))
        if s not in seen:
            seen.add(s); return [c]
        return []
    for ps in sizes:
        for src in ("file", "none"):
            for split in (0, 1):
                yield from case(ps=ps, src=src, split=split)
                if t:
                    yield from case(ps=ps, src=src, split=split, avg=1, nf=3, thr=.3)
    for split, nt, npol, (nf, avg) in itertools.product((0, 1), (1, 2, 3, 4), (1, 2, 4), ((4, 2), (3, 1), (5, 2), (4, 4)) if t else ((4, 2), (5, 2))):
        yield from case(split=split, nt=nt, npol=npol, nf=nf, avg=avg)
    for split, tiles, cut, resid, reph in itertools.product((0, 1), ([], ["11"], ["31", "nosuch"], ["21", "41"]), (0, 1, 2, 3), (0, 1), (0, 1)):
        if t or (len(tiles) + cut + resid + reph) % 2 == 0:
            yield from case(split=split, tiles=tiles, cut=cut, resid=resid, reph=reph, nt=4)
    for use in itertools.product((0, 1), repeat=4):
        if any(use):
            for split in (0, 1):
                yield from case(split=split, nt=4, use=list(use))
    for (nf, bavg), src, ps in itertools.product(((7, 3), (5, 2), (7, 2), (6, 4), (5, 1), (7, 5)), ("file", "none"), ({}, dict(ps_nfreq_avg=3))):
        yield from case(nf=nf, bavg=bavg, src=src, ps=ps)
    for thr, src, avg in itertools.product((None, .05, .3, .5), ("file", "none"), (1, 2, 4)):
        yield from case(thr=thr, src=src, avg=avg)


def check(c):
    r = Result(); log = NullLogger(); npol, nf, nt = c["npol"], c["nf"], c["nt"]; dim0 = 16
    obs, params = fx.obs_params(n_tile=4, n_freq=nf, n_time=nt, n_pol=npol, dim=dim0, kpix=1.0, avg=c["bavg"], spread=2.2, min_bl=.05, max_bl=60.)
    b = obs["baseline_info"]; N = len(b["tile_a"]); nbl = obs["n_baselines"]
    lst = Time(2456840.4, format="jd").sidereal_time("mean", longitude=LOC.lon).deg
    jd = 2456840.4 + (((0.0 - lst) / 360 + .5) % 1 - .5) * .99726957
    astr, _, _ = project_slant_orthographic(dict(phasera=0., phasedec=-27., zenra=0., zendec=-27., obsx=dim0 // 2, obsy=dim0 // 2, jd0=jd), dict(dimension=dim0, elements=dim0, degpix=obs["degpix"]))
    pra, pdec = (1.3, -27.9) if c["reph"] else (0., -27.)
    obs.update(astr=astr, orig_phasera=pra, orig_phasedec=pdec, jd0=jd, healpix={}, residual=bool(c["resid"]))
    nb = int(b["fbin_i"].max()) + 1
    psf = make_beam(n_pol=npol, n_fbin=max(nb, nf), dim=4, res=2, n_bl=nbl, gaussian=True); psf["fbin_i"] = b["fbin_i"].copy()
    for p in range(npol):
        for f in range(psf["beam_gaussian_params"].shape[1]):
            psf["beam_gaussian_params"][p, f, :5] = [1 - .02 * p, 41.6 + .4 * f, 14. + f, 41.6 - .5 * p, 12. + p]
    b["time_use"][:] = c.get("use", [1] * nt)
    if c["cut"] & 1:
        b["freq_use"][1] = 0; b["tile_use"][2] = 0
    w = np.ones((npol, nf, N))
    if c["cut"] & 2:
        w[:, 0, ::3] = 0; w[:, 2, 3] = -1; w[0, :, 6] = 0; w[:, :, 1] = .5
    v, m = fx.pattern((npol, nf, N), 3), fx.pattern((npol, nf, N), 5)
    cfg = dict(NO, split_ps_export=bool(c["split"]), n_avg=c["avg"], ps_beam_threshold=c["thr"], ps_tile_flag_list=c["tiles"], restrict_healpix_inds=c["src"] == "file", healpix_inds=None, rephase_weights=bool(c["reph"]), obs_id="9", interpolate_kernel=False,
               mask_mirror_indices=False, grid_spectral=False, grid_uniform=False, grid_weights=True, grid_variance=True, beam_per_baseline=False, image_filter="filter_uv_uniform", **{})
    cfg.update(c["ps"])
    # --- reference: size and resolution
    D = 180 / math.pi; ps = c["ps"]
    kb = ps.get("ps_kbinsize") or (D / ps["ps_fov"] if "ps_fov" in ps else 1.0); fov = D / kb
    dim = ps["ps_kspan"] / kb if "ps_kspan" in ps else ps["ps_dimension"] if "ps_dimension" in ps else fov / ps["ps_degpix"] if "ps_degpix" in ps else fov / obs["degpix"]
    dim = int(dim + 1e-9)
    if dim % 2:
        r.nontrivial = False; r.out = "odd"
        return r
    deg = fov / dim; navg = ps.get("ps_nfreq_avg") or int(np.bincount(b["fbin_i"]).max())
    fb = np.arange(nf) // int(navg)
    # --- reference: weights
    wr = np.maximum(w, 0).copy() if False else w.copy()
    names = list(b["tile_names"]); cutt = {names.index(x) + 1 for x in c["tiles"] if x in names} | {i + 1 for i in range(4) if not b["tile_use"][i]}
    kill = np.isin(b["tile_a"], list(cutt)) | np.isin(b["tile_b"], list(cutt)); wr[:, :, kill] = 0
    wr[:, b["freq_use"] == 0, :] = 0
    tm = np.arange(N) // nbl; wr[:, :, b["time_use"][tm] == 0] = 0
    maxb = min(60., dim * kb / math.sqrt(2)); geo = dict(baseline_info=dict(freq=b["freq"]), kpix=kb, dimension=dim, elements=dim, min_baseline=.05, max_baseline=maxb)
    L = np.hypot(params["uu"], params["vv"])[None, :] * b["freq"][:, None]
    far = (L < .05) | (L > maxb)
    loc = gref.locate(dict(geo, min_baseline=0, max_baseline=1e99), 4, 2, params, np.ones((nf, N)), range(nf), range(N))
    for k in range(nf):
        for i in range(N):
            if far[k, i] or (k, i) not in loc:
                wr[:, k, i] = 0
    wr, parts, pairs = even_odd(wr, b["time_use"], nbl, bool(c["split"]))
    nu = nf // c["avg"]
    with Scratch() as d:
        cfg["output_dir"] = str(d)
        use_ns = 2 ** math.ceil(math.log2(math.sqrt(4 * math.pi * D ** 2 / deg ** 2 / 12)))
        F = frame(0., -27.)
        if c["src"] == "file":
            ip = hp.query_disc(16, F[2], math.radians(25))[::2]; use_ns = 16
            save(d / "inds.h5", dict(hpx_inds=ip, nside=16), "hpx", logger=log); cfg["healpix_inds"] = str(d / "inds.h5")
        else:
            ip = hp.query_disc(use_ns, F[2], math.radians(fov / math.sqrt(2)))
        x, y, n = project(np.array(hp.pix2vec(use_ns, ip)), 0., -27., 0., -27., dim, deg)
        # beams
        beams = np.array([[lobes(psf["beam_gaussian_params"][p, fb[math.floor(j * nf / nu)]], dim, 64.) ** 2 / psf["fnorm"][fb[math.floor(j * nf / nu)]] for j in range(nu)] for p in range(npol)])
        if c["src"] == "none":
            thr = (.05 if c["thr"] is None else c["thr"]) ** 2; mask = np.ones((dim, dim))
            for im in beams.reshape(-1, dim, dim):
                mask *= grow(im, thr, dim // 2, dim // 2)
            alt = SkyCoord(*hp.pix2ang(use_ns, ip, lonlat=True), unit="deg").transform_to(AltAz(location=LOC, obstime=Time(jd, format="jd"))).alt.deg
            ins = (n > 0) & (x > 0) & (x < dim - 1) & (y > 0) & (y < dim - 1) & (alt > 0); xs, ys = np.where(ins, x, 0), np.where(ins, y, 0)
            fl = lambda z: np.floor(z).astype(int); ce = lambda z: np.ceil(z).astype(int)
            ins &= (mask[fl(ys), fl(xs)] * mask[ce(ys), fl(xs)] * mask[fl(ys), ce(xs)] * mask[ce(ys), ce(xs)]) > 0
            ip, x, y, n = ip[ins], x[ins], y[ins], n[ins]
            if not ip.size:
                r.nontrivial = False; r.out = "empty"
                return r
        W = bilinear(x, y, n, dim).reshape(len(ip), -1)
        o0 = copy.deepcopy(obs); keep = [a.copy() for a in (v, m, params["uu"], params["vv"])]
        healpix_snapshot_cube_generate(obs, psf, None, params, v, m, w.copy(), cfg, log); r.steps += 1
        r.expect(tree_diff(obs, o0) is None and all(np.array_equal(p, q) for p, q in zip((v, m, params["uu"], params["vv"]), keep)), "inputs altered", lambda: str(tree_diff(obs, o0)))
        pn = obs["pol_names"][:npol]; H = d / "healpix"
        want = {f"9_{cn}_{p}.h5" for cn, _, _ in parts for p in pn}; got = {p.name for p in H.glob("*.h5")}
        uvw = {f"9_{un}_{p}_{k}_gridded_uvf.h5" for _, un, _ in parts for p in pn for k in ("dirty_uv_arr", "weights_uv", "variance_uv_arr", "model_uv_arr")}; guv = {p.name for p in (H / "uvf_grid").glob("*")}
        r.nontrivial = bool(c["cut"] or c["tiles"] or len(parts) > 1); r.out = [ip]
        if not r.expect(got == want and guv == uvw, "files", lambda: f"{sorted(got)}, expected {sorted(want)}; {sorted(guv ^ uvw)}"):
            return r
        k_ = np.arange(dim) - dim // 2
        px, py, _ = project(np.asarray(frame(pra, pdec)[2])[:, None], 0., -27., 0., -27., dim, deg); dx, dy = (float(px[0]) - dim // 2, float(py[0]) - dim // 2) if c["reph"] else (0., 0.)
        ph = np.exp(2j * np.pi * (k_[:, None] * dy + k_[None, :] * dx) / dim)
        go = dict(geo); go["baseline_info"] = dict(b, fbin_i=fb)
        noise = np.zeros((npol, nf))
        if nt > 1:
            for p in range(npol):
                for k in range(nf):
                    z = []
                    for t1, t2 in pairs:
                        e_, o_ = (t1, t2) if t1 % 2 == 0 else (t2, t1)
                        z += [v[p, k, e_ * nbl + i].imag - v[p, k, o_ * nbl + i].imag for i in range(nbl) if wr[p, k, e_ * nbl + i] > 0 and wr[p, k, o_ * nbl + i] > 0]
                    noise[p, k] = np.std(z) / math.sqrt(2) if z else 0
        for cn, un, rows in parts:
            for p in range(npol):
                h = load(H / f"9_{cn}_{pn[p]}.h5", logger=log)
                key = "res_cube" if c["resid"] else "dirty_cube"
                if not r.expect(set(h) == {"obs", "hpx_inds", "n_avg", "beam_squared_cube", "weights_cube", "variance_cube", "model_cube", key}, "contents", lambda: sorted(h)):
                    continue
                r.expect(np.array_equal(h["hpx_inds"], ip) and int(h["n_avg"]) == c["avg"], "pixels", lambda: f"{h['hpx_inds'][:8]} expected {ip[:8]}")
                e, cnt, tot = cube(go, psf, params, v, m, wr, p, rows, c["avg"], W, beams, ph, deg, key)
                for q2 in e:
                    r.expect(close(h[q2], e[q2], rtol=1e-6), q2, lambda: f"{cn} {pn[p]}: {diff(h[q2], e[q2])}")
                o = h["obs"]
                r.expect(np.array_equal(o["nf_vis"], cnt) and int(o["n_vis"]) == tot, "counts", lambda: f"{cn} {pn[p]} {o['nf_vis']} {o['n_vis']}, expected {cnt} {tot}")
                r.expect(int(o["dimension"]) == dim and int(o["elements"]) == dim and close(o["degpix"], deg) and close(o["kpix"], kb) and close(o["max_baseline"], maxb), "size", lambda: f"{o['dimension']} {o['degpix']} {o['kpix']}, expected {dim} {deg} {kb}")
                r.expect(close(o["vis_noise"], noise), "noise", lambda: diff(o["vis_noise"], noise))
                r.out.append(e[key])
    return r
