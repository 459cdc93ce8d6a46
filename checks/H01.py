"""H01: the HEALPix map is the image interpolated at the directions of exactly the right HEALPix pixels."""
import itertools, logging, math
import h5py
import healpy as hp
import numpy as np
from pathlib import Path
from astropy import units as u
from astropy.coordinates import AltAz, EarthLocation, SkyCoord
from astropy.time import Time
import mini
from href import frame, project, bilinear
from mini import pattern
from vf import Result, Scratch, NullLogger, close, diff
from PyFHD.data_setup.obs import project_slant_orthographic
from PyFHD.healpix.healpix_utils import healpix_cnv_apply, healpix_cnv_generate

ID, LEVEL = "H01", "exploration"
RULE = ("(a) every combination of field centre, slant, image and pixel size, HEALPix resolution (given, from the list file, or derived), pixel list (none, inside, all around the field, shuffled) and mask; pixel set and every entry of the "
        "map for every single-pixel image (so, by linearity, every image) and dense images against bilinear interpolation at directions projected with direction cosines; (b) every small table of contributions; (c) the shipped pixel list "
        "chosen for every field and frequency of a grid; non-trivial: some HEALPix pixel is left out")
ASSUMPTIONS = ["square images", "HEALPix pixels further than rounding from pixel edges, the disc edge and the horizon"]
mini.stub_sites()
LOC = EarthLocation.from_geodetic(mini.MWA[0] * u.deg, mini.MWA[1] * u.deg, mini.MWA[2] * u.m)


def cases(tier):
    t = tier == "thorough"
    for (ra, dec), slant, dim, deg in itertools.product(((0.0, -27.0), (60.0, -30.0), (359.0, 10.0), (200.0, -60.0)) + (((0.0, -27.0), (140.0, -89.0)) if 0 else ()), (0, 1), (6, 10) + ((16,) if t else ()), (1.2, 3.5) + ((6.0,) if t else ())):
        for nside in (None, 16, 32) + ((64, 8) if t else ()):
            for mask in ("ones", "disc", "holes", "edge"):
                for rad in (.6, 1.3):
                    yield dict(part="map", ra=ra, dec=dec, slant=slant, dim=dim, deg=deg, nside=nside, src="none", mask=mask, rad=rad, low=0)
            for src in ("dict", "plain", "shuffled", "nonside"):
                yield dict(part="map", ra=ra, dec=dec, slant=slant, dim=dim, deg=deg, nside=nside, src=src, mask="disc", rad=1.0, low=0)
    for src, deg, dim, hours in itertools.product(("none", "dict", "shuffled"), (3.5, 8.0), (6, 10), (2, 4, 5, 5.5, 5.8, -5.8, -5)):
        yield dict(part="map", ra=0.0, dec=-27.0, slant=0, dim=dim, deg=deg, nside=16, src=src, mask="ones", rad=1.0, low=hours)
    # contribution tables: 3 entries over 2 image pixels and 3 map pixels
    for n0 in range(4):
        for ij in itertools.product(range(3), repeat=3):
            for sw in (0, 1):
                yield dict(part="apply", n0=n0, ij=list(ij), sw=sw)
    for ra, dec, f in itertools.product((0, 5, 355, 29, 31, 60, 62, 90, 180), (-30, -27, 0, -60), (140, 151, 166, 166.2, 166.8, 167, 182, 200)):
        yield dict(part="list", ra=ra, dec=dec, f=f)


def check(c):
    r = Result(); log = NullLogger()
    if c["part"] == "apply":
        k = c["n0"]; v = np.array([.3, 1.1, -.7]); ij = np.array(c["ij"])
        parts = [(ij[:k], v[:k]), (ij[k:], v[k:])]
        cnv = dict(inds=np.arange(3), i_use=np.array([5, 2] if c["sw"] else [0, 3]), ija=np.array([p[0] for p in parts] + [None], dtype=object)[:2], sa=np.array([p[1] for p in parts] + [None], dtype=object)[:2])
        img = np.arange(1.0, 10).reshape(3, 3)
        e = np.zeros(3)
        for q, (ii, ss) in enumerate(parts):
            for a, b in zip(ii, ss):
                e[a] += b * (cnv["i_use"][q] + 1)
        g = healpix_cnv_apply(img, cnv); r.steps += 1
        r.nontrivial = len(set(c["ij"])) < 3
        r.expect(close(g, e), "apply", lambda: diff(g, e)); r.out = e
        return r
    if c["part"] == "list":
        fields = [("EoR0", 0, "high", 182), ("EoR0", 0, "low", 151), ("EoR1", 60, "high", 182), ("EoR1", 60, "low", 151)]
        sep = [math.degrees(math.acos(min(1.0, float(frame(c["ra"], c["dec"])[2] @ frame(q[1], -30)[2])))) for q in fields]
        near = [i for i in range(4) if sep[i] <= min(sep) + 1e-6]; want = min(near, key=lambda i: (abs(fields[i][3] - c["f"]), i))
        name = f"{fields[want][0]}_{fields[want][2]}_healpix_inds.h5"
        seen = []
        import h5py
        old = h5py.File

        class Seen(BaseException):
            pass

        class Open(old):
            def __init__(self, name, *a, **k):
                seen.append(Path(str(name))); raise Seen
        try:
            h5py.File = Open
            try:
                healpix_cnv_generate(dict(obsra=float(c["ra"]), obsdec=float(c["dec"]), freq_center=c["f"] * 1e6), np.ones((4, 4)), 1.0, dict(restrict_healpix_inds=True, healpix_inds=None), log)
            except Seen:
                pass
        finally:
            h5py.File = old
        r.steps += 1
        amb = abs(sorted(sep)[0] - sorted(sep)[2]) < 2.1  # between the fields: either is as near
        r.out = name; r.nontrivial = not amb
        r.expect(len(seen) == 1, "list", "the shipped list was not read")
        got = str(seen[0]).rsplit("/", 1)[-1]
        r.expect(got == name or (amb and got.split("_", 1)[1] == name.split("_", 1)[1]), "list", lambda: f"{got}, expected {name}")
        r.expect(seen[0].is_file(), "list", "the chosen list does not exist")
        return r
    ra, dec, dim, deg = c["ra"], c["dec"], c["dim"], c["deg"]
    # put the field near the meridian (or `low` hours from it) of the site
    lst = Time(2456840.4, format="jd").sidereal_time("mean", longitude=LOC.lon).deg
    jd = 2456840.4 + (((ra + c["low"] * 15 - lst) / 360 + .5) % 1 - .5) * .99726957
    zra, zdec = (ra + 4.0, dec + 3.0) if c["slant"] else (ra, dec)
    o2 = dim // 2
    astr, _, _ = project_slant_orthographic(dict(phasera=ra, phasedec=dec, zenra=zra, zendec=zdec, obsx=o2, obsy=o2, jd0=jd), dict(dimension=dim, elements=dim, degpix=deg))
    obs = dict(astr=astr, obsra=ra, obsdec=dec, dimension=dim, elements=dim, instrument="mwa", jd0=jd, healpix={}, degpix=deg)
    ns = c["nside"]
    auto = 2 ** math.ceil(math.log2(math.sqrt(4 * math.pi * (180 / math.pi) ** 2 / deg ** 2 / 12)))
    F = frame(ra, dec)

    yy, xx = np.mgrid[:dim, :dim]
    mask = {"ones": np.ones((dim, dim)), "disc": ((xx - o2) ** 2 + (yy - o2 + 1) ** 2 < (dim / 2.6) ** 2) * 1.0, "holes": ((xx + 2 * yy) % 7 > 0) * 1.0, "edge": (xx < o2) * 1.0}[c["mask"]]
    cfg = dict(restrict_healpix_inds=c["src"] != "none", healpix_inds=None)
    rad = c["rad"] * dim * deg / 2
    with Scratch() as d:
        file_ns = None
        if c["src"] != "none":
            file_ns = (ns or auto) * (2 if c["src"] == "dict" and (ns or auto) < 64 else 1)
            ip = hp.query_disc(file_ns, F[2], math.radians(min(rad * 1.9, 85)))
            if c["src"] in ("shuffled", "nonside"):
                ip = ip[np.argsort((ip * 7919) % 10007, kind="stable")][: 1 + ip.size // 2]
            f = d / "inds.h5"
            from PyFHD.io.pyfhd_io import save
            if c["src"] in ("dict", "shuffled"):
                save(f, dict(hpx_inds=ip, nside=file_ns), "hpx", logger=log)
            elif c["src"] == "nonside":
                file_ns = None; save(f, dict(hpx_inds=ip), "hpx", logger=log)
            else:
                file_ns = None; save(f, ip, "hpx_inds", logger=log)
            cfg["healpix_inds"] = f
        use_ns = file_ns or ns or auto
        if c["src"] == "none":
            ip = hp.query_disc(use_ns, F[2], math.radians(rad))
        x, y, n = project(np.array(hp.pix2vec(use_ns, ip)), ra, dec, zra, zdec, dim, deg)
        alt = SkyCoord(*hp.pix2ang(use_ns, ip, lonlat=True), unit="deg").transform_to(AltAz(location=LOC, obstime=Time(jd, format="jd"))).alt.deg
        keep = alt > 0
        unsure = (np.abs(alt) < .02)
        if c["src"] == "none":
            ins = (n > 0) & (x > 0) & (x < dim - 1) & (y > 0) & (y < dim - 1)
            xs, ys = np.where(ins, x, 0), np.where(ins, y, 0)
            a, b, p, q = np.floor(xs).astype(int), np.floor(ys).astype(int), np.ceil(xs).astype(int), np.ceil(ys).astype(int)
            keep &= ins & (mask[b, a] * mask[q, a] * mask[b, p] * mask[q, p] > 0)
            s = np.degrees(np.arccos(np.clip(n, -1, 1)))
            unsure |= np.abs(s - rad) < 1e-6
        if (unsure & keep).any() or not keep.any() or (use_ns > 256):
            r.nontrivial = False; r.out = "excluded"
            return r
        ip_e, x, y, n = ip[keep], x[keep], y[keep], n[keep]
        m0 = mask.copy()
        cnv, o = healpix_cnv_generate(obs, mask, rad, cfg, log, **({} if ns is None else dict(nside=float(ns)))); r.steps += 1
    r.expect(int(cnv["nside"]) == use_ns and int(o["healpix"]["nside"]) == use_ns, "nside", lambda: f"{cnv['nside']}, expected {use_ns}")
    if file_ns is None and ns is None:
        area = hp.nside2pixarea(use_ns, degrees=True)
        r.expect(area <= deg ** 2 * (1 + 1e-9) < 4 * area * (1 + 1e-6), "nside", "HEALPix pixels not the largest that are no larger than the image's")
    if not r.expect(np.array_equal(cnv["inds"], ip_e), "pixels", lambda: f"{np.size(cnv['inds'])} pixels {cnv['inds'][:8]}, expected {ip_e.size} {ip_e[:8]}"):
        return r
    r.nontrivial = not keep.all()
    W = bilinear(x, y, n, dim)
    G = np.zeros_like(W)
    for j in range(dim * dim):
        one = np.zeros((dim, dim)); one.flat[j] = 1
        G.reshape(len(G), -1)[:, j] = healpix_cnv_apply(one, cnv); r.steps += 1
    r.expect(close(G, W, rtol=1e-6), "interpolation", lambda: diff(G, W))
    for img in (np.ones((dim, dim)), pattern((dim, dim), 3).real):
        e = np.tensordot(W, img, 2); g = healpix_cnv_apply(img, cnv); r.steps += 1
        r.expect(close(g, e, rtol=1e-6), "map", lambda: diff(g, e))
    e0 = int((np.tensordot(W, m0, 2) == 0).sum())
    r.expect(o["healpix"]["n_pix"] == ip_e.size and o["healpix"]["n_zero"] == e0, "counts", lambda: f"{o['healpix']['n_pix']}, {o['healpix']['n_zero']}, expected {ip_e.size}, {e0}")
    il = o["healpix"]["ind_list"]
    r.expect(il is None if c["src"] != "none" else np.array_equal(il, ip_e), "ind_list", "recorded pixel list differs")
    r.expect(np.array_equal(mask, m0), "inputs altered", "mask changed")
    r.out = [ip_e, e]
    return r
