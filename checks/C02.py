"""C02: direction cosines are those of the sky position about the pointing, and nothing is invented for missing positions."""
import itertools, math
import h5py
import numpy as np
from vf import Result, Scratch, close, diff
from PyFHD.pyfhd_tools.pyfhd_utils import l_m_n

ID, LEVEL = "C02", "exploration"
RULE = ("every pair of pointing and position of a grid over the whole sphere, in 1-d and 2-d arrays, every pattern of missing (NaN) coordinates in small arrays, positions and pointing given or taken from the observation and beam (in memory or on disk); "
        "against the dot products with unit vectors east, north and to the pointing; non-trivial: off the pointing")
ASSUMPTIONS = ["none beyond the stated bounds"]


def cases(tier):
    t = tier == "thorough"
    ras = (0., 10., 90., 179., 270., 355.) if not t else tuple(np.arange(0., 360., 20.)) + (359.5,)
    decs = (-90., -60., -26.7, 0., 30., 89.) if not t else tuple(np.arange(-90., 91., 15.))
    for ra0, dec0 in itertools.product(ras, decs):
        for src in ("args", "obs", "file", "mixed"):
            for nd in (1, 2):
                yield dict(part="grid", ra0=ra0, dec0=dec0, src=src, nd=nd)
    n = 6 if not t else 8
    for pat in range(2 ** n):
        for which in ("ra", "dec", "both"):
            yield dict(part="nan", n=n, pat=pat, which=which)


def check(c):
    r = Result()
    if c["part"] == "grid":
        ra, dec = [x.ravel() for x in np.meshgrid(np.arange(-170., 360., 40.) + 3, np.arange(-90., 91., 22.5))]; ra0, dec0 = c["ra0"], c["dec0"]
        if c["nd"] == 2:
            ra, dec = ra.reshape(9, -1), dec.reshape(9, -1)
        bad = np.zeros(ra.shape, bool); src = c["src"]
    else:
        n = c["n"]; ra, dec = 10. + np.arange(n) * 7, -40. + np.arange(n) * 5; ra0, dec0 = 20., -30.; src = "args"
        bad = (c["pat"] >> np.arange(n) & 1).astype(bool)
        if c["which"] != "dec": ra[bad] = np.nan
        if c["which"] != "ra": dec[bad] = np.nan
    wrong = np.full(ra.shape, 77.)
    a, d, a0, d0 = np.radians(np.nan_to_num(ra)), np.radians(np.nan_to_num(dec)), math.radians(ra0), math.radians(dec0)
    v = np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
    F = np.array([[-math.sin(a0), math.cos(a0), 0], [-math.sin(d0) * math.cos(a0), -math.sin(d0) * math.sin(a0), math.cos(d0)], [math.cos(d0) * math.cos(a0), math.cos(d0) * math.sin(a0), math.sin(d0)]])
    e = np.tensordot(F, v, 1); e[2] -= 1; e[:, bad] = 0
    keep = ra.copy(), dec.copy()
    with Scratch() as s:
        obs, psf, kw = dict(obsra=55., obsdec=66.), dict(image_info=dict(ra_arr=wrong, dec_arr=wrong)), {}
        if src in ("args", "mixed"):
            kw.update(right_ascension_arr=ra, declination_arr=dec)
        else:
            psf["image_info"] = dict(ra_arr=ra, dec_arr=dec)
        if src == "args":
            kw.update(obsra=ra0, obsdec=dec0)
        else:
            obs = dict(obsra=ra0, obsdec=dec0)
        f = None
        if src == "file":
            with h5py.File(s / "b.h5", "w") as h:
                h["image_info/ra_arr"] = ra; h["image_info/dec_arr"] = dec
            f = psf = h5py.File(s / "b.h5", "r")
        try:
            g = l_m_n(obs, psf, **kw); r.steps += 1
        finally:
            if f: f.close()
    for q, x, y in zip("lmn", g, e):
        r.expect(close(x, y, atol=1e-12), q, lambda: diff(x, y))
    r.expect(np.array_equal(ra, keep[0], equal_nan=True) and np.array_equal(dec, keep[1], equal_nan=True), "inputs altered", "positions changed")
    r.out = e
    return r
