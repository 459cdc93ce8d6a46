"""Synthetic miniature observations for PyFHD: uvfits + metafits + beam + model, on disk.

Everything is deterministic; nothing here imports PyFHD except `run_main`.
"""
import os, sys
from pathlib import Path
import numpy as np
import h5py
from astropy.io import fits

N_TILE = 128  # hard wired in PyFHD's header reader (MWA phase I)
JD0 = 2456840.4  # local sidereal time ~ 0h at the MWA
MWA = (116.67081524, -26.70331941, 377.827)


def pattern(shape, salt=1):
    """Deterministic, generic complex numbers (no two alike), magnitude ~1."""
    n = int(np.prod(shape))
    k = np.arange(1, n + 1, dtype=float) * 0.6180339887498949 + salt * 0.318309886
    ph = 2 * np.pi * (k % 1.0)
    am = 1.0 + 0.35 * np.sin(1.7 * np.arange(n) + salt)
    return (am * np.exp(1j * ph)).reshape(shape)


class Obs:
    """Parameters + arrays of one synthetic observation."""

    def __init__(self, tiles=(1, 2, 3, 5), n_time=2, n_freq=4, n_pol=2, autos=True,
                 freq0=180e6, freq_res=0.5e6, time_res=2.0, obs_id="1000000000",
                 flagged_meta=None, salt=1, missing_pairs=(), model_autos=None,
                 ant_numbers=None, encode=256):
        self.tiles = list(tiles); self.n_time = n_time; self.n_freq = n_freq
        self.n_pol = n_pol; self.autos = autos; self.freq0 = freq0
        self.freq_res = freq_res; self.time_res = time_res; self.obs_id = obs_id
        self.encode = encode
        self.ant_numbers = np.arange(1, N_TILE + 1) if ant_numbers is None else np.asarray(ant_numbers)
        # antenna positions (m): generic 2D layout
        idx = np.arange(1, N_TILE + 1)
        self.east = 4.0 * np.cos(idx * 2.399963) * np.sqrt(idx % 17 + 1)
        self.north = 4.0 * np.sin(idx * 2.399963) * np.sqrt(idx % 17 + 1)
        pairs = []
        for i, a in enumerate(self.tiles):
            for b in self.tiles[i:]:
                if a == b and not autos:
                    continue
                if (a, b) in missing_pairs:
                    continue
                pairs.append((a, b))
        self.pairs = pairs
        self.n_bl = len(pairs)
        self.freq = freq0 + freq_res * np.arange(n_freq)
        c = 299792458.0
        a = np.array([p[0] for p in pairs]); b = np.array([p[1] for p in pairs])
        uu = (self.east[a - 1] - self.east[b - 1]) / c
        vv = (self.north[a - 1] - self.north[b - 1]) / c
        ww = 0.01 * (uu + vv)
        # slow rotation with time so that times differ
        us, vs, ws, ts = [], [], [], []
        for t in range(n_time):
            r = 2e-3 * t
            us.append(uu * np.cos(r) - vv * np.sin(r)); vs.append(uu * np.sin(r) + vv * np.cos(r)); ws.append(ww)
            ts.append(np.full(self.n_bl, JD0 + (t + 0.5) * time_res / 86400.0))
        self.uu = np.concatenate(us); self.vv = np.concatenate(vs); self.ww = np.concatenate(ws)
        self.time = np.concatenate(ts)
        self.ant1 = np.tile(a, n_time); self.ant2 = np.tile(b, n_time)
        self.n_blt = self.n_bl * n_time
        self.flagged_meta = [t for t in range(1, N_TILE + 1) if t not in self.tiles] if flagged_meta is None else list(flagged_meta)
        # sky model visibilities: independent generic numbers, autos real positive
        self.model = pattern((n_pol, n_freq, self.n_blt), salt)
        au = self.ant1 == self.ant2
        self.model[:, :, au] = np.abs(self.model[:, :, au])
        self.vis = self.model.copy()
        self.wts = np.ones((n_pol, n_freq, self.n_blt))

    def apply_gains(self, gains):
        """gains [n_pol(<=2), n_freq, N_TILE] complex: vis = g_a conj(g_b) model"""
        for p in range(self.n_pol):
            pa, pb = [(0, 0), (1, 1), (0, 1), (1, 0)][p]
            self.vis[p] = self.model[p] * gains[pa][:, self.ant1 - 1] * np.conj(gains[pb][:, self.ant2 - 1])

    # ------------------------------------------------------------------ writers
    def write_uvfits(self, path, vis=None):
        vis = self.vis if vis is None else vis
        data = np.zeros((self.n_blt, 1, 1, 1, self.n_freq, self.n_pol, 3), dtype=np.float32 if False else np.float64)
        data[:, 0, 0, 0, :, :, 0] = vis.real.transpose(2, 1, 0)
        data[:, 0, 0, 0, :, :, 1] = vis.imag.transpose(2, 1, 0)
        data[:, 0, 0, 0, :, :, 2] = self.wts.transpose(2, 1, 0)
        num = self.ant_numbers
        base = num[self.ant1 - 1] * self.encode + num[self.ant2 - 1]
        jd_zero = float(JD0)
        # random groups written by hand (astropy's GroupData constructor mis-scales parameters)
        raw = np.concatenate([np.stack([self.uu, self.vv, self.ww, base.astype(float), self.time - jd_zero], 1),
                              data.reshape(self.n_blt, -1)], axis=1).astype(">f8")
        h = fits.Header()
        h["SIMPLE"] = True; h["BITPIX"] = -64; h["NAXIS"] = 7; h["NAXIS1"] = 0
        for i, v in enumerate([3, self.n_pol, self.n_freq, 1, 1, 1]):
            h[f"NAXIS{i + 2}"] = v
        h["EXTEND"] = True; h["GROUPS"] = True; h["PCOUNT"] = 5; h["GCOUNT"] = self.n_blt
        for i, (nm, z) in enumerate(zip(["UU", "VV", "WW", "BASELINE", "DATE"], [0.0, 0.0, 0.0, 0.0, jd_zero])):
            h[f"PTYPE{i + 1}"] = nm; h[f"PSCAL{i + 1}"] = 1.0; h[f"PZERO{i + 1}"] = z
        for i, (ty, val, delt, pix) in enumerate([
                ("COMPLEX", 1, 1, 1), ("STOKES", -5, -1, 1), ("FREQ", self.freq0, self.freq_res, 1),
                ("IF", 1, 1, 1), ("RA", 0.0, 1, 1), ("DEC", -27.0, 1, 1)]):
            n = i + 2
            h[f"CTYPE{n}"] = ty; h[f"CRVAL{n}"] = val; h[f"CDELT{n}"] = delt; h[f"CRPIX{n}"] = pix
        h["OBSRA"] = 0.0; h["OBSDEC"] = -27.0; h["DATE-OBS"] = "2014-07-01T12:00:00"
        cols = [fits.Column("ANNAME", "8A", array=np.array([f"Tile{i:03d}" for i in range(1, N_TILE + 1)])),
                fits.Column("STABXYZ", "3D", array=np.stack([self.north, self.east, 0 * self.east], 1)),
                fits.Column("NOSTA", "1J", array=num.astype(np.int32)),
                fits.Column("MNTSTA", "1J", array=np.zeros(N_TILE, np.int32)),
                fits.Column("STAXOF", "1E", array=np.zeros(N_TILE, np.float32)),
                fits.Column("POLTYA", "1A", array=np.array(["X"] * N_TILE)),
                fits.Column("POLAA", "1E", array=np.zeros(N_TILE, np.float32)),
                fits.Column("POLCALA", "1E", array=np.zeros(N_TILE, np.float32)),
                fits.Column("POLTYB", "1A", array=np.array(["Y"] * N_TILE)),
                fits.Column("POLAB", "1E", array=np.full(N_TILE, 90, np.float32)),
                fits.Column("POLCALB", "1E", array=np.zeros(N_TILE, np.float32))]
        an = fits.BinTableHDU.from_columns(cols)
        an.header["EXTNAME"] = "AIPS AN"
        an.header["ARRAYX"] = -2559454.08; an.header["ARRAYY"] = 5095372.14; an.header["ARRAYZ"] = -2849057.18
        an.header["FRAME"] = "ITRF"; an.header["GSTIA0"] = 278.0; an.header["DEGPDY"] = 360.985
        an.header["RDATE"] = "2014-07-01"; an.header["TIMSYS"] = "UTC"; an.header["UT1UTC"] = 0.0
        an.header["DATUTC"] = 0.0; an.header["IATUTC"] = 35.0; an.header["IAUTC"] = 35.0
        an.header["POLTYPE"] = "X-Y LIN"; an.header["NOPCAL"] = 0
        blob = h.tostring().encode("ascii") + raw.tobytes()
        blob += b"\0" * (-len(blob) % 2880)
        import io
        buf = io.BytesIO()
        fits.HDUList([fits.PrimaryHDU(), an]).writeto(buf)
        full = buf.getvalue()
        Path(path).write_bytes(blob + full[2880:])

    def write_metafits(self, path):
        ant = np.repeat(np.arange(N_TILE), 2)
        pol = np.tile(np.array(["Y", "X"]), N_TILE)
        tile = np.repeat(self.ant_numbers, 2)
        flag = np.array([1 if (a + 1) in self.flagged_meta else 0 for a in ant])
        # stored order is deliberately scrambled (readers must sort by antenna)
        order = np.argsort((ant * 37 + 11) % (2 * N_TILE + 1), kind="stable")
        cols = [fits.Column("Input", "I", array=np.arange(2 * N_TILE)),
                fits.Column("Antenna", "I", array=ant[order]),
                fits.Column("Tile", "I", array=tile[order]),
                fits.Column("TileName", "8A", array=np.array([f"Tile{t:03d}" for t in tile])[order]),
                fits.Column("Pol", "A", array=pol[order]),
                fits.Column("Flag", "I", array=flag[order]),
                fits.Column("Height", "E", array=(MWA[2] + 0.01 * ant)[order])]
        p = fits.PrimaryHDU()
        for k, v in dict(RA=0.0, DEC=-26.78, RAPHASE=0.0, DECPHASE=-27.0, INTTIME=self.time_res,
                         DELAYS=",".join(["0"] * 16)).items():
            p.header[k] = v
        fits.HDUList([p, fits.BinTableHDU.from_columns(cols)]).writeto(path, overwrite=True)


def make_beam(n_pol=2, n_fbin=2, dim=3, res=4, n_bl=1, gaussian=True, image_dim=None, ids=0):
    """Small psf dictionary. beam_ptr[pol, fbin, y_off, x_off, dim*dim]; differs per pol, bin and offset."""
    off = np.arange(res + 1) / res
    k = np.arange(dim) - (dim // 2 - 1 + dim % 2) + 0.0
    beam = np.zeros((n_pol, n_fbin, res + 1, res + 1, dim * dim), dtype=np.complex128)
    for p in range(n_pol):
        for f in range(n_fbin):
            s = 0.8 + 0.1 * p + 0.07 * f
            for yi, yo in enumerate(off):
                for xi, xo in enumerate(off):
                    g = np.exp(-((k[:, None] - yo) ** 2 + (k[None, :] - xo) ** 2) / (2 * s * s))
                    g = g * np.exp(1j * (0.05 * (k[:, None] - yo) + 0.08 * (k[None, :] - xo) * (1 + f)))
                    beam[p, f, yi, xi] = (g / np.abs(g).sum()).ravel()
    psf = {
        "dim": dim, "resolution": res, "fnorm": np.linspace(1.0, 1.2, n_fbin), "n_freq": n_fbin,
        "id": np.full((n_pol, n_fbin, n_bl), ids, dtype=np.int64), "pix_horizon": 64.0,
        "fbin_i": np.zeros(1, dtype=np.int64), "beam_mask_threshold": 100.0,
        "beam_ptr": beam,
        "image_info": {"image_power_beam_arr": None, "psf_image_dim": image_dim or 16},
    }
    if gaussian:
        g = np.zeros((n_pol, n_fbin, 10))
        for p in range(n_pol):
            for f in range(n_fbin):
                half = 64 * 1.3 / 2
                g[p, f] = [1.0, half, 14.0 + f, half, 13.0 + p, 0.08, half + 6, 3.0, half - 5, 4.0]
        psf["beam_gaussian_params"] = g
    return psf


def stub_sites():
    """of_site() downloads a registry; the sandbox has no network. Answer as the registry would."""
    from astropy.coordinates import EarthLocation
    import astropy.units as u
    loc = EarthLocation.from_geodetic(MWA[0] * u.deg, MWA[1] * u.deg, MWA[2] * u.m)
    EarthLocation.of_site = classmethod(lambda cls, *a, **k: loc)
    from astropy.utils import iers
    iers.conf.auto_download = False
