"""A hand-written UVFITS (random groups) writer with every layout freedom the format gives."""
import io
import numpy as np
from astropy.io import fits


def write(path, data, groups, bitpix=-64, freq=(180e6, 0.5e6, 1), n_degenerate=3, header=None, drop=(), antenna=None, an_header=None, an_drop=()):
    """data: [blt, n_freq, n_pol, 3]; groups: list of (ptype, true values, pscal, pzero); freq: crval, cdelt, crpix"""
    n_blt, n_freq, n_pol, _ = data.shape
    dt = {-64: ">f8", -32: ">f4"}[bitpix]
    raw = [((np.asarray(v, dtype=float) - z) / s)[:, None] for _, v, s, z in groups]
    blob = np.concatenate(raw + [np.asarray(data, dtype=float).reshape(n_blt, -1)], axis=1).astype(dt).tobytes()
    h = fits.Header()
    h["SIMPLE"] = True; h["BITPIX"] = bitpix; h["NAXIS"] = 4 + n_degenerate; h["NAXIS1"] = 0
    for i, v in enumerate([3, n_pol, n_freq] + [1] * n_degenerate):
        h[f"NAXIS{i + 2}"] = v
    h["EXTEND"] = True; h["GROUPS"] = True; h["PCOUNT"] = len(groups); h["GCOUNT"] = n_blt
    for i, (nm, _, s, z) in enumerate(groups):
        h[f"PTYPE{i + 1}"] = nm; h[f"PSCAL{i + 1}"] = float(s); h[f"PZERO{i + 1}"] = float(z)
    ax = [("COMPLEX", 1, 1, 1), ("STOKES", -5, -1, 1), ("FREQ",) + tuple(freq), ("IF", 1, 1, 1), ("RA", 10.0, 1, 1), ("DEC", -27.0, 1, 1)]
    if n_degenerate == 2:
        ax.pop(3)
    for i, (ty, val, delt, pix) in enumerate(ax):
        n = i + 2
        h[f"CTYPE{n}"] = ty; h[f"CRVAL{n}"] = val; h[f"CDELT{n}"] = delt; h[f"CRPIX{n}"] = pix
    for k, v in {"OBSRA": 10.0, "OBSDEC": -27.0, "DATE-OBS": "2014-07-01T12:00:00", **(header or {})}.items():
        if k not in drop:
            h[k] = v
    a = antenna if antenna is not None else default_antennas(4)
    cols = [fits.Column(name, f, array=v) for name, f, v in a if name not in an_drop]
    an = fits.BinTableHDU.from_columns(cols)
    an.header["EXTNAME"] = "AIPS AN"
    for k, v in (DEFAULT_AN if an_header is None else an_header).items():
        if k not in an_drop:
            an.header[k] = v
    blob = h.tostring().encode("ascii") + blob
    blob += b"\0" * (-len(blob) % 2880)
    buf = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), an]).writeto(buf)
    with open(path, "wb") as f:
        f.write(blob + buf.getvalue()[2880:])


DEFAULT_AN = {"ARRAYX": -2559454.5, "ARRAYY": 5095372.25, "ARRAYZ": -2849057.125, "FRAME": "ITRF", "GSTIA0": 278.5, "DEGPDY": 360.9856,
              "RDATE": "2014-07-01", "TIMSYS": "IAT", "UT1UTC": 0.25, "DATUTC": 16.0, "IAUTC": 35.0, "POLTYPE": "APPROX", "NOPCAL": 2}


def default_antennas(n):
    i = np.arange(n)
    return [("ANNAME", "8A", np.array([f"Tile{k + 11:03d}" for k in i])), ("STABXYZ", "3D", np.stack([1.5 * i, 2.5 * i - 1, 0.25 * i + 3], 1)),
            ("NOSTA", "1J", (i + 1).astype(np.int32)), ("MNTSTA", "1J", np.full(n, 1, np.int32)), ("STAXOF", "1E", (i * 0.5).astype(np.float32)),
            ("POLTYA", "1A", np.array(["X"] * n)), ("POLAA", "1E", np.full(n, 5, np.float32)), ("POLCALA", "1E", (i + 0.5).astype(np.float32)),
            ("POLTYB", "1A", np.array(["Y"] * n)), ("POLAB", "1E", (i + 90).astype(np.float32)), ("POLCALB", "1E", (i + 0.25).astype(np.float32)),
            ("DIAMETER", "1E", (4 + i).astype(np.float32)), ("BEAMFWHM", "1E", (20 + i).astype(np.float32))]
