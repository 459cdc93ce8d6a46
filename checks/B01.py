"""B01: the beam read from a file is the beam in the file, however it is stored."""
import itertools
from pathlib import Path
import numpy as np
import h5py
import mini, sav
from vf import Result, Scratch, NullLogger, product, close, diff
from PyFHD.beam_setup.beam import create_psf
from PyFHD.io.pyfhd_io import load, save

ID, LEVEL = "B01", "exploration"
RULE = ("save files as IDL writes them, with every combination of polarisations, frequency bins, baselines, kernel size and resolution, precision, baselines sharing a kernel or not, scalars or arrays, optional entries there, null or left out; HDF5 files with each suffix, loaded and read lazily; files of other kinds; "
        "every kernel compared with the one stored for the first baseline; non-trivial: more than one kernel")
ASSUMPTIONS = ["more than one polarisation or frequency bin, more than one offset", "no compression"]
P = sav.Ptr


def cases(tier):
    t = tier == "thorough"
    for c in product(pol=[1, 2, 4], nf=[1, 2, 3] if t else [1, 3], bl=[1, 2, 4], dim=[2, 3, 5] if t else [2, 3], res=[1, 2, 3] if t else [1, 3], single=[0, 1], shared=[0, 1], extra=[0, 1, 2, 3]):
        if c["pol"] * c["nf"] == 1 or c["bl"] == 1 and c["shared"]: continue
        if not t and (c["pol"] == 4 and c["bl"] == 4 or c["single"] and c["extra"] not in (0, 3)): continue
        yield dict(c, kind="sav")
    for c in product(suffix=[".h5", ".hdf5"], lazy=[0, 1], pol=[1, 2], nf=[1, 2], res=[2, 4]):
        yield dict(c, kind="hdf5")
    for s in (".fits", ".FITS.fits"):
        yield dict(kind="refused", suffix=s)


def kernel(p, f, y, x, b, dim):
    """a kernel which is not symmetric in anything"""
    i = np.arange(dim * dim)
    return np.cos(1 + p + 2.3 * f + 0.7 * y + 0.31 * x + 0.11 * b + 1.9 * i) + 1j * np.sin(0.3 + 1.1 * p * p + f + 0.17 * y - 0.23 * x + 0.05 * b + 0.9 * i)


def structure(c):
    """The psf structure, and what it means"""
    npol, nf, nb, dim, n = c["pol"], c["nf"], c["bl"], c["dim"], c["res"] + 1; t = np.complex64 if c["single"] else np.complex128
    beam = np.empty((nb, nf, npol), object); first = {}
    for b, f, p in itertools.product(range(nb), range(nf), range(npol)):      # [baseline, bin, polarisation] is IDL's [polarisation, bin, baseline]
        if c["shared"] and b:
            beam[b, f, p] = beam[0, f, p]; continue
        k = np.empty((n, n), object)
        for y, x in itertools.product(range(n), range(n)):
            k[y, x] = P(kernel(p, f, y, x, b, dim).astype(t))
        beam[b, f, p] = P(k)
    ids = (np.arange(nb)[:, None, None] * 7 + np.arange(nf)[None, :, None] * 2 + np.arange(npol)).astype("i4")
    want = dict(beam_ptr=np.array([[[[kernel(p, f, y, x, 0, dim).astype(t) for x in range(n)] for y in range(n)] for f in range(nf)] for p in range(npol)]), id=ids.T,
                dim=dim, resolution=c["res"], n_freq=nf, freq=np.linspace(1.8e8, 1.9e8, nf + 1), fbin_i=np.arange(nf + 2) // 2, pix_horizon=64.5, name="psf of antennas")
    st = dict(beam_ptr=P(beam), resolution=np.int32(c["res"]), dim=np.int16(dim), n_freq=np.int32(nf), freq=P(want["freq"]), fbin_i=P(want["fbin_i"].astype("i4")), id=P(ids), pix_horizon=np.float32(64.5), name="psf of antennas")
    info = dict(psf_image_dim=np.float32(16.0), xl=np.arange(3.0)); winfo = dict(psf_image_dim=16.0, xl=np.arange(3.0))
    if c["extra"] in (1, 3):
        g = np.sin(np.arange(npol * nf * 10.0)).reshape(10, nf, npol)
        st["beam_gaussian_params"] = P(g); want["beam_gaussian_params"] = g
    if c["extra"] in (2, 3):
        info["image_power_beam_arr"] = P(); winfo["image_power_beam_arr"] = None
        info["names"] = np.array(["a ", "bcd"], object); winfo["names"] = ["a", "bcd"]
    st["image_info"] = info; want["image_info"] = winfo
    return st, want


def same(got, want):
    if isinstance(want, dict):
        for k in want:
            if k not in got: return f"{k} is missing"
            x = same(got[k], want[k])
            if x: return f"{k}: {x}"
        return None if set(got) == set(want) else f"has also {sorted(set(got) - set(want))}"
    if want is None or isinstance(want, (str, list)):
        return None if got is want or isinstance(got, (str, list, np.ndarray)) and list(got) == list(want) else f"{got!r}, expected {want!r}"
    return None if close(got, want, rtol=1e-7) else diff(got, want)


def check(c):
    r = Result()
    with Scratch() as d:
        if c["kind"] == "refused":
            (d / f"beam{c['suffix']}").write_bytes(b"SIMPLE  =                    T"); r.steps += 1
            try:
                create_psf(dict(beam_file_path=d / f"beam{c['suffix']}", lazy_load_beam=False), NullLogger()); rc = None
            except SystemExit as e:
                rc = e.code
            r.expect(isinstance(rc, int) and rc > 0, "refused", f"leaves with {rc}")
            r.out = rc; return r
        if c["kind"] == "hdf5":
            want = mini.make_beam(c["pol"], c["nf"], 3, c["res"]); f = d / f"beam{c['suffix']}"
            save(f, want, "psf", to_chunk=dict(beam_ptr=dict(shape=want["beam_ptr"].shape, chunk=(1, 1) + want["beam_ptr"].shape[2:])))
            before = f.read_bytes()
            got = create_psf(dict(beam_file_path=f, lazy_load_beam=bool(c["lazy"])), NullLogger()); r.steps += 1
            r.expect(isinstance(got, h5py.File) == bool(c["lazy"]), "lazy", type(got))
            r.expect(close(got["beam_ptr"][()] if c["lazy"] else got["beam_ptr"], want["beam_ptr"]), "beam", "another beam")
            if c["lazy"]:
                r.expect(close(got["beam_ptr"][c["pol"] - 1, c["nf"] - 1], want["beam_ptr"][-1, -1]), "slice", "another kernel"); got.close()
            else:
                r.expect(same(got, want) is None, "contents", lambda: same(got, want))
            r.expect(f.read_bytes() == before, "file", "the file has changed")
            r.out = want["beam_ptr"]; return r
        st, want = structure(c); f = d / "in.here" / "beam.one.sav"; f.parent.mkdir()
        sav.write(f, psf=st); before = f.read_bytes(); log = NullLogger()
        got = create_psf(dict(beam_file_path=f, lazy_load_beam=False), log); r.steps += 1
        x = same(got, want)
        r.expect(x is None, "save file", lambda: x)
        r.expect(f.read_bytes() == before, "file", "the save file has changed")
        h = f.parent / "beam.one.h5"
        if r.expect(h.exists(), "converted", f"there are {[p.name for p in f.parent.iterdir()]}"):
            again = create_psf(dict(beam_file_path=h, lazy_load_beam=False), log); r.steps += 1
            y = same(again, want)
            r.expect(y is None, "HDF5", lambda: y)
            lazy = create_psf(dict(beam_file_path=h, lazy_load_beam=True), log); r.steps += 1
            for p, q in itertools.product(range(c["pol"]), range(c["nf"])):
                r.expect(close(lazy["beam_ptr"][p, q], want["beam_ptr"][p, q], rtol=1e-7), "lazy", "another kernel")
            lazy.close()
        r.out = want["beam_ptr"]
    return r
