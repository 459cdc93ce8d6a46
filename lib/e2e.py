"""Whole runs of PyFHD on a miniature observation, each in a forked child process."""
import ctypes, json, logging, os, sys
from pathlib import Path
import h5py
import healpy as hp
import numpy as np
import mini
from astropy.io import fits
from mini import Obs, make_beam, pattern
from PyFHD import pyfhd
from PyFHD.io.pyfhd_io import save

mini.stub_sites()
BASE = dict(instrument="mwa", dimension=16, elements=16, kbinsize=2.0, n_pol=2, min_baseline=0.1, interpolate_kernel=True, beam_nfreq_avg=4,
            calibrate_visibilities=True, cable_bandpass_fit=True, calibration_polyfit=True, cal_amp_degree_fit=2, cal_phase_degree_fit=1, cal_reflection_hyperresolve=True,
            cal_reflection_mode_theory=150, calibration_auto_initialize=True, cal_gain_init=1, cal_convergence_threshold=1e-7, min_cal_baseline=1.0, vis_baseline_hist=True,
            bandpass_calibrate=True, auto_ratio_calibration=True, digital_gain_jump_polyfit=True, max_cal_iter=20, flag_basic=True, flag_model=True, flag_calibration=True,
            recalculate_grid=True, grid_weights=True, grid_variance=True, image_filter="filter_uv_uniform", export_images=True, save_obs=True, save_params=True, save_cal=True,
            save_visibilities=True, save_weights=True, snapshot_healpix_export=True, save_checkpoints=True, split_ps_export=True, ps_kbinsize=2.0, ps_kspan=20, n_avg=2,
            restrict_healpix_inds=True, rephase_weights=True, model_file_type="uvfits", silent=True, description="a", log_file=True)
UNDERSCORES = ("grid_psf_file",)
OBS = "1000000000"


class Scene:
    """Input files of one observation below a directory."""

    def __init__(self, d, n_pol=2, n_time=2, gains=0.1, salt=1, flags=True, tiles=(1, 2, 3, 5, 8), avg=4, n_freq=4, noise=None, **k):
        self.d = d = Path(d)
        self.obs = o = Obs(n_freq=n_freq, tiles=list(tiles), n_time=n_time, n_pol=n_pol, salt=salt, **k)
        self.gains = 1 + gains * pattern((2, n_freq, 128), 3)
        o.apply_gains(self.gains)
        if noise:  # scatter, strongest on one tile or in one channel
            x = np.arange(o.vis.size).reshape(o.vis.shape); z = np.cos(1.3 * x) + 1j * np.sin(.7 * x + 2)
            big = np.zeros(o.vis.shape)
            if noise == "tile": big[..., (o.ant1 == 5) ^ (o.ant2 == 5)] = 1
            if noise == "chan": big[:, 3] = 1
            o.vis = o.vis + np.abs(o.vis).max() * (.02 * z + 3 * big * z)
        if flags:
            o.wts[:, 2, 4] = 0; o.wts[0, 1, 9] = -1
        (d / "in").mkdir(parents=True)
        o.write_uvfits(d / "in" / f"{OBS}.uvfits"); o.write_metafits(d / "in" / f"{OBS}.metafits")
        o.write_uvfits(d / "model.uvfits", o.model)
        self.psf = make_beam(n_pol=n_pol, n_fbin=(n_freq - 1) // avg + 1, dim=4, res=4, n_bl=o.n_bl)
        self.psf["fbin_i"] = np.arange(n_freq) // avg
        save(d / "beam.h5", self.psf, "psf")
        inds = hp.query_disc(64, hp.ang2vec(0.0, -27.0, lonlat=True), np.radians(5))
        save(d / "hpx.h5", {"hpx_inds": inds, "nside": 64}, "h")
        self.n_pol = n_pol

    def config(self, out, **over):
        c = dict(BASE, input_path=self.d / "in", output_path=out, beam_file_path=self.d / "beam.h5", model_file_path=self.d / "model.uvfits", healpix_inds=self.d / "hpx.h5", n_pol=self.n_pol)
        c.update(over)
        return c

    def argv(self, f, out, **over):
        lines = [f"{k.replace('_', '-')} : {json.dumps(str(v) if isinstance(v, Path) else v)}" for k, v in self.config(out, **over).items() if v is not None]
        Path(f).write_text("\n".join(lines) + "\n")
        return ["pyfhd", OBS, "-c", str(f)]


def run_here(argv):
    sys.argv = argv
    try:
        pyfhd.main()
        return 0
    except SystemExit as e:
        return 0 if e.code in (0, None) else (e.code if isinstance(e.code, int) else 1)


def warm(d):
    """Compiles what is compiled on first use, in this process, so that children find it done."""
    s = Scene(Path(d) / "warm")
    keep, out, err = list(logging.getLogger().handlers), os.dup(1), os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    try:
        rc = run_here(s.argv(s.d / "c.yaml", s.d / "out"))
    finally:
        os.dup2(out, 1); os.dup2(err, 2)
        for x in (dn, out, err): os.close(x)
        for h in list(logging.getLogger().handlers):
            if h not in keep:
                h.close(); logging.getLogger().removeHandler(h)
        logging.captureWarnings(False)
    return rc


def run(scene, work, name, arm=None, **over):
    """One run in a child process; returns (exit status or None if killed, output directory, what it said on an exception, operations counted)."""
    work = Path(work); out = work / name
    argv = scene.argv(work / f"{name}.yaml", out, **over)
    said = work / f"{name}.err"
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code, msg = 99, ""
        try:
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            os.chdir(work)
            if arm:
                L = ctypes.CDLL(None); L.vf_count.restype = ctypes.c_long
                L.vf_arm(str(out).encode() + b"/", ctypes.c_long(arm[0]), arm[1])
            code = run_here(argv)
            if arm:
                L.vf_disarm()
                (work / f"{name}.count").write_text(str(L.vf_count()))
        except BaseException as e:
            import traceback
            code, msg = 98, f"{type(e).__name__}: {e}; " + " < ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[::-1][:4])
        try:
            if msg: said.write_text(msg)
        finally:
            os._exit(code)
    rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    n = int((work / f"{name}.count").read_text()) if arm and (work / f"{name}.count").exists() else 0
    return rc, out / "pyfhd_a", said.read_text() if said.exists() else "", n


def h5tree(f):
    def walk(o):
        if isinstance(o, h5py.Group):
            return {k: walk(v) for k, v in o.items()}
        v = o[()]
        if isinstance(v, h5py.Empty): return None
        if isinstance(v, bytes): return v.decode("utf-8", "replace")
        if isinstance(v, (np.ndarray, np.void)) and v.dtype.names:
            return {n: v[n].astype(str) if v[n].dtype.kind == "S" else v[n].astype(float) if v[n].dtype.kind in "iuf" else v[n] for n in v.dtype.names}
        if isinstance(v, np.ndarray) and v.dtype == object:
            return np.array([x.decode() if isinstance(x, bytes) else str(x) for x in v.ravel()]).reshape(v.shape)
        if isinstance(v, np.ndarray) and v.dtype.kind == "S": return v.astype(str)
        return v
    with h5py.File(f) as h:
        return walk(h)


def contents(f):
    if f.suffix == ".h5": return h5tree(f)
    if f.suffix == ".fits":
        with fits.open(f) as h:
            return {str(i): {"data": np.asarray(x.data, float), "header": {k: (v if isinstance(v, (int, float, bool)) else str(v)) for k, v in x.header.items() if k not in ("HISTORY", "COMMENT", "DATE", "")}} for i, x in enumerate(h)}
    return f.read_bytes().decode("utf-8", "replace")


def products(out):
    """Names of all files but the log and the configuration."""
    out = Path(out)
    return {str(p.relative_to(out)): p for p in sorted(out.rglob("*")) if p.is_file() and p.suffix != ".log" and p.relative_to(out).parts[0] != "config"} if out.exists() else {}
