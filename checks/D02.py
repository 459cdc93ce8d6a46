"""D02: the antenna layout holds the antenna table, or the documented default for what is missing."""
import itertools
import numpy as np
from astropy.io import fits
import uvf
from vf import Result, Scratch, NullLogger, close, tree_diff
from PyFHD.data_setup.uvfits import create_layout
from PyFHD.io.pyfhd_io import load

ID, LEVEL = "D02", "exploration"
RULE = ("antenna tables with every subset of up to two (three thorough) keywords or columns missing, for 1, 2, 3 and 5 antennas and constant or varying "
        "per-antenna columns; the layout returned and the layout file saved are compared with the table; non-trivial: something is missing or more than one antenna")
ASSUMPTIONS = ["the table's row count keyword is always present (FITS requires it)"]
HDR = ["ARRAYX", "ARRAYY", "ARRAYZ", "FRAME", "GSTIA0", "DEGPDY", "RDATE", "TIMSYS", "UT1UTC", "DATUTC", "IAUTC", "POLTYPE", "NOPCAL"]
COL = ["ANNAME", "NOSTA", "STABXYZ", "MNTSTA", "STAXOF", "POLTYA", "POLAA", "POLCALA", "POLTYB", "POLAB", "POLCALB", "DIAMETER", "BEAMFWHM"]


def cases(tier):
    for k in range(0, 3 if tier == "quick" else 4):
        for miss in itertools.combinations(HDR + COL, k):
            if len(miss) and all(m in COL for m in miss) and False:
                continue
            for n, var, alt in ([(3, 1, 0)] if k >= 2 else itertools.product([1, 2, 3, 5], [0, 1, 2], [0, 1, 2, 3])):
                yield dict(miss=list(miss), n=n, var=var, alt=alt)


def check(c):
    r = Result(); log = NullLogger(); n = c["n"]; i = np.arange(n)
    cols = uvf.default_antennas(n)
    if c["var"]:
        ch = {"MNTSTA": (i % 3).astype(np.int32), "POLAA": (2 * i).astype(np.float32), "NOSTA": (2 * i + 3).astype(np.int32)}
        cols = [(k, f, ch.get(k, v)) for k, f, v in cols]
    hd = dict(uvf.DEFAULT_AN)
    if c["var"] == 2:
        ch = {"POLTYA": np.array(list("YXRL")[:n] + ["X"] * (n - 4)), "POLTYB": np.array(list("XYLR")[:n] + ["Y"] * (n - 4)), "POLAB": np.zeros(n, np.float32), "POLAA": np.full(n, -1, np.float32),
              "STAXOF": np.zeros(n, np.float32), "MNTSTA": np.zeros(n, np.int32), "NOSTA": i[::-1].astype(np.int32), "DIAMETER": np.zeros(n, np.float32), "STABXYZ": np.zeros((n, 3))}
        cols = [(k, f, ch.get(k, v)) for k, f, v in cols]
    if c["alt"] == 2:  # zeros are values too
        hd.update(ARRAYX=0.0, ARRAYZ=0.0, GSTIA0=0.0, DEGPDY=0.0, UT1UTC=0.0, DATUTC=0.0, IAUTC=0.0, NOPCAL=0, RDATE="", FRAME="")
    elif c["alt"] == 3:
        hd.update(GSTIA0=-10.25, DEGPDY=-361.5, UT1UTC=-0.625, DATUTC=-3.5, IAUTC=-7.0, NOPCAL=3, TIMSYS="  IAT", POLTYPE="ORI-ELP", FRAME="????")
    elif c["alt"]:
        hd["TIMESYS"] = "UTC "; hd["NOPCAL"] = 0; hd["TIMSYS"] = "TAI"
    with Scratch() as d:
        uvf.write(d / "x.uvfits", np.ones((1, 1, 1, 3)), [("UU", [0], 1, 0)], antenna=cols, an_header=hd, an_drop=c["miss"])
        with fits.open(d / "x.uvfits") as o:
            data, head = o[1].data, o[1].header
        got = create_layout(head, data, {"output_dir": d}, log)
        saved = load(d / "layout.h5", log)
    r.steps = 2
    m = set(c["miss"])
    C = {k: v for k, f, v in cols if k not in m}
    H = {k: v for k, v in hd.items() if k not in m}
    one = lambda v: v[0] if isinstance(v, np.ndarray) and v.min() == v.max() else v
    npc = H.get("NOPCAL", 0)
    pc = np.zeros(npc) if npc > 1 else 0
    ts = (H.get("TIMESYS") or H.get("TIMSYS") or "UTC").strip()
    exp = {
        "array_center": [H["ARRAYX"], H["ARRAYY"], H["ARRAYZ"]] if not m & {"ARRAYX", "ARRAYY", "ARRAYZ"} else [-2559454.07880307, 5095372.14368305, -2849057.18534633],
        "coordinate_frame": H.get("FRAME", "IRTF"), "gst0": H.get("GSTIA0", -1), "earth_degpd": H.get("DEGPDY", 360.985), "refdate": H.get("RDATE", -1),
        "time_system": ts, "dut1": H.get("UT1UTC", 0), "diff_utc": H.get("DATUTC", 0),
        "nleap_sec": H.get("IAUTC", H.get("DATUTC", 0) if ts == "IAT" else -1), "pol_type": H.get("POLTYPE", "X-Y LIN"), "n_pol_cal_params": npc, "n_antenna": n,
        "antenna_names": C.get("ANNAME", i.astype(str)), "antenna_numbers": C.get("NOSTA", i + 1), "antenna_coords": C.get("STABXYZ", np.zeros((n, 3))),
        "mount_type": one(C.get("MNTSTA", 0)), "axis_offset": one(C.get("STAXOF", 0)), "pola": C.get("POLTYA", "X"), "pola_orientation": one(C.get("POLAA", 0)),
        "pola_cal_params": C.get("POLCALA", pc), "polb": C.get("POLTYB", "Y"), "polb_orientation": one(C.get("POLAB", 90)), "polb_cal_params": C.get("POLCALB", pc)}
    if "DIAMETER" in C:
        exp["diameters"] = C["DIAMETER"]
    if "BEAMFWHM" in C:
        exp["beam_fwhm"] = C["BEAMFWHM"]
    norm = lambda t: {k: (np.array(v) if isinstance(v, (list, np.ndarray)) or hasattr(v, "tolist") else v) for k, v in t.items()}
    for who, t in (("returned", got), ("saved", saved)):
        t = {k: (np.array([str(x) for x in v]) if k in ("antenna_names", "pola", "polb") and np.ndim(v) else v) for k, v in t.items()}
        for k in sorted(set(exp) | set(t)):
            if k not in exp or k not in t:
                r.fail(who + ":keys", f"{k} {'missing' if k in exp else 'unexpected'}")
                continue
            dd = tree_diff({k: np.array(t[k]) if np.ndim(t[k]) else t[k]}, {k: np.array(exp[k]) if np.ndim(exp[k]) else exp[k]})
            r.expect(dd is None, f"{who}:{k}", lambda: dd)
    r.out = [str(norm(exp))]
    r.nontrivial = bool(m) or n > 1
    return r
