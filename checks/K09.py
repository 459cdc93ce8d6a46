"""K09: a transferred bandpass is what the calfits file holds for the observation; files that do not fit are refused."""
import itertools, math, os
import numpy as np
from astropy.io import fits
import fx
from vf import Result, Scratch, NullLogger, product, close, diff
from PyFHD.calibration.calibration_utils import vis_cal_bandpass

ID, LEVEL = "K09", "exploration"
RULE = ("calfits files with and without a spectral window, of every number of polarisations and both conventions for x, every whole ratio of channel widths either way with each channel flagged in turn, one or more times as the observation's steps or others with the observation at each place among them, "
        "float and double, with and without quality; every way of not fitting; every gain compared with the file's, worked out one by one; non-trivial: not copied as is")
ASSUMPTIONS = ["channel widths differ by whole factors", "times are not whole pointings (1600 to 2000 s)", "observation clear of the middle between two times of the file"]
RES, F0, JD = 84e3, 180e6, 2456840.4


def cases(tier):
    t = tier == "thorough"
    base = dict(tiles=3, nf=4, pols=2, jones=2, ifx=0, north="east", ratio=[1, 1], times=0, flagged=-1, narr=4, dbl=1, bad="", extra=0)
    seen = set()

    def y(**k):
        c = dict(base, **k); key = repr(sorted(c.items()))
        if key not in seen and c["jones"] >= (c["pols"] if not c["bad"] else 0):
            seen.add(key); yield c
    for c in product(tiles=[1, 3, 5], nf=[1, 2, 6], pols=[1, 2, 4], jones=[1, 2, 4], ifx=[0, 1], north=["east", "north", "south", "west "], dbl=[0, 1]):
        yield from y(**c)
    for r in [[2, 1], [3, 1], [4, 1], [5, 1], [1, 2], [1, 3], [1, 4]] + ([[6, 1], [7, 1], [1, 5], [1, 7]] if t else []):
        for c in product(nf=[1, 2, 4, 6] if not t else [1, 2, 3, 4, 6, 8], ifx=[0, 1], pols=[1, 2], jones=[2, 4], north=["east", "north"], extra=[0, 1]):
            yield from y(ratio=r, **c)
        if r[0] > 1:
            for n in (2, 4):
                for f in range(n * r[0]):
                    yield from y(ratio=r, nf=n, flagged=f, narr=4 + f % 2); yield from y(ratio=r, nf=n, flagged=f, ifx=1, times=2, narr=5)
    for n in [1, 2, 3, 5]:                     # the observation's own steps
        for c in product(pols=[1, 2], ifx=[0, 1], ratio=[[1, 1], [2, 1], [1, 2]], north=["east", "north"]):
            yield from y(times=n, **c)
    for n in [2, 3, 5] if not t else range(2, 9):                        # other steps
        for at in range(-1, n + 1):
            for off in (-0.4, 0.0, 0.3):
                for c in product(pols=[1, 2], ifx=[0, 1], ratio=[[1, 1], [2, 1]]):
                    yield from y(times=-n, flagged=-1, extra=0, bad="", narr=4, at=at + off, **c)
    for b in ["missing", "not fits", "empty", "table", "delay", "tiles+", "tiles-", "jones", "two windows", "order", "no jones", "no time", "no ant", "start", "start ratio", "short", "short ratio", "ratio 1.5", "early", "late", "no njones", "no chwidth", "no inttime", "no xorient"]:
        for c in product(pols=[1, 2] if b != "jones" else [2], ifx=[0, 1]):
            yield from y(bad=b, **c, **(dict(ratio=[2, 1]) if "ratio" in b else {}), **(dict(times=-3) if b in ("early", "late") else {}), **(dict(jones=1) if b == "jones" else {}))


def value(a, f, t, j):
    return (1.2 + math.sin(1.3 * a + 0.7 * f + 2.1 * t + 3.3 * j)) * complex(math.cos(0.9 * a - 0.4 * f + t + 2 * j), math.sin(0.9 * a - 0.4 * f + t + 2 * j))


def write(path, c, nch, nt, step, start):
    b = c["bad"]; na = c["tiles"] + (b == "tiles+") - (b == "tiles-")
    d = np.zeros((na, nch, nt, c["jones"], c["narr"]))
    for a, f, t, j in itertools.product(range(na), range(nch), range(nt), range(c["jones"])):
        v = value(a, f, t, j); d[a, f, t, j, :2] = v.real, v.imag
    if c["flagged"] >= 0: d[:, c["flagged"], :, :, 2] = 1; d[:, c["flagged"], :, :, :2] += 40
    d[..., 3:] = 0.5
    names = ["Narrays", "JONES", "TIME", "FREQS", "ANTAXIS"]
    if c["ifx"] or b == "two windows":
        d = np.repeat(d[:, None], 2 if b == "two windows" else 1, axis=1); names.insert(4, "IF")
    if b == "order":
        d = np.swapaxes(d, -2, -3); names[1], names[2] = names[2], names[1]
    if b.startswith("no ") and b[3:] in ("jones", "time", "ant"):
        names = [n if not n.lower().startswith(b[3:]) else "OTHER" for n in names]
    h = fits.PrimaryHDU(d.astype("f8" if c["dbl"] else "f4")); H = h.header
    start_f = F0 + (RES / 2 if b.startswith("start") else 0)
    val = {"Narrays": (1, 1), "JONES": (-5, -1), "TIME": (start, step), "FREQS": (start_f, RES * c["ratio"][1] / c["ratio"][0]), "IF": (1, 1), "ANTAXIS": (1, 1), "OTHER": (1, 1)}
    for i, n in enumerate(names, 1):
        H[f"CTYPE{i}"] = n; H[f"CRVAL{i}"], H[f"CDELT{i}"] = val[n]
    H["NJONES"] = c["jones"]; H["CALTYPE"] = "delay" if b == "delay" else "gain"; H["INTTIME"] = step if step else 2.0
    H["CHWIDTH"] = RES * c["ratio"][1] / c["ratio"][0] * (1.5 if b == "ratio 1.5" else 1); H["XORIENT"] = c["north"]
    if b.startswith("no ") and b[3:].upper() in H: del H[b[3:].upper()]
    h.writeto(path)


def check(c):
    r = Result(); nf, n_pol, nt, b = c["nf"], c["pols"], max(abs(c["times"]), 1), c["bad"]; up, down = c["ratio"]
    obs, _ = fx.obs_params(n_tile=max(c["tiles"], 2), n_freq=nf, n_time=2, n_pol=n_pol, res=RES, f0=F0)
    obs["n_tile"] = c["tiles"]; obs["baseline_info"]["tile_use"] = np.ones(c["tiles"], int)
    obs["delays"] = np.zeros(16, int)
    mid = JD + 2 * 2.0 / 2 / 86400; step = 2.0 if c["times"] >= 0 else 120.0
    start = JD
    if c["times"] < 0: start = mid - (c.get("at", 1) + {"early": -4, "late": nt + 3}.get(b, 0)) * step / 86400
    obs["astr"] = dict(mjdobs=JD - 2400000.5)
    nch = nf * up if up > 1 else -(-nf // down)
    if c["extra"]: nch += 3
    if b.startswith("short"): nch = max(nch - up, 0) or 1
    if b.startswith("short") and nch * down * RES / up >= nf * RES: nch = 0
    cal = dict(n_pol=min(n_pol, 2), gain=np.array([[[value(a, f, 7, p) for a in range(c["tiles"])] for f in range(nf)] for p in range(min(n_pol, 2))]), conv_thresh=1e-3, ref_antenna=1, ref_antenna_name="x", n_converged=np.arange(min(n_pol, 2)))
    g0 = cal["gain"].copy()
    with Scratch() as d:
        p = d / "bp.fits"
        if b == "not fits": p.write_text("this is a text file\n")
        elif b == "empty": p.write_bytes(b"")
        elif b == "table": fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns([fits.Column("A", "J", array=[1])])]).writeto(p)
        elif b != "missing": write(p, c, max(nch, 1), nt, step, start)
        before = p.read_bytes() if p.exists() else None
        cfg = dict(cal_bp_transfer=p, input_path=d, cable_bandpass_fit=False, auto_ratio_calibration=False, cal_gain_init=1.0, instrument="mwa")
        own, own_rem = vis_cal_bandpass(obs, dict(cal, gain=g0.copy()), dict(cfg, cal_bp_transfer=None), NullLogger())
        bp, rem = vis_cal_bandpass(obs, cal, cfg, NullLogger()); r.steps += 2
        r.expect(before is None or p.read_bytes() == before, "file", "the file has changed")
    r.expect(np.array_equal(cal["gain"], g0), "in place", "the gains passed in have changed")
    late = "at" in c and not -2 <= c["at"] <= nt + 1
    if b or late or (c["jones"] == 1 and c["north"] in ("north", "south")):
        if b.startswith("short") and nch == 0:
            r.nontrivial = False; return r
        r.expect(close(bp["gain"], own["gain"]) and close(rem["gain"], own_rem["gain"]), "refused", lambda: "a file that does not fit is used: " + diff(bp["gain"], own["gain"]))
        r.out = [b, own["gain"]]; return r
    want = np.zeros((min(n_pol, 2), nf, c["tiles"]), complex)
    for q, f, a in itertools.product(range(min(n_pol, 2)), range(nf), range(c["tiles"])):
        j = 1 - q if c["north"].startswith(("north", "south")) else q
        times = range(nt) if c["times"] > 0 else [0] if c["times"] == 0 else [min(max(round(c.get("at", 1)), 0), nt - 1)]

        def at(ch, t): return value(a, ch, t, j)
        tot = 0
        for t in times:
            if up > 1:
                use = [ch for ch in range(max(nch, 1)) if abs(ch - f * up) <= up / 2 and abs(ch - f * up) <= up // 2 and ch != c["flagged"]]
                tot += sum(at(ch, t) for ch in use) / len(use) if use else complex(math.nan, math.nan)
            elif down > 1:
                x = min(f / down, nch - 1); lo = int(x); hi = min(lo + 1, nch - 1)
                tot += at(lo, t) * (1 - (x - lo)) + at(hi, t) * (x - lo)
            else:
                tot += at(f, t)
        want[q, f, a] = tot / len(times)
    r.expect(close(bp["gain"], want, rtol=1e-9 if c["dbl"] else 1e-5), "bandpass", lambda: diff(bp["gain"], want))
    r.expect(close(rem["gain"], g0 / want, rtol=1e-9 if c["dbl"] else 1e-5), "remaining gains", lambda: diff(rem["gain"], g0 / want))
    r.expect(set(cal) <= set(bp) and set(cal) <= set(rem) and bp["ref_antenna"] == 1, "entries", lambda: f"entries missing: {set(cal) - set(bp)}")
    r.nontrivial = c["ratio"] != [1, 1] or c["times"] != 0 or c["north"] != "east"
    r.out = want
    return r
