"""K03: the bandpass is the resistant mean of the normalised gain amplitudes."""
import copy, itertools
import numpy as np
import fx
from ref import resistant
from vf import Result, NullLogger, close, diff, REPO
from PyFHD.calibration.calibration_utils import vis_cal_bandpass

ID, LEVEL = "K03", "exploration"
RULE = ("every subset of used tiles and of used channels for several sizes, polarisations and kinds of gains for the global bandpass; every way of keeping all, one or no tile "
        "of each cable length of the instrument for the cable bandpass; bandpass and remainder are compared with per-channel resistant means computed one by one; "
        "non-trivial: a tile or channel is out of use")
ASSUMPTIONS = ["at least one tile and one channel in use; no channel in which the mean of the normalised amplitudes vanishes"]


def cases(tier):
    t = tier == "thorough"
    for n, nf in ((4, 4), (5, 3)) if not t else ((4, 4), (5, 3), (3, 6), (6, 4)):
        for tu in itertools.product((0, 1), repeat=n):
            for fu in itertools.product((0, 1), repeat=nf):
                if any(tu) and any(fu):
                    for np_ in (1, 2):
                        for g in ("sep", "gen", "zero"):
                            if g == "zero" and not (tu[0] and sum(tu) > 2):
                                continue
                            yield dict(kind="global", n=n, nf=nf, tu=list(tu), fu=list(fu), np=np_, g=g)
    for n in (1, 2, 9, 20, 40) if not t else (1, 2, 8, 9, 13, 20, 21, 40, 64):
        for g in ("sep", "gen", "out", "zero"):
            if g == "zero" and n < 9:
                continue
            for np_ in (1, 2):
                yield dict(kind="global", n=n, nf=16, tu=[int(i % 5 != 1 or n < 3) for i in range(n)], fu=[int(i not in (0, 7, 15)) for i in range(16)], np=np_, g=g)
    for keep in itertools.product("*1", repeat=6) if not t else itertools.product("*12", repeat=6):
        for g in ("sep", "gen"):
            yield dict(kind="cable", keep="".join(keep), np=2, g=g, auto=False)
    for i in range(6):
        for j in range(i, 6):
            for g in ("sep", "gen"):
                for a in (False, True):
                    yield dict(kind="cable", keep="".join("0" if k in (i, j) else "*1"[k % 2] for k in range(6)), np=2, g=g, auto=a)
    for np_ in (1, 2):
        for a in (False, True):
            yield dict(kind="cable", keep="*" * 6, np=np_, g="out", auto=a)


def make_gain(kind, np_, nf, n):
    p, f, t = np.meshgrid(np.arange(np_), np.arange(nf), np.arange(n), indexing="ij")
    amp = (1 + .3 * np.sin(1.7 * f + p)) * (1.5 + np.cos(2.3 * t + p))
    if kind != "sep":
        amp = amp * (1 + .1 * np.sin(3.1 * f * t + t + 2 * p + .1 * f))
    if kind == "out":
        amp[:, nf // 2, ::4] *= 7; amp[:, 1, 2::5] *= .1
    if kind == "zero":
        amp[:, :, 0] = 0
    return amp * np.exp(1j * (.3 * f + t * t))


def check(c):
    r = Result(); lens = None
    if c["kind"] == "cable":
        rows = [ln.split() for ln in (REPO / "PyFHD/templates/mwa_cable_reflection_coefficients.txt").read_text().splitlines()[1:] if ln.strip()]
        lens = np.array([float(x[2]) for x in rows]); n, nf = len(rows), 8
        kinds = sorted(set(lens)); assert len(kinds) == 6
        tu = np.ones(n, int); fu = np.array([0, 1, 1, 1, 0, 1, 1, 1])
        for k, L in zip(c["keep"], kinds):
            i = np.nonzero(lens == L)[0]
            if k == "*":
                tu[i[::7]] = 0
            else:
                tu[i[int(k):]] = 0
        if not tu.any():
            return r
    else:
        n, nf, tu, fu = c["n"], c["nf"], np.array(c["tu"]), np.array(c["fu"])
    obs, _ = fx.obs_params(n_tile=2, n_freq=nf, n_time=1, n_pol=4 if nf == 8 else c["np"])
    obs["n_tile"] = n; b = obs["baseline_info"]; b["tile_use"], b["freq_use"] = tu, fu
    gain = make_gain(c["g"], c["np"], nf, n)
    gain[:, :, tu == 0] = np.nan  # as the solver leaves tiles out of use
    cal = dict(gain=gain, n_pol=c["np"], ref_antenna=1, extra=np.arange(3.0))
    keep = copy.deepcopy(cal)
    cfg = dict(cal_bp_transfer=None, cable_bandpass_fit=c["kind"] == "cable", instrument="mwa", auto_ratio_calibration=c.get("auto", False))
    with np.errstate(all="ignore"):
        bp, rem = vis_cal_bandpass(obs, cal, cfg, NullLogger()); r.steps += 1
    r.expect(np.array_equal(cal["gain"], keep["gain"], equal_nan=True) and set(cal) == set(keep), "inputs altered", "the calibration passed in changed")
    use, fr = np.nonzero(tu)[0], np.nonzero(fu)[0]
    groups = [use]
    if lens is not None and not c["auto"] and all((tu[lens == L]).any() for L in kinds):
        groups = [np.nonzero(tu & (lens == L))[0] for L in kinds]
    exp = np.zeros(gain.shape)
    for p in range(c["np"]):
        for g in groups:
            amp = np.abs(gain[p][:, g])
            norm = np.zeros((len(fr), len(g)))
            for j in range(len(g)):
                m = resistant(amp[fr, j])
                norm[:, j] = amp[fr, j] / m if m != 0 else 0
            for i, f in enumerate(fr):
                exp[p, f, g] = resistant(norm[i])
    got = bp["gain"]
    r.expect(got.shape == gain.shape and close(got[:, :, use], exp[:, :, use]), "bandpass", lambda: diff(got[:, :, use], exp[:, :, use]))
    er = gain.copy()
    with np.errstate(all="ignore"):
        er[:, fr] = gain[:, fr] / exp[:, fr]
    r.expect(close(rem["gain"][:, :, use], er[:, :, use]), "remainder", lambda: diff(rem["gain"][:, :, use], er[:, :, use]))
    for x in (bp, rem):
        r.expect(np.array_equal(x["extra"], keep["extra"]) and x["n_pol"] == c["np"], "entries", "other calibration entries changed")
    r.out = [exp[:, :, use]]; r.nontrivial = not (tu.all() and fu.all())
    return r
