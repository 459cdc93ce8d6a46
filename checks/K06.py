"""K06: calibration flagging takes the outlying tiles and channels out of use, and only those."""
import itertools
import numpy as np
import fx
from ref import polyfit, unwrap
from vf import Result, NullLogger
from PyFHD.calibration.calibration_utils import vis_calibration_flag

ID, LEVEL = "K06", "exploration"
RULE = ("every tile or channel, in each polarisation, made an outlier of every kind (amplitude level, amplitude scatter, channel scatter, phase slope, phase scatter, a change of either along the channels) and strength, in small steps too, and pairs of such; "
        "the tiles and channels in use afterwards are compared with the documented tests; non-trivial: something is cut")
ASSUMPTIONS = ["decisions further than 1e-6 from their threshold", "more than 26 tiles and channels in use (fewer cannot give a 5 sigma outlier)"]
KINDS = ["high", "low", "scatter", "chan", "slope", "phase", "tilt", "turn"]


def cases(tier):
    t = tier == "thorough"
    for n, nf in ((34, 36),) if not t else ((34, 36), (60, 44)):
        for k in KINDS:
            for i in range(0, nf if k == "chan" else n, 1 if t else 3):
                for pol in (0, 1):
                    for s in (0.6, 1.0, 3.0):
                        yield dict(n=n, nf=nf, ev=[[k, i, pol, s]], deg=[2, 1], pre=[], ff=True)
        for k1, k2 in itertools.combinations_with_replacement(KINDS, 2):
            for i, j in ((0, 1), (4, 20), (20, 4), (30, 31)):
                for s1, s2 in ((1.0, 1.0), (10.0, 1.0), (1.0, 10.0)):
                    for p1, p2 in ((0, 0), (0, 1), (1, 0)):
                        for ff in (True, False):
                            yield dict(n=n, nf=nf, ev=[[k1, i, p1, s1], [k2, j, p2, s2]], deg=[2, 1], pre=[3, 9] if i == 4 else [], ff=ff)
        for k in KINDS:                           # strength in small steps, through the thresholds
            for q in range(40 if not t else 160):
                yield dict(n=n, nf=nf, ev=[[k, 11, q % 2, round(0.01 * 400 ** (q / (39 if not t else 159)), 6)], ["high", 13, q % 2, 20.0]], deg=[2, 1], pre=[], ff=True)
                yield dict(n=n, nf=nf, ev=[[k, 11, q % 2, round(0.01 * 400 ** (q / (39 if not t else 159)), 6)]], deg=[1, 2], pre=[], ff=True)
        for d in itertools.product(range(4), range(1, 3)):
            for k in KINDS:
                yield dict(n=n, nf=nf, ev=[[k, 7, 0, 1.0]], deg=list(d), pre=[0, 12], ff=True)
        yield dict(n=n, nf=nf, ev=[], deg=[2, 1], pre=[], ff=True)


def check(c):
    r = Result(); n, nf = c["n"], c["nf"]
    obs, _ = fx.obs_params(n_tile=2, n_freq=nf, n_time=1); obs["n_tile"] = n
    b = obs["baseline_info"]
    b["tile_use"] = np.ones(n, int); b["tile_use"][c["pre"]] = 0
    b["freq_use"][c["pre"]] = 0
    p, f, t = np.meshgrid(np.arange(2), np.arange(nf), np.arange(n), indexing="ij")
    k = p * nf * n + f * n + t
    X = f / nf - .5
    noise = np.sin(12.9898 * k) ; noise2 = np.cos(78.233 * k + .5)
    amp = 1 + .1 * np.cos(t + p) + .05 * X + .01 * noise
    ph = np.sin(1.1 * t) + .2 * X * np.cos(t) + .01 * noise2
    for kind, i, pol, s in c["ev"]:
        sel = (slice(None), i)
        if kind == "high": amp[pol][sel] *= 1 + 2 * s
        if kind == "low": amp[pol][sel] /= 1 + 2 * s
        if kind == "scatter": amp[pol][sel] += .3 * s * noise[pol][sel]
        if kind == "chan": amp[pol][i] += .9 * s * noise2[pol][i] + .02 * s
        if kind == "slope": ph[pol][sel] += 20 * s * X[pol][sel]
        if kind == "tilt": amp[pol][sel] *= 1 + .5 * min(s, 3) * X[pol][sel]
        if kind == "turn": ph[pol][sel] += .6 * s * X[pol][sel]
        if kind == "phase": ph[pol][sel] += .5 * min(s, 3) * noise[pol][sel]
    g = amp * np.exp(1j * ph)
    g[:, :, b["tile_use"] == 0] = np.nan
    cal = dict(n_pol=2, gain=g.copy()); cfg = dict(cal_amp_degree_fit=c["deg"][0], cal_phase_degree_fit=c["deg"][1], flag_calibration_frequencies=c["ff"])
    tu, fu = b["tile_use"].copy(), b["freq_use"].copy(); fu0 = fu.copy()
    edge = [False]

    def above(v, thr):
        edge[0] |= bool(np.any(np.abs(v - thr) < 1e-6 * np.maximum(np.abs(thr), 1e-9)))
        return v > thr
    for pol in range(2):
        ti, fi = np.nonzero(tu)[0], np.nonzero(fu)[0]
        a = np.abs(g[pol][np.ix_(fi, ti)])
        ff = a.std(axis=1)
        res = np.array([a[:, j] - np.polyval(polyfit(fi, a[:, j], c["deg"][0])[::-1], fi) for j in range(ti.size)])
        tf, avg = res.std(axis=1), np.median(a, axis=0)
        level = above(np.median(avg) / 2, avg) | above(avg, 2 * np.median(avg))
        fg, tg, cut = np.ones(fi.size, bool), np.ones(ti.size, bool), 0
        for it in range(3):
            fc = above(ff - np.median(ff[fg]), 5 * ff[fg].std())
            tc = above(tf - np.median(tf[tg]), 5 * tf[tg].std()) | level
            fg &= ~fc; tg &= ~tc
            if fc.sum() + tc.sum() <= cut:
                break
            cut = fc.sum() + tc.sum()
        fu[fi[fc]] = 0; tu[ti[tc]] = 0
        ti, fi = np.nonzero(tu)[0], np.nonzero(fu)[0]
        sl, sg = np.zeros(ti.size), np.zeros(ti.size)
        for j, x in enumerate(ti):
            u = unwrap(np.angle(g[pol][fi, x])); co = polyfit(fi, u, c["deg"][1])
            sl[j], sg[j] = abs(co[1]), np.std(u - np.polyval(co[::-1], fi))
        sgn = np.array([polyfit(fi, unwrap(np.angle(g[pol][fi, x])), c["deg"][1])[1] for x in ti])
        tu[ti[above(sl - np.median(sl), 5 * sgn.std()) | above(sg - np.median(sg), 5 * sg.std())]] = 0
    if edge[0]:
        return r
    out = vis_calibration_flag(obs, cal, cfg, NullLogger()); r.steps += 1
    o = out["baseline_info"]
    ef = fu if c["ff"] else fu0
    r.expect(np.array_equal(np.asarray(o["tile_use"]) > 0, tu > 0), "tiles", lambda: f"cut tiles {np.nonzero(np.asarray(o['tile_use']) == 0)[0]}, expected {np.nonzero(tu == 0)[0]}")
    r.expect(np.array_equal(np.asarray(o["freq_use"]) > 0, ef > 0), "channels", lambda: f"cut channels {np.nonzero(np.asarray(o['freq_use']) == 0)[0]}, expected {np.nonzero(ef == 0)[0]}")
    r.expect(np.array_equal(cal["gain"], g, equal_nan=True), "gains", "the gains changed")
    r.out = [tu, ef]; r.nontrivial = int(tu.sum()) < n - len(c["pre"]) or int(ef.sum()) < nf - len(c["pre"])
    return r
