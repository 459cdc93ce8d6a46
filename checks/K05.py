"""K05: auto-correlations are extracted, and turned into gains and ratios, as defined."""
import copy, itertools, warnings
import numpy as np
import fx
from ref import resistant
from vf import Result, close, diff
from PyFHD.calibration.calibration_utils import vis_extract_autocorr, vis_cal_auto_init, vis_cal_auto_fit, cal_auto_ratio_divide, cal_auto_ratio_remultiply

ID, LEVEL = "K05", "exploration"
RULE = ("every subset of tiles with auto-correlations, every pattern of used times, time averaging, polarisation counts, row orders, used channels and tiles without signal; extracted "
        "auto-correlations, start gains, fitted gains and ratios compared with their definitions sample by sample; non-trivial: some tile has no auto-correlation or a time or channel is cut")
ASSUMPTIONS = ["one row per tile and time, times in order", "auto-correlations of zero or positive power; at least one time in use"]


def cases(tier):
    t = tier == "thorough"
    for n in (2, 3, 4) if not t else (2, 3, 4, 5):
        for autos in itertools.product((0, 1), repeat=n):
            for nt in (1, 2, 3):
                for tu in itertools.product((0, 1), repeat=nt):
                    if not any(tu):
                        continue
                    for avg in (False, True):
                        for np_ in (1, 2, 4):
                            for order in ((0, 1) if np_ == 2 or t else (0,)):
                                yield dict(n=n, autos=list(autos), tu=list(tu), avg=avg, np=np_, order=order, fu="111111111", zero=-1, ref=1)
    for fu in itertools.product("01", repeat=7 if not t else 9):
        if sum(int(fu[i]) and fu[max(i - 1, 0):i + 2].count("0") == 0 for i in range(len(fu))) >= 2:
            for avg in (False, True):
                yield dict(n=3, autos=[1, 1, 1], tu=[1, 1], avg=avg, np=2, order=0, fu="".join(fu) if t else "1" + "".join(fu) + "1", zero=-1, ref=0)
    for n in (3, 5):
        for zero in range(n):
            for ref in range(n):
                for miss in range(-1, n):
                    for avg in (False, True):
                        yield dict(n=n, autos=[int(i != miss) for i in range(n)], tu=[1, 1], avg=avg, np=2, order=1, fu="111111011", zero=zero, ref=ref)
    # a channel without model power, or without a solution, for some tile
    for n in (3, 4):
        for tile in range(n):
            for ch in range(9):
                for what in ("model", "gain", "both"):
                    for avg in (False, True):
                        for fu in ("111111111", "111111011"):
                            yield dict(n=n, autos=[1] * n, tu=[1, 1], avg=avg, np=2, order=0, fu=fu, zero=-1, ref=(tile + 1) % n, hole=[tile, ch, what])


def check(c):
    r = Result(); n, nt, P = c["n"], len(c["tu"]), c["np"]; nf = len(c["fu"])
    pairs = [(a, b) for a in range(1, n + 1) for b in range(a, n + 1) if a != b or c["autos"][a - 1]]
    if c["order"]: pairs = sorted(pairs, key=lambda p: (7 * p[0] + 5 * p[1]) % 11)
    obs, _ = fx.obs_params(n_tile=n, n_freq=nf, n_time=nt, n_pol=P, pairs=pairs)
    b = obs["baseline_info"]; b["time_use"] = np.array(c["tu"]); b["freq_use"] = np.array([int(x) for x in c["fu"]])
    D = fx.vis(obs, 3); M = fx.vis(obs, 8)
    A, B = b["tile_a"] - 1, b["tile_b"] - 1
    au = A == B; nc = min(P, 2)
    if c["zero"] >= 0:
        for v in (D, M): v[:, :, au & (A == c["zero"])] = 0
    tile, ch, what = c.get("hole", (-1, 0, ""))
    if what in ("model", "both"): M[:, ch, au & (A == tile)] = 0
    D0, M0 = D.copy(), M.copy()
    cfg = dict(cal_time_average=c["avg"])
    va, ti = vis_extract_autocorr(obs, D, cfg); vm, ti2 = vis_extract_autocorr(obs, M, cfg); r.steps += 2
    r.expect(np.array_equal(D, D0) and np.array_equal(M, M0), "inputs altered", "visibilities changed")
    r.nontrivial = not (all(c["autos"]) and all(c["tu"]) and b["freq_use"].all())
    if not au.any():
        r.expect(ti.size == 0, "no autos", lambda: f"tiles {ti} for an observation without auto-correlations")
        r.out = 0
        return r
    rows = np.nonzero(au)[0]
    if c["avg"]:
        et = sorted(set(A[rows])); times = [t for t in range(nt) if c["tu"][t]]
        mean = lambda v: np.stack([np.mean([v[:, :, rows[A[rows] == x][t]].real for t in times], axis=0) for x in et], axis=2)
        ed, em = mean(D), mean(M)
    else:
        et = list(A[rows]); ed, em = D[:, :, rows].real, M[:, :, rows].real
    r.expect(list(ti) == et and list(ti2) == et, "tiles", lambda: f"{ti}, expected {et}")
    if not r.expect(close(va, ed) and close(vm, em), "autos", lambda: diff(va, ed)):
        return r
    # the value a tile's auto-correlation has in what follows (the last time unless averaged)
    last = {x: max(i for i, y in enumerate(et) if y == x) for x in et}
    gain = (1 + .3 * np.cos(np.arange(nc * nf * n).reshape(nc, nf, n) * 1.7)) * np.exp(1j * np.sin(2.3 * np.arange(nc * nf * n).reshape(nc, nf, n)))
    if what in ("gain", "both"): gain[:, ch, tile] = np.nan
    fr = np.nonzero(b["freq_use"])[0]
    cal = dict(n_pol=nc, gain=gain.copy(), ref_antenna=c["ref"])
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        init = vis_cal_auto_init(obs, cal, D, M, va, vm, ti); r.steps += 1
    q = np.ones((nc, nf, n))
    for x, i in last.items():
        for p in range(nc):
            q[p, :, x] = [np.sqrt(d / m) if m else 0 for d, m in zip(ed[p, :, i], em[p, :, i])]
    exp = np.ones((nc, nf, n))
    for p in range(nc):
        s = np.sqrt(resistant(np.abs(D[p, fr])) / resistant(np.abs(M[p, fr])))
        exp[p] = np.where(q[p] > 0, q[p] * s / q[p].mean(), 1)
    r.expect(init.shape == exp.shape and close(init, exp), "start gains", lambda: diff(init, exp))
    # fit of the cross gains by the auto gains
    live = [x for x in last if x != c["zero"]]
    ok = [f for f in range(nf) if all(b["freq_use"][j] for j in range(max(f - 1, 0), min(f + 2, nf)))]
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cf = vis_cal_auto_fit(obs, dict(cal, gain=gain.copy()), va, vm, ti); r.steps += 1
    eg, sl, of = gain.copy(), np.zeros((nc, n)), np.zeros((nc, n))
    for p in range(nc):
        for x in live:
            use = [f for f in ok if not np.isnan(gain[p, f, x])]
            X, Y = q[p, use, x], np.abs(gain[p, use, x])
            d = X - X.mean(); sl[p, x] = np.sum(d * (Y - Y.mean())) / np.sum(d * d); of[p, x] = Y.mean() - sl[p, x] * X.mean()
            eg[p, :, x] = (q[p, :, x] * sl[p, x] + of[p, x]) * gain[p, :, x] / np.abs(gain[p, :, x])
            neg = q[p, :, x] * sl[p, x] + of[p, x] < 0  # an amplitude below zero has no phase to keep
            eg[p, neg, x] = cf["gain"][p, neg, x]
    sel = [x for x in range(n) if x != c["zero"]]
    r.expect(what not in ("gain", "both") or np.isnan(cf["gain"][:, ch, tile]).all(), "no solution", "a gain appears where there was none")
    for v in (cf["gain"], eg, gain): v[np.isnan(gain)] = 0
    r.expect(close(cf["gain"][:, :, sel], eg[:, :, sel], rtol=1e-7), "fitted gains", lambda: diff(cf["gain"][:, :, sel], eg[:, :, sel]))
    pr = cf["auto_params"]
    r.expect(close(pr[0][:, sel], of[:, sel], rtol=1e-6) and close(pr[1][:, sel], sl[:, sel], rtol=1e-6), "fit parameters", lambda: diff(pr[1], sl))
    if True:
        r.expect(close(cf["auto_scale"], sl.sum(axis=1) / len(last), rtol=1e-6), "scale", lambda: f"{cf['auto_scale']}, expected {sl.sum(axis=1) / len(last)}")
    # ratios to the reference tile
    ref = c["ref"] if c["ref"] in last else None
    c2 = dict(cal, gain=gain.copy())
    with np.errstate(all="ignore"):
        c2, ratio = cal_auto_ratio_divide(obs, c2, va, ti); r.steps += 1
    if ref is not None and ref != c["zero"]:
        er = np.ones((nc, nf, n))
        for x, i in last.items():
            er[:, :, x] = np.sqrt(ed[:nc, :, i] / ed[:nc, :, last[ref]])
        r.expect(close(ratio, er), "ratio", lambda: diff(ratio, er))
        with np.errstate(all="ignore"):
            e2 = np.where(er > 0, gain / er, 0)
        r.expect(close(c2["gain"], e2), "divided gains", lambda: diff(c2["gain"], e2))
        c3 = cal_auto_ratio_remultiply(copy.deepcopy(c2), ratio, ti); r.steps += 1
        r.expect(close(c3["gain"][:, :, sel], gain[:, :, sel]), "remultiplied", lambda: diff(c3["gain"][:, :, sel], gain[:, :, sel]))
    r.out = [ed, exp, eg]
    return r
