"""K01: the calibration solver recovers the tile gains that made the data."""
import copy, itertools
import numpy as np
import fx
from vf import Result, NullLogger, close, diff
from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine

ID, LEVEL = "K01", "exploration"
RULE = ("data made from a model and known gains for every combination of array size, times, polarisations, time averaging, gain pattern, solver option and every pattern of flags "
        "(each tile, each pair of tiles, each channel, each tile in one channel, fractional, large and negative weights, baseline windows); the solved gains are compared with the true ones "
        "referenced to the reference tile, and must not depend on flagged data, and with noise each is the least-squares fit given the others; non-trivial: something is flagged or cut")
ASSUMPTIONS = ["weights of tiles out of use are zero (as vis_weights_update leaves them)",
               "solutions are compared where the usable baselines determine them (connected, with an odd cycle or an auto-correlation)"]
CFG = dict(min_cal_baseline=None, max_cal_baseline=None, cal_time_average=False, max_cal_iter=200, cal_convergence_threshold=1e-9,
           cal_adaptive_calibration_gain=False, cal_base_gain=1.0, cal_phase_fit_iter=4)


def cases(tier):
    seen = set()
    for c in _cases(tier):
        k = tuple(c.items())
        if k not in seen:
            seen.add(k); yield c


def _cases(tier):
    t = tier == "thorough"
    flags = lambda n: (["none", "half", "big", "neg1"] + [f"tile{i}" for i in range(n)] + [f"use{i}" for i in range(n)] + ["chan0", "chan2", "chanuse1", "allchan"]
                       + [f"one{i}" for i in range(n)] + ["window", "minbl", "maxbl", "obsmin", "obsmax", "plane", "pol1"]
                       + [f"pair{i}_{j}" for i, j in itertools.combinations(range(n), 2)])
    for n in (6, 7) if not t else (5, 6, 7, 9, 12):
        for nt, avg in ((1, False), (2, False), (2, True), (3, True)) if not t else ((1, False), (1, True), (2, False), (2, True), (3, False), (3, True), (5, True)):
            for autos in (False, True):
                for np_ in (1, 2):
                    for f in flags(n):
                        if np_ == 1 and (f == "pol1" or (not t and f.startswith("pair"))):
                            continue
                        yield dict(n=n, nt=nt, avg=avg, autos=autos, np=np_, f=f, g="mid", opt="base")
    for g in ("unit", "small", "mid", "phase", "amp"):
        for opt in ("base", "adapt", "init2", "phase0", "phase10", "iter3", "swap"):
            for n, nt, avg in ((6, 2, True), (7, 1, False), (8, 2, False)) + (((12, 2, False), (20, 1, False)) if t else ()):
                yield dict(n=n, nt=nt, avg=avg, autos=False, np=2, f="none", g=g, opt=opt)


    for n, nt, avg, np_, lev, opt, f in itertools.product((7, 9), (1, 2), (False, True), (1, 2), (0.02, 0.2), ("base", "adapt", "init2", "swap"), ("none", "tile0", "chan0", "one2", "window", "half", "neg1")):
        if t or (n + 4 * avg) * nt % 5 or opt == "base":
            yield dict(n=n, nt=nt, avg=avg, autos=False, np=np_, f=f, g="mid", opt=opt, noise=lev)


def fixed_point(r, c, cal, b, V, M, W, use, a1, b1):
    """each gain is the least-squares fit of its tile given the other tiles' gains"""
    nt = c["nt"]; nb = len(a1)
    for p in range(c["np"]):
        if c["avg"]:
            w = np.clip(W[p], 0, 1)
            v, m = ((x[p] * w).reshape(-1, nt, nb).sum(axis=1) for x in (V, M)); s = w.reshape(-1, nt, nb).sum(axis=1)
            v, m = v / np.maximum(s, 1e-9), m / np.maximum(s, 1e-9)
        else:
            v, m = V[p], M[p]
        for fi in range(V.shape[1]):
            g = cal["gain"][p, fi]
            if not b["freq_use"][fi] or not use[p, fi].any(): continue
            new = np.zeros(c["n"], complex)
            for i in range(c["n"]):
                num = den = 0.0; k = 0
                for q in np.nonzero(use[p, fi])[0]:
                    for u, o, vv, mm in ((a1[q], b1[q], v[fi, q], m[fi, q]), (b1[q], a1[q], np.conj(v[fi, q]), np.conj(m[fi, q]))):
                        if u == i:
                            x = mm * np.conj(g[o]); num += np.conj(x) * vv; den += abs(x) ** 2; k += 1
                new[i] = num / den if k >= 5 and den else g[i]
            new *= np.conj(new[1]) / abs(new[1])
            r.expect(close(g, new, rtol=1e-4), "least squares", lambda: f"polarisation {p} channel {fi}: {diff(g, new)}")
        r.expect(cal["n_converged"][p] == sum(1 for fi in range(V.shape[1]) if b["freq_use"][fi] and use[p, fi].any()), "converged", lambda: f"{cal['n_converged']}")


def check(c):
    r = Result(); n, nt, nf = c["n"], c["nt"], 3
    pairs = None
    if c["opt"] == "swap":  # rows in another order, tiles of some pairs exchanged
        pairs = [(b, a) if (a + b) % 3 == 0 else (a, b) for a in range(1, n + 1) for b in range(a + 1, n + 1)][::-1]
    obs, params = fx.obs_params(n_tile=n, n_freq=nf, n_time=nt, n_pol=c["np"], autos=c["autos"], dim=64, spread=4.0, pairs=pairs)
    b = obs["baseline_info"]; A, B = b["tile_a"] - 1, b["tile_b"] - 1
    M = np.tile(fx.pattern((c["np"], nf, obs["n_baselines"]), 2), (1, 1, nt)) * (1 + 0.2 * fx.pattern((c["np"], nf, A.size), 5))  # changes mildly with time
    M[:, :, A == B] = np.abs(M[:, :, A == B])
    k = np.arange(2 * nf * n).reshape(2, nf, n)[:c["np"]]
    am, ph = {"unit": (0, 0), "small": (0.05, 0.1), "mid": (0.3, 0.8), "phase": (0.0, np.pi), "amp": (0.6, 0.0)}[c["g"]]
    g = (1 + am * np.sin(1.3 * k + 1)) * np.exp(1j * ph * np.sin(2.1 * k + .3)) * 1.4 ** (c["g"] == "amp")
    w = np.ones(M.shape)
    cfg = dict(CFG, cal_time_average=c["avg"])
    f = c["f"]; num = [int(x) for x in "".join(ch if ch.isdigit() else " " for ch in f).split()]
    at = lambda i: (A == i) | (B == i)
    if f == "half": w[:, :, ::2] = 0.5; w[:, 1, ::3] = 0.25
    if f == "big": w[:, :, ::3] = 3.0; w[:, 1, ::5] = 0.25
    if f == "neg1": w[:, :, 3] = -1; w[0, 1, 5] = 0
    if f.startswith("tile"): w[:, :, at(num[0])] = -1
    if f.startswith("use"): w[:, :, at(num[0])] = 0; b["tile_use"][num[0]] = 0
    if f.startswith("pair"): w[:, :, at(num[0]) | at(num[1])] = 0; b["tile_use"][num[0]] = 0
    if f in ("chan0", "chan2"): w[:, num[0]] = 0
    if f == "chanuse1": w[:, 1] = 0; b["freq_use"][1] = 0
    if f == "allchan": w[:, 0] = 0; b["freq_use"][2] = 0
    if f.startswith("one"): w[:, 1, at(num[0])] = 0
    if f == "pol1": w[1, :, at(2)] = 0
    lam = np.outer(b["freq"], np.hypot(params["uu"], params["vv"]))
    x, y = np.outer(b["freq"], np.abs(params["uu"])) / obs["kpix"], np.outer(b["freq"], np.abs(params["vv"])) / obs["kpix"]
    q = lambda p: float(np.quantile(lam[0], p)) * 1.0001
    if f == "window": cfg["min_cal_baseline"], cfg["max_cal_baseline"] = q(.12), q(.93)
    if f == "minbl": obs["min_baseline"] = q(.15); cfg["min_cal_baseline"] = q(.05)
    if f == "obsmin": obs["min_baseline"] = q(.15)
    if f == "obsmax": obs["max_baseline"] = q(.9)
    if f == "maxbl": obs["max_baseline"] = q(.9); cfg["max_cal_baseline"] = q(.97)
    if f == "plane": obs["dimension"] = obs["elements"] = int(np.quantile(np.maximum(x, y)[0], .92) * 2)
    opt = c["opt"]; init = 1.0
    if opt == "adapt": cfg["cal_adaptive_calibration_gain"] = True; cfg["cal_base_gain"] = 0.75
    if opt == "init2": init = 2.0
    if opt == "phase0": cfg["cal_phase_fit_iter"] = 1
    if opt == "phase10": cfg["cal_phase_fit_iter"] = 10
    if opt == "iter3": cfg["max_cal_iter"] = 3
    V = M * g[:, :, A] * np.conj(g[:, :, B])
    cut = w <= 0
    if "noise" in c: V = V + c["noise"] * fx.pattern(V.shape, 11)

    def solve(V, M):
        cal = dict(n_pol=c["np"], gain=np.full((c["np"], nf, n), init, dtype=complex), ref_antenna=1, ref_antenna_name="21")
        o = copy.deepcopy(obs); ww = w.copy()
        cal = vis_calibrate_subroutine(V, M, ww, o, cal, params, cfg, NullLogger()); r.steps += 1
        return cal, ww
    V0, M0 = V.copy(), M.copy()
    cal, ww = solve(V, M)
    r.expect(np.array_equal(V, V0) and np.array_equal(M, M0), "inputs altered", "data or model visibilities changed")
    # usable samples
    lo = max(obs["min_baseline"], cfg["min_cal_baseline"] or 0); hi = min(obs["max_baseline"], cfg["max_cal_baseline"] or np.inf)
    W = np.clip(w, 0, 1); a1, b1 = A, B
    if c["avg"]:
        nb = obs["n_baselines"]
        W = W.reshape(c["np"], nf, nt, nb).sum(axis=2); lam, x, y = lam[:, :nb], x[:, :nb], y[:, :nb]; a1, b1 = A[:nb], B[:nb]
    ok = (lam >= lo) & (lam <= hi) & (x <= obs["elements"] / 2) & (y <= obs["dimension"] / 2)
    use = (W > 0) & ok
    nanch, got_all = [], []
    last_ref = None
    if "noise" in c:
        fixed_point(r, c, cal, b, V, M, w, use, a1, b1)
        r.out = cal["gain"]
    for p in range(c["np"] if "noise" not in c else 0):
        exp = np.full((nf, n), init, dtype=complex); cmp_ = np.ones((nf, n), dtype=bool)
        tiles = [i for i in range(n) if b["tile_use"][i] and use[p][:, (a1 == i) | (b1 == i)].any()]
        dead = [i for i in range(n) if not b["tile_use"][i] and not use[p][:, (a1 == i) | (b1 == i)].any()]
        ref = 1 if 1 in tiles else tiles[0]
        last_ref = ref
        for fi in range(nf):
            if not (b["freq_use"][fi] and use[p, fi].any()):
                continue
            eq = [int(np.sum(use[p, fi] & (a1 == i)) + np.sum(use[p, fi] & (b1 == i))) for i in range(n)]
            live = [i for i in tiles if eq[i] >= 5]
            if ref not in live:
                exp[fi, tiles] = 0; nanch.append((p, fi))  # no phase reference: the channel is given up
                continue
            # two-colour the graph of usable baselines to see whether it determines the gains
            edges = [(i, j) for i, j in zip(a1[use[p, fi]], b1[use[p, fi]]) if i in live and j in live]
            col, odd, todo = {ref: 0}, False, [ref]
            while todo:
                i = todo.pop()
                for s, t in edges:
                    for u, v in ((s, t), (t, s)):
                        if u == i:
                            if v not in col:
                                col[v] = 1 - col[i]; todo.append(v)
                            elif col[v] == col[u]:
                                odd = True
            for i in tiles:
                if i not in live:
                    exp[fi, i] = 0
                elif i in col and odd:
                    exp[fi, i] = g[p, fi, i] * np.conj(g[p, fi, ref]) / abs(g[p, fi, ref])
                else:
                    cmp_[fi, i] = False
        exp[:, dead] = np.nan
        got = cal["gain"][p]
        if opt == "iter3":
            r.expect(np.isfinite(got).all() and abs(got[:, ref].imag).max() < 1e-12, "few iterations", "gains not finite or reference phase not zero")
        else:
            r.expect(close(np.where(cmp_, got, 0), np.where(cmp_, exp, 0), rtol=1e-4), "gains", lambda: f"polarisation {p}: {diff(np.where(cmp_, got, 0), np.where(cmp_, exp, 0))}")
        got_all.append(np.where(cmp_, exp, 0))
    r.expect("noise" in c or cal["ref_antenna"] == last_ref, "reference", lambda: f"reference antenna {cal['ref_antenna']}, expected {last_ref}")
    ew = w.copy()
    for p, fi in nanch:
        ew[p, fi] = 0
    r.expect("noise" in c or np.array_equal(ww, ew), "weights", lambda: diff(ww, ew))
    ul = use[-1].copy()
    for p, fi in nanch:
        if p == c["np"] - 1:
            ul[fi] = False
    r.expect("noise" in c or cal["n_vis_cal"] == ul.sum(), "count", lambda: f"{cal['n_vis_cal']} visibilities, expected {ul.sum()}")
    # flagged samples must not matter
    if cut.any():
        V2, M2 = V.copy(), M.copy()
        V2[cut] = 1e3 * (2 + np.arange(cut.sum())) * np.exp(1j * np.arange(cut.sum())); M2[cut] = -V2[cut] * 1j
        cal2, _ = solve(V2, M2)
        r.expect(close(cal2["gain"], cal["gain"], rtol=1e-9), "flagged data", lambda: f"gains depend on flagged data: {diff(cal2['gain'], cal['gain'])}")
    r.out = got_all or r.out; r.nontrivial = "noise" in c or bool(cut.any()) or f in ("window", "minbl", "maxbl", "obsmin", "obsmax", "plane")
    return r
