"""K11: the calibration solver iterates, and stops, as documented."""
import itertools
import numpy as np
import fx
from vf import Result, NullLogger, close, diff
from PyFHD.calibration.vis_calibrate_subroutine import vis_calibrate_subroutine

ID, LEVEL = "K11", "model_checking"
RULE = ("a transition system of the solver (state: gains, weights of the averages and convergence of every iteration so far; one step per iteration) is run for every combination of noise, starting gains, base and "
        "adaptive gain, threshold, number of phase-only iterations and pattern of flags; each of its traces is replayed on the implementation with every allowed number of iterations, so that the gains "
        "after every iteration, the iteration it stops at and the convergence it reports are compared; non-trivial: stops before the last iteration, or diverges")
ASSUMPTIONS = ["weights of tiles out of use are zero", "stopping is compared where no quantity is within rounding of its threshold",
               "where an iteration is no better than the last but both are good enough, either is accepted"]


def cases(tier):
    t = tier == "thorough"
    base = dict(n=6, nt=1, avg=False, f="none", nf=2)
    for noise, init, bg, ad, th, pf in itertools.product((0, .05, .6, 1.5, 3.0), ("one", "tenth", "five", "mix"), (1.0, .6, 1.5, 3) if not t else (1.0, .6, .8, 1.5, 2, 3), (False, True),
                                                         (1e-3, .01, .3) if not t else (1e-7, 1e-3, 3e-3, .01, .1, .3), (0, 1, 3) if not t else (0, 1, 2, 3, 5, 7)):
        if noise == 0 and pf == 1: continue
        yield dict(base, noise=noise, init=init, bg=bg, ad=ad, th=th, pf=pf)
    for f, n, nt, avg, noise, init, ad in itertools.product(("one3", "tiny", "nanm", "nomodel2", "nodata", "zerorow", "tile0", "tile1", "neg", "half"), (6, 7), (1, 2), (False, True), (.05, .6), ("one", "mix"), (False, True)):
        yield dict(base, n=n, nt=nt, avg=avg, f=f, noise=noise, init=init, bg=1.0, ad=ad, th=3e-3, pf=2)


class Close(Exception):
    pass


def adaptive(G, C, i, base):
    if i < 3: return base
    d = (0 * G[i - 1] + C[i - 2]) / (base + G[i - 1])
    x = (d - C[i - 1]) / d
    return max(base / 2, (1 - abs(x) + G[i - 1]) / 2)


def trace(eqs, g0, ref, base, ad, th, pf, K):
    """eqs: per tile, list of (other, data, model); returns final gains (or two acceptable ones), last iteration, convergence, whether converged, how it stopped"""
    n = len(g0); g = g0.copy(); sure = True
    for i in range(n):
        if len(eqs[i]) < 5: g[i] = 0
    C, G, loose, loose_prev = [], [], 0.0, 0.0
    rel = lambda a, b: np.array([abs(x - y) / abs(y) if y else 0 for x, y in zip(a, b)])

    def less(a, b, eq):  # a < b (or a <= b), remembering whether that is clear-cut
        nonlocal sure
        if abs(a - b) <= 1e-6 * max(abs(a), abs(b)) or max(abs(a), abs(b)) < 1e-11: sure = False
        return a <= b if eq else a < b
    for it in range(K):
        loose_prev, old, new = loose, g, np.zeros(n, complex)
        for i in range(n):
            if len(eqs[i]) >= 5:
                x = np.array([m * np.conj(g[o]) for o, v, m in eqs[i]]); v = np.array([v for o, v, m in eqs[i]])
                den = np.sum(np.abs(x) ** 2)
                new[i] = np.sum(np.conj(x) * v) / den if den else 0
        if not np.abs(new).any():
            return [new], it, rel(new, old), False, "nothing", sure
        if it < pf: new = np.array([z / abs(z) * abs(o) if z else 0 for z, o in zip(new, old)])
        a = adaptive(G, C, it, base) if ad else base
        G.append(a)
        g = (a * new + base * old) / (base + a)
        for i in range(n):
            if less(abs(g[i]) / abs(old[i]) if old[i] else 0, abs(old[i]) / 2, False): g[i] = (new[i] + 2 * old[i]) / 3
        if not g[ref]: raise Close
        g = g * np.conj(g[ref]) / abs(g[ref])
        d = rel(g, old); C.append(d.max()); loose = d.mean()
        if it > pf + 3:
            if less(C[-1], th, True): return [g], it, d, True, "strict", sure
            if not less(loose, loose_prev, False):
                if less(loose, th, True) or less(loose_prev, th, True): return [g, old], it, None, True, "loose", sure
                last = sorted(C[it - 4:it])
                # the median of an even number of values is the upper of the middle ones
                worse = not less(C[-1], last[len(last) // 2], False)
                if not less(C[-1], 1.5 * min(C[:it]), False) or worse: return [old], it - 1, np.full(n, C[it - 1]), False, "diverged", sure
    return [g], K - 1, d, False, "limit", sure


def check(c):
    r = Result(); n, nt, nf = c["n"], c["nt"], c["nf"]
    obs, params = fx.obs_params(n_tile=n, n_freq=nf, n_time=nt, n_pol=2, autos=False, dim=256, spread=4.0)
    b = obs["baseline_info"]; A, B = b["tile_a"] - 1, b["tile_b"] - 1; nb = obs["n_baselines"]
    M = fx.pattern((2, nf, A.size), 2) * 2
    k = np.arange(2 * nf * n).reshape(2, nf, n)
    gt = (1 + .3 * np.sin(1.3 * k + 1)) * np.exp(.8j * np.sin(2.1 * k + .3))
    V = M * gt[:, :, A] * np.conj(gt[:, :, B]) + c["noise"] * fx.pattern(M.shape, 11)
    w = np.ones(M.shape); f = c["f"]; at = lambda i: (A == i) | (B == i)
    if f == "one3": w[:, 1, at(3)] = 0
    if f == "tiny": w[:, :, 1::3] = 1e-6
    if f == "neg": w[:, :, 2] = -1
    if f == "half": w[:, :, ::2] = .5; w[:, 1, 1::3] = .2
    if f == "tile0": w[:, :, at(0)] = 0; b["tile_use"][0] = 0
    if f == "tile1": w[:, :, at(1)] = 0; b["tile_use"][1] = 0
    if f == "nanm": M[:, 0, 4::7] = np.nan
    if f == "nomodel2": M[:, 0, at(2)] = 0
    if f == "nodata": V[:, 1] = 0
    if f == "zerorow": V[:, :, at(4)] = 0
    init = {"one": np.ones(1), "tenth": np.full(1, .1), "five": np.full(1, 5.0), "mix": (1 + .8 * np.sin(1.9 * k)) * np.exp(1j * np.cos(.7 * k))}[c["init"]] * np.ones((2, nf, n), complex)
    W = np.clip(w, 0, 1)
    if c["avg"]:
        s = lambda x: sum(x[:, :, t * nb:(t + 1) * nb] for t in range(nt))
        ww = s(W)
        inv = np.where(ww > 0, 1 / np.where(ww > 0, ww, 1), 0)
        D, T, a1, b1 = s(V * W) * inv, s(M * W) * inv, A[:nb], B[:nb]
    else:
        ww, D, T, a1, b1 = W, V, M, A, B
    T = np.where(np.isnan(T), 0, T)
    Ks = list(range(1, 13)) + [20, 40]
    outs = []; kinds = set()
    for K in Ks:
        pf = c["pf"] or min(K // 4, 4)
        cfg = dict(min_cal_baseline=None, max_cal_baseline=None, cal_time_average=c["avg"], max_cal_iter=K, cal_convergence_threshold=c["th"], cal_adaptive_calibration_gain=c["ad"],
                   cal_base_gain=c["bg"], cal_phase_fit_iter=c["pf"])
        cal = dict(n_pol=2, gain=init.copy(), ref_antenna=1, ref_antenna_name="21")
        with np.errstate(all="ignore"):
            cal = vis_calibrate_subroutine(V.copy(), M.copy(), w.copy(), obs, cal, params, cfg, NullLogger()); r.steps += 1
        for p in range(2):
            conv, clear = 0, True
            tiles = [i for i in range(n) if b["tile_use"][i] and (ww[p][:, (a1 == i) | (b1 == i)] > 0).any()]
            ref = tiles.index(1) if 1 in tiles else 0
            for fi in range(nf):
                pos = {x: i for i, x in enumerate(tiles)}
                eqs = [[] for _ in tiles]
                for x, y, v, m, q in zip(a1, b1, D[p, fi], T[p, fi], ww[p, fi]):
                    if q > 0 and x in pos and y in pos: eqs[pos[x]].append((pos[y], v, m)); eqs[pos[y]].append((pos[x], np.conj(v), np.conj(m)))
                try:
                    G, it, d, ok, how, sure = trace(eqs, init[p, fi, tiles], ref, c["bg"], c["ad"], c["th"], pf, K)
                except Close:
                    clear = False
                    continue
                r.steps += it; conv += ok; kinds.add(how); clear &= sure
                got = cal["gain"][p, fi, tiles]
                scale = max(np.abs(G[0]).max(), 1e-30)
                if not sure and c["noise"]: continue  # a tie: the two may part ways
                r.expect(any(np.abs(got - x).max() < 1e-6 * scale for x in G), "gains", lambda: f"polarisation {p} channel {fi}, {K} iterations allowed ({how} at {it}): {diff(got, G[0])}")
                if sure:
                    ci = cal["conv_iter"][p, fi, tiles]
                    r.expect((ci == it).all() or how == "loose" and (ci == it - 1).all(), "iteration", lambda: f"polarisation {p} channel {fi}, {K} iterations allowed: stopped at {ci}, expected {it} ({how})")
                    if d is not None: r.expect(np.abs(cal["convergence"][p, fi, tiles] - d).max() <= 1e-6 * max(d.max(), 1e-9), "convergence", lambda: f"{how}: {diff(cal['convergence'][p, fi, tiles], d)}")
                outs.append(G[0])
            if clear: r.expect(cal["n_converged"][p] == conv, "converged", lambda: f"{cal['n_converged'][p]} channels converged, expected {conv} ({K} iterations allowed)")
    r.out = outs; r.nontrivial = bool(kinds - {"limit"})
    return r
