"""G03: statistical flagging removes the outlying tiles, channels and times and nothing else."""
import copy, itertools
import numpy as np
import fx
from vf import Result, NullLogger, close, diff
from PyFHD.flagging.flagging import vis_flag

ID, LEVEL = "G03", "exploration"
RULE = ("every position and strength of an outlying (or empty) tile, channel and time step, alone and in pairs, for several array sizes, polarisation counts and "
        "baseline windows; weights, use flags and visibility count are compared with a reference of the two-pass n-sigma rule; non-trivial: something is cut")
ASSUMPTIONS = ["each kept tile, channel and time has more than 10 good samples; decisions within rounding of a threshold are not compared"]
NS = 3


def cases(tier):
    t = tier == "thorough"
    for nt, np_, nf in ([(2, 2, 8), (3, 2, 24), (2, 1, 12)] if not t else [(2, 2, 8), (3, 2, 24), (4, 2, 60), (2, 1, 12), (2, 4, 45), (1, 2, 20)]):
        ntile = 14
        what = [None] + [["tile", i, s] for i in ((0, 1, 6, ntile - 1) if not t else range(ntile)) for s in (6.0, 0.0)]
        what += [["chan", i, s] for i in sorted({0, 1, nf // 2, nf - 1} if not t else set(range(0, nf, 3)) | {nf - 1}) for s in (8.0, 0.0)]
        what += [["time", i, s] for i in range(nt) for s in (30.0, 0.0)]
        for a, b in itertools.combinations_with_replacement(range(len(what)), 2):
            if a and (a == b or what[a][:2] == what[b][:2]):
                continue
            for win in ((0,) if not t else (0, 1)):
                for neg in ((0, 1) if a == 0 else (0,)):
                    yield dict(nt=nt, np=np_, nf=nf, a=what[a], b=what[b], win=win, neg=neg)
    for a in range(45 if not t else 60):
        yield dict(nt=2, np=2, nf=5, a=["many", a % 40, 40.0 if a < 40 else 0.0], b=None, win=1, neg=a % 2)


    for nt, nf, i, s in itertools.product((39, 56) if t else (41,), (4,), range(41 if not t else 39), (4.0, 30.0, 0.0) if t else (6.0,)):      # enough times for one to stand out
        yield dict(nt=nt, np=2, nf=nf, a=["time", i, s], b=None, win=i % 2, neg=i % 3 == 0, tiles=6)
    for nf, i, s in itertools.product((45,), range(0, 45, 4 if not t else 1), (12.0, 0.0)):
        yield dict(nt=2, np=2, nf=nf, a=["chan", i, s], b=["time", 1, 0.0] if i % 3 == 0 else None, win=0, neg=i % 2, tiles=8)
    # strengths through all thresholds, alone and beside one that a first pass finds
    S = [round(1.02 * 1.17 ** k, 4) for k in range(26)] if not t else [round(1.01 * 1.06 ** k, 4) for k in range(72)]
    for kind, nt, np_, nf, tiles in (("tile", 2, 2, 5, 40), ("tile", 1, 4, 6, 45), ("chan", 2, 2, 45, 8), ("chan", 1, 4, 60, 8), ("chan", 2, 1, 100, 6), ("time", 41, 2, 4, 6), ("time", 46, 4, 3, 6), ("time", 8, 2, 4, 8), ("chan", 2, 4, 12, 8), ("tile", 2, 4, 4, 9)):
        n = dict(tile=tiles, chan=nf, time=nt)[kind]
        for k, x in enumerate(S):
            for other in (None, [kind, n - 2, 60.0], [kind, n - 2, 0.0], [kind, n // 2, round(x * 0.6, 4)]):
                for down in (0, 1):
                    yield dict(nt=nt, np=np_, nf=nf, a=[kind, (3 * k + 1) % (n // 3), round(1 / x, 4) if down else x], b=other, win=k % 2, neg=k % 3 == 0, tiles=tiles)
    for kind, nt, np_, nf, tiles in (("tile", 2, 2, 5, 40), ("time", 46, 2, 3, 6), ("chan", 2, 2, 18, 8)):  # two groups, so that what is left out moves the median
        for x, o, k in itertools.product(S, (60.0, 0.0), (0, 1)):
            n = dict(tile=tiles, chan=nf, time=nt)[kind]
            yield dict(nt=nt, np=np_, nf=nf, a=[kind, n // 2 - k, x], b=[kind, n - 1 - k, o], win=0, neg=0, tiles=tiles, two=kind)


def build(c):
    many = c["a"] and c["a"][0] == "many"
    nt = 40 if many else c.get("tiles", 14)
    obs, params = fx.obs_params(n_tile=nt, n_freq=c["nf"], n_time=c["nt"], n_pol=c["np"], autos=False, spread=10.0)
    v = fx.vis(obs); b = obs["baseline_info"]
    w = np.ones(v.shape)
    off = list(b["bin_offset"]) + [v.shape[2]]
    two = c.get("two")
    if two == "time":
        for i in range(1, c["nt"], 2): v[:, :, off[i]:off[i + 1]] *= 1.4
    elif two == "chan":
        v[:, 1::2] *= 1.4
    elif two == "tile":
        v[:, :, (b["tile_a"] + b["tile_b"]) % 2 == 1] *= 1.4
        v[:, :, b["tile_a"] % 2 == 1] *= 1.4
    for x in (c["a"], c["b"]):
        if not x:
            continue
        k, i, s = x
        if k in ("tile", "many"):
            m = (b["tile_a"] == i + 1) | (b["tile_b"] == i + 1)
            if s: v[:, :, m] *= s
            else: w[:, :, m] = 0
        elif k == "chan":
            if s: v[:, i] *= s
            else: w[:, i] = 0
        else:
            if s: v[:, :, off[i]:off[i + 1]] *= s
            else: w[:, :, off[i]:off[i + 1]] = -1
    if c["neg"]:
        w[:, :, ::7] = -1; v[:, 2, ::5] = 0
    L = np.hypot(params["uu"], params["vv"]) * sorted(b["freq"])[len(b["freq"]) // 2]
    if c["win"]:
        u = np.unique(np.round(L, 6)); k = max(len(u) // 10, 1)       # between two lengths
        obs["min_baseline"], obs["max_baseline"] = (u[k - 1] + u[k]) / 2, (u[-k - 1] + u[-k]) / 2
    return obs, params, v, w, L


def filt(x, width):
    if width <= 1:
        return x.copy() if width == 1 else None
    from scipy.ndimage import median_filter
    out = x.copy(); h = width // 2
    out[h:-h] = median_filter(x, size=width)[h:-h]
    return out


def umed(x):
    return np.sort(x)[len(x) // 2]


def reference(v, w, obs, L):
    """Returns (weights, tile_use, freq_use, doubtful)"""
    b = obs["baseline_info"]; w = w.copy(); n_pol, nf, nb = w.shape; doubt = False
    A, B = b["tile_a"], b["tile_b"]
    amp = np.abs(v[0]) if n_pol == 1 else np.hypot(np.abs(v[0]), np.abs(v[1]))
    w[:, :, (L < obs["min_baseline"]) | (L > obs["max_baseline"])] = 0
    P = min(n_pol, 2)

    def spread(sub, ws, zero_ok=False):
        tot = 0.0
        for p in range(P):
            sel = ws[p] > 0
            if not zero_ok:
                sel &= sub > 0
            if sel.sum() > 10:
                tot += np.std(sub[sel])
        return tot
    ntile = max(A.max(), B.max())
    tf = np.array([spread(np.concatenate([amp[:, A == k], amp[:, B == k]], axis=1), np.concatenate([w[:, :, A == k], w[:, :, B == k]], axis=2)) for k in range(1, ntile + 1)])
    ff = np.array([spread(amp[f], w[:, f]) for f in range(nf)])

    def cut(fom, centre1, dev1, second, k1, k2):
        nonlocal doubt
        q = np.abs(centre1 - fom)
        core = (q <= k1 * dev1) & (fom != 0)
        c2, d2 = second(core)
        z = np.abs(c2 - fom)
        doubt |= bool(np.any(np.abs(q - k1 * dev1) < 1e-9 * (1 + dev1)) or np.any(np.abs(z - k2 * d2) < 1e-9 * (1 + d2)))
        return (z > k2 * d2) | (fom == 0)
    tcut = cut(tf, umed(tf[tf != 0]), np.std(tf[tf != 0]), lambda core: (umed(tf[core]), np.std(tf[core])), 2 * NS, NS)
    wid = nf // 20
    fm = np.zeros(nf); nz = ff != 0
    fm[nz] = filt(ff[nz], wid) if wid else umed(ff[nz])
    f2 = filt(ff, wid) if wid else umed(ff)
    fcut = cut(ff, fm, np.std((ff - fm)[nz]), lambda core: (f2, np.std((ff - f2)[core])), 2 * NS, NS)
    for k in np.nonzero(tcut)[0] + 1:
        w[:, :, (A == k) | (B == k)] = 0
    w[:, fcut] = 0
    off = list(b["bin_offset"]) + [nb]
    mf = np.array([spread(amp[:, off[t]:off[t + 1]], w[:, :, off[t]:off[t + 1]], True) for t in range(len(b["time_use"]))])
    mz = mf[mf != 0]
    mcut = cut(mf, umed(mz), np.std(mz), lambda core: (umed(mf[core]), np.std(mf[core])), 2 * NS, 2 * NS)
    for t in np.nonzero(mcut)[0]:
        w[:, :, off[t]:off[t + 1]] = 0
    tu, fu = b["tile_use"].copy(), b["freq_use"].copy()
    tu[:ntile][tcut] = 0; fu[fcut] = 0
    return w, tu, fu, doubt


def check(c):
    r = Result(); log = NullLogger()
    obs, params, v, w, L = build(c)
    try:
        ew, et, ef, doubt = reference(v, w, obs, L)
    except IndexError:
        r.nontrivial = False
        return r  # nothing left to take a median of
    v0, w0 = v.copy(), w.copy()
    gw, go = vis_flag(v, w, obs, params, log); r.steps = 1
    r.expect(np.array_equal(v, v0), "data altered", "the visibilities changed")
    r.out = [ew, et, ef]
    if doubt:
        return r
    gb = go["baseline_info"]
    r.expect(np.array_equal(gb["tile_use"], et), "tile_use", lambda: diff(gb["tile_use"], et))
    r.expect(np.array_equal(gb["freq_use"], ef), "freq_use", lambda: diff(gb["freq_use"], ef))
    r.expect(np.array_equal(gw, ew), "weights", lambda: diff(gw, ew))
    r.expect(go["n_vis"] == int((ew[0] > 0).sum()), "n_vis", lambda: f"{go['n_vis']} expected {int((ew[0] > 0).sum())}")
    r.nontrivial = not np.array_equal(ew, w0)
    return r
