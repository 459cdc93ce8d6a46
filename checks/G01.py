"""G01: basic flagging flags exactly what the data and the options ask for."""
import copy, itertools
import numpy as np
import fx
from vf import Result, NullLogger, close, diff
from PyFHD.flagging.flagging import vis_flag_basic, vis_flag_tiles

ID, LEVEL = "G01", "exploration"
RULE = ("(a) every combination of tile lists, frequency limits, channel-edge flagging, cut times, metadata flags and patterns of weights and zero data on small "
        "observations; (b) channel-edge flagging for every channel count dividing the band; (c) every set of tile names, known or not, given to vis_flag_tiles. "
        "Compared with a set-based reference; non-trivial: something gets flagged or unflagged")
ASSUMPTIONS = ["24 coarse channels of 1.28 MHz (MWA), as the code states"]


def cases(tier):
    t = tier == "thorough"
    # weight patterns: none, one row negative, a whole channel zero, a whole tile negative, channel zero in one polarisation, everything negative
    wpat = ["ok", "row", "chan", "tile", "chan1", "all", "mixed", "chan2"]
    for np_, nt in ([(1, 2), (2, 1), (2, 3), (4, 2)] if not t else [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (4, 2), (4, 3)]):
        for w, names, fs, fe, edge in itertools.product(wpat, [[], ["11"], ["21", "31"], ["99", " 11 "], ["31", "41", "51"]], [None, 180.1], [None, 181.2], [False, True]):
            for tu in ([[]] + [[i] for i in range(nt)] + ([[0, nt - 1]] if nt > 2 else [])):
                for zero in (0, 1, 2) if not names or t else (0, 2):
                    yield dict(part="basic", np=np_, nt=nt, w=w, names=names, fs=fs, fe=fe, edge=edge, tu=tu, zero=zero)
    for nf in [n for n in (24, 25, 36, 40, 48, 60, 84, 100, 72, 96, 120, 144, 192, 240, 288, 384, 576, 768, 1536, 3072) if t or n <= 1536]:
        for fs in (None, 180.5):
            yield dict(part="edge", nf=nf, fs=fs)
    names = ["11", "21", "31", "41", "51", " 21", "12", "1", "", "Tile31", "tile31"]
    for k in range(0, 5 if t else 4):
        for sel in itertools.permutations(names, k) if k < (4 if t else 3) else itertools.combinations(names, k):
            for pairs in ("full", "noauto", "cross"):
                for typ in ("str", "int", "named"):
                    yield dict(part="tiles", sel=list(sel), pairs=pairs, typ=typ)


def reference(w, v, obs, cfg):
    b = obs["baseline_info"]; n_pol, nf, nb = w.shape; w = w.copy(); mhz = b["freq"] / 1e6
    A, B = b["tile_a"], b["tile_b"]
    names = [str(x).strip() for x in b["tile_names"]]
    if cfg["flag_freq_start"]:
        w[:, mhz < cfg["flag_freq_start"]] = 0
    if cfg["flag_freq_end"]:
        w[:, mhz > cfg["flag_freq_end"]] = 0
    for x in cfg["flag_tiles"]:
        if x.strip() in names:
            k = names.index(x.strip()) + 1
            w[:, :, (A == k) | (B == k)] = 0
    if cfg["flag_frequencies"]:
        per = nf / 24.0  # fine channels per coarse channel
        width = int(np.ceil(2 * nf / 768)); coarse = max(int(round(per * 32 / 32)), 1)
        for i in range(nf):
            j = i % coarse
            if j < width or coarse - 1 - j < width:
                w[:, i] = 0
    fuse = np.all([[(w[p, f] > 0).any() for f in range(nf)] for p in range(n_pol)], axis=0)
    tiles = []
    for k in range(1, obs["n_tile"] + 1):
        at = (A == k) | (B == k)
        tiles.append(all((w[p][:, at] > 0).any() for p in range(n_pol)))
    if not cfg["flag_frequencies"]:
        if not fuse.all():
            for p in range(n_pol):
                good = (w[p] > 0).any(axis=0)
                for f in range(nf):
                    if not (w[p, f] > 0).any():
                        w[p, f, good & (np.abs(v[p, f]) > 0)] = 1
        fuse = np.ones(nf, dtype=bool)
    off = list(b["bin_offset"]) + [nb]
    for t, use in enumerate(b["time_use"]):
        if use <= 0:
            w[:, :, off[t]:off[t + 1]] = 0
    return w, fuse & (b["freq_use"] > 0), np.array(tiles) & (b["tile_use"] > 0)


def check(c):
    r = Result(); log = NullLogger()
    if c["part"] == "tiles":
        pr = {"full": None, "noauto": [(1, 2), (1, 3), (2, 4), (3, 4), (4, 5)], "cross": [(2, 1), (3, 1), (5, 2), (4, 4)]}[c["pairs"]]
        obs, params = fx.obs_params(n_tile=5, n_time=2, pairs=pr)
        if c["typ"] == "int":
            obs["baseline_info"]["tile_names"] = obs["baseline_info"]["tile_names"].astype(int)
        b = obs["baseline_info"]
        if c["typ"] == "named":
            b["tile_names"] = np.array(["Tile" + str(x) for x in b["tile_names"]])
        w = np.ones((2, 4, len(b["tile_a"]))) * 0.5
        names = [str(x) for x in b["tile_names"]]
        exp = w.copy()
        for x in c["sel"]:
            if x.strip() in names:
                k = names.index(x.strip()) + 1
                exp[:, :, (b["tile_a"] == k) | (b["tile_b"] == k)] = 0
        got = vis_flag_tiles(obs, w, c["sel"], log); r.steps = 1
        r.expect(close(got, exp), "tiles", lambda: diff(got, exp))
        r.out = exp; r.nontrivial = bool((exp == 0).any())
        return r
    if c["part"] == "edge":
        nf, np_, nt = c["nf"], 2, 1
        obs, params = fx.obs_params(n_tile=3, n_freq=nf, n_time=1, res=30.72e6 / nf)
        cfg = dict(flag_freq_start=c["fs"], flag_freq_end=None, flag_tiles=[], flag_frequencies=True)
        w = np.ones((2, nf, len(params["uu"])))
        v = fx.vis(obs)
    else:
        np_, nt, nf = c["np"], c["nt"], 48
        obs, params = fx.obs_params(n_tile=5, n_freq=nf, n_time=nt, n_pol=np_, res=30.72e6 / 768)
        b = obs["baseline_info"]
        cfg = dict(flag_freq_start=c["fs"], flag_freq_end=c["fe"], flag_tiles=c["names"], flag_frequencies=c["edge"])
        w = np.ones((np_, nf, len(params["uu"]))) * (1 + 0.5 * (np.arange(len(params["uu"])) % 3))
        v = fx.vis(obs)
        t2 = (b["tile_a"] == 2) | (b["tile_b"] == 2)
        if c["w"] in ("row", "mixed"):
            w[:, 5, 1] = -1; w[0, 7, 2] = 0
        if c["w"] in ("chan", "mixed"):
            w[:, 20] = 0; w[:, 4] = -1
        if c["w"] == "chan1":
            w[-1, 21] = 0
        if c["w"] == "chan2":
            w[-2:-1, 21] = 0; w[-2:-1, :, t2] = 0  # in the last polarisation but one only
        if c["w"] in ("tile", "mixed"):
            w[:, :, t2] = -1
        if c["w"] == "all":
            w[:] = -1
        if c["zero"] == 2:
            v[:, 20, ::2] = 0; v[:, 20, 1::2] = 1j * np.abs(v[:, 20, 1::2]); v[:, 4] = np.abs(v[:, 4]); v[0, 21] *= 1e-3
        elif c["zero"]:
            v[:, 20, ::2] = 0; v[0, 4, 1] = 0; b["tile_use"][3] = 0; b["freq_use"][3] = 0
        for t in c["tu"]:
            b["time_use"][t] = 0
    v0 = v.copy(); o0 = copy.deepcopy(obs)
    ew, ef, et = reference(w, v, obs, cfg)
    gw, go = vis_flag_basic(w.copy(), v, obs, cfg, log); r.steps = 1
    gb = go["baseline_info"]
    r.expect(close(gw, ew), "weights", lambda: diff(gw, ew))
    r.expect(np.array_equal(gb["freq_use"], ef.astype(int)), "freq_use", lambda: diff(gb["freq_use"], ef.astype(int)))
    r.expect(np.array_equal(gb["tile_use"], et.astype(int)), "tile_use", lambda: diff(gb["tile_use"], et.astype(int)))
    r.expect(np.array_equal(gb["time_use"], o0["baseline_info"]["time_use"]), "time_use", "time_use changed")
    cnt = (go["n_time_flag"], go["n_tile_flag"], go["n_freq_flag"])
    exp = (int(np.sum(gb["time_use"] == 0)), int((~et).sum()), int((~ef).sum()))
    r.expect(cnt == exp, "counts", lambda: f"time/tile/freq flag counts {cnt}, expected {exp}")
    r.expect(close(v, v0), "data altered", "the visibilities changed")
    r.out = [ew, ef, et]; r.nontrivial = not close(ew, w) or not ef.all()
    return r
