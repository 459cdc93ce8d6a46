"""G02: updating the weights cuts exactly what is flagged, out of range or off the uv plane, and counts it."""
import copy, itertools, math
import h5py
import numpy as np
import fx
from vf import Result, NullLogger, Scratch, close, diff
from PyFHD.pyfhd_tools.pyfhd_utils import vis_weights_update

ID, LEVEL = "G02", "exploration"
RULE = ("(a) baselines at every half-pixel position of the plane and beyond, for each kernel size, plane size, baseline-length window; (b) every subset of flagged "
        "channels, tiles and times with weight patterns including negative and zero, 1-4 polarisations; compared visibility by visibility with the definition, "
        "and updating twice must change nothing; non-trivial: something is cut")
ASSUMPTIONS = ["positions further than rounding from pixel edges"]


def cases(tier):
    t = tier == "thorough"
    for dim, pd, mn, mx, kp, as_file in itertools.product([(8, 8), (12, 12), (12, 8)] + ([(16, 16), (8, 14)] if t else []), [2, 3, 4, 6], [0.0, 1.0, 2.1], [1e9, 3.0, 2.0], [0.5, 1.0, 2.5], [False, True]):
        yield dict(part="plane", dim=dim[0], el=dim[1], pd=pd, mn=mn, mx=mx, kp=kp, as_file=as_file)
    for np_, nt in itertools.product([1, 2, 4] if t else [2, 4], [1, 2, 3]):
        for fu in itertools.product([0, 1], repeat=3):
            for tu in itertools.product([0, 1], repeat=3):
                for mu in itertools.product([0, 1], repeat=nt):
                    for w in (0, 1):
                        yield dict(part="flags", np=np_, nt=nt, fu=list(fu), tu=list(tu), mu=list(mu), w=w)


def check(c):
    r = Result()
    if c["part"] == "plane":
        obs, params = fx.obs_params(n_tile=3, n_freq=3, n_time=1, dim=c["dim"], elements=c["el"], kpix=c["kp"], min_bl=c["mn"], max_bl=c["mx"], res=4.5e6, f0=180e6)
        g = np.arange(-(c["dim"] // 2 + 2) * 2, (c["dim"] // 2 + 2) * 2 + 1) / 2 + 0.01
        X, Y = np.meshgrid(g, np.append(g, 0.0))
        f0 = obs["baseline_info"]["freq"][0]
        params["uu"], params["vv"] = X.ravel() * c["kp"] / f0, Y.ravel() * c["kp"] / f0
        n = X.size
        b = obs["baseline_info"]; b["tile_a"] = np.full(n, 1); b["tile_b"] = np.full(n, 2)
        w = np.ones((2, 3, n)); psf_dim = c["pd"]
    else:
        obs, params = fx.obs_params(n_tile=3, n_freq=3, n_time=c["nt"], n_pol=c["np"], dim=16)
        b = obs["baseline_info"]; n = len(b["tile_a"]); psf_dim = 4
        b["freq_use"][:] = c["fu"]; b["tile_use"][:] = c["tu"]; b["time_use"][:] = c["mu"]
        w = 0.5 + (np.arange(c["np"] * 3 * n) % 4).reshape(c["np"], 3, n)
        if c["w"]:
            w[:, 1, 0] = 0; w[0, :, 2] = -1; w[-1, 0, 1] = -2
    w0, p0 = w.copy(), copy.deepcopy(params)
    A, B, f = b["tile_a"], b["tile_b"], b["freq"]
    off = list(b["bin_offset"]) + [n]
    tb = np.zeros(n, dtype=int)
    for t in range(len(b["time_use"])):
        tb[off[t]:off[t + 1]] = t
    row_ok = np.array([b["tile_use"][A[i] - 1] and b["tile_use"][B[i] - 1] and b["time_use"][tb[i]] for i in range(n)], dtype=bool)
    u, v = np.outer(f, params["uu"]), np.outer(f, params["vv"])
    L = np.hypot(u, v)
    flip = np.where(v > 0, -1, 1)
    edge = np.zeros(L.shape, dtype=bool)  # too close to a bin edge or threshold for rounding to be certain
    keep = (L >= obs["min_baseline"]) & (L <= obs["max_baseline"]) & row_ok & (b["freq_use"][:, None] > 0)
    for q, size in ((u, obs["dimension"]), (v, obs["elements"])):
        x = flip * q / obs["kpix"]
        lo = np.floor(x) + size / 2 - (psf_dim / 2 - 1)
        keep &= (lo > 0) & (lo + psf_dim - 1 < size - 1)
        edge |= (np.abs(x - np.round(x)) < 1e-9) & (q != 0)
    edge &= L > 0
    exp = np.where(keep, w0, 0)
    with Scratch() as d:
        if c.get("as_file"):
            with h5py.File(d / "b.h5", "w") as h:
                h["dim"] = np.array([psf_dim])
            psf = h5py.File(d / "b.h5", "r")
        else:
            psf = {"dim": psf_dim}
        got, go = vis_weights_update(w, obs, psf, params); r.steps += 1
        n1, first = go["n_vis"], got.copy()
        ok = ~edge
        r.expect(np.array_equal(got[:, ok], exp[:, ok]), "weights", lambda: diff(np.where(edge, 0, got), np.where(edge, 0, exp)))
        if not edge.any():
            r.expect(n1 == int((exp[0] > 0).sum()), "n_vis", lambda: f"n_vis {n1}, expected {int((exp[0] > 0).sum())}")
        cnt = [int(go[k]) for k in ("n_time_flag", "n_tile_flag", "n_freq_flag")]
        e = [int((b["time_use"] == 0).sum()), int((b["tile_use"] == 0).sum()), int((b["freq_use"] == 0).sum())]
        r.expect(cnt == e, "counts", lambda: f"{cnt} expected {e}")
        got2, go2 = vis_weights_update(got, go, psf, params); r.steps += 1
        r.expect(np.array_equal(got2, first) and go2["n_vis"] == n1, "idempotent", "updating again changed the weights or the count")
        if c.get("as_file"):
            psf.close()
    r.expect(np.array_equal(params["uu"], p0["uu"]) and np.array_equal(params["vv"], p0["vv"]), "params altered", "u or v changed")
    r.out = [exp, e]; r.nontrivial = not np.array_equal(exp, w0)
    return r
