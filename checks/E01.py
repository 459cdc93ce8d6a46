"""E01: the even/odd time split pairs neighbouring times, and the noise is the scatter of their differences."""
import itertools
import numpy as np
import fx
from vf import Result, close, diff
from PyFHD.pyfhd_tools.pyfhd_utils import split_vis_weights, vis_noise_calc

ID, LEVEL = "E01", "exploration"
RULE = ("every pattern of used times for every number of times to the bound, every pair of weights from {-1, 0, 0.5, 1, 2} on the two members of every pair of times, "
        "1, 2 and 4 polarisations; weights and sample indices of the split, and the noise estimate with and without given indices, are compared with a reference built "
        "pair by pair; non-trivial: some pair survives")
ASSUMPTIONS = ["every time step holds the same number of rows; at least one time step is in use"]
L = np.array([-1.0, 0.0, 0.5, 1.0, 2.0])


def cases(tier):
    top = 6 if tier == "quick" else 9
    for nt in range(1, top + 1):
        for use in itertools.product((0, 1), repeat=nt):
            if any(use):
                for np_ in (1, 2, 4):
                    for nbl in ((5,) if tier == "quick" else (5, 1, 2)):
                        for salt in ((0, 1) if tier == "quick" else (0, 1, 2, 3)):
                            yield dict(nt=nt, use=list(use), np=np_, nbl=nbl, salt=salt)


def check(c):
    r = Result(); nt, nb = c["nt"], c["nbl"]
    obs, params = fx.obs_params(n_tile=4, n_freq=5, n_time=nt, n_pol=c["np"], pairs=[(1, 2), (1, 3), (2, 3), (2, 4), (3, 4)][:nb])
    b = obs["baseline_info"]; b["time_use"][:] = c["use"]
    v = fx.vis(obs, 1 + c["salt"])
    f, k = np.meshgrid(np.arange(5), np.arange(nb), indexing="ij")
    w = np.empty(v.shape)
    for t in range(nt):
        for p in range(c["np"]):
            i = f if (t + c["salt"]) % 2 == 0 else k + (t // 2 if c["salt"] > 1 else 0)
            w[p][:, t * nb:(t + 1) * nb] = L[(i + p) % 5]
    w0, v0, u0 = w.copy(), v.copy(), b["time_use"].copy()
    noise = vis_noise_calc(obs, v, w); r.steps += 1
    r.expect(np.array_equal(w, w0) and np.array_equal(v, v0) and np.array_equal(b["time_use"], u0), "inputs altered", "vis_noise_calc changed its inputs")
    if nt < 2:
        r.expect(noise.shape == (c["np"], 5) and not noise.any(), "noise", noise)
        r.out = 0; r.nontrivial = False
        return r
    s = c["use"].index(1)
    pairs = [(t, t + 1) for t in range(s, nt - 1, 2) if c["use"][t] and c["use"][t + 1]]
    even = [t if t % 2 == 0 else t2 for t, t2 in pairs]; odd = [t if t % 2 else t2 for t, t2 in pairs]
    rows = lambda ts: np.array([t * nb + i for t in ts for i in range(nb)], dtype=int)
    e, o = rows(even), rows(odd)
    got, bi = split_vis_weights(obs, w.copy()); r.steps += 1
    r.expect(len(bi) == 2 and np.array_equal(bi[0], e) and np.array_equal(bi[1], o), "rows", lambda: f"even/odd rows {bi}, expected {e}, {o}")
    rest = np.setdiff1d(np.arange(v.shape[2]), np.r_[e, o])
    r.expect(not got[:, :, rest].any(), "unpaired", "rows outside the pairs keep weight")
    ge, go, we, wo = got[:, :, e], got[:, :, o], w0[:, :, e], w0[:, :, o]
    both = (we > 0) & (wo > 0)
    r.expect(np.array_equal(ge, go), "equal", "the two members of a pair have different weights")
    r.expect(np.array_equal(ge > 0, both), "positive", lambda: f"positive where {np.argwhere((ge > 0) != both)[:3]}")
    r.expect(close(ge[both], np.minimum(np.minimum(we, wo), 1)[both]), "value", "kept weights are not the smaller of the two, at most one")
    exp = np.zeros((c["np"], 5))
    for p in range(c["np"]):
        for q in range(5):
            m = both[p, q]
            if m.any():
                d = v[p, q, e[m]].imag - v[p, q, o[m]].imag
                exp[p, q] = np.sqrt(np.mean((d - d.mean()) ** 2)) / np.sqrt(2)
    r.expect(close(noise, exp), "noise", lambda: diff(noise, exp))
    n2 = vis_noise_calc(obs, v, w, bi_use=[e, o]); r.steps += 1
    r.expect(close(n2, exp), "noise with indices", lambda: diff(n2, exp))
    r.expect(np.array_equal(w, w0), "inputs altered", "vis_noise_calc changed the weights")
    r.out = [got, exp]; r.nontrivial = bool(both.any())
    return r
