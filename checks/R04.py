"""R04: the visibility count adds one per visibility over its kernel's box; uniform weighting divides by it."""
import itertools
import h5py
import numpy as np
import fx, gref
from vf import Result, NullLogger, Scratch, close, diff
from PyFHD.gridding.gridding_utils import visibility_count
from PyFHD.gridding.filters import filter_uv_uniform

ID, LEVEL = "R04", "exploration"
RULE = ("every subset of rows and channels given, or left to the weights, for layouts, kernel sizes, rectangular planes, mirror, conjugate, stored beam and flag-ignoring options; uniform filter for every small pattern of counts and "
        "weights, counts given, derived from weights or from the observation; compared with counts added one at a time and the written-out filter; non-trivial: some visibility is not counted")
ASSUMPTIONS = ["positions further than rounding from pixel edges", "at least one pixel with a count of one or more"]


def cases(tier):
    t = tier == "thorough"
    for pd, (el, di), nomir, noconj, fill, file in itertools.product((2, 4) + ((6,) if t else ()), ((14, 14), (12, 16), (16, 10)), (0, 1), (0, 1), (0, 1), (0, 1)):
        for how in ("weights", "given"):
            for ff in range(1, 8) if how == "weights" or not fill else (7,):
                for bb in (range(1, 64, 1 if t else 4) if not fill else (63,)):
                    yield dict(part="count", pd=pd, el=el, di=di, nomir=nomir, noconj=noconj, fill=fill, file=file, how=how, ff=ff, bb=bb)
    for pd, (el, di), nomir, noconj, fill, how in itertools.product((2, 4), ((14, 14), (10, 26), (26, 10), (8, 20)), (0, 1), (0, 1), (0, 1), ("weights", "given")):
        for lim in ["none"] + [k + str(b) for k in ("lo", "hi") for b in (1, 2, 4)]:
            for nt in (1, 3):
                for wp in (0, 1):
                    yield dict(part="count", pd=pd, el=el, di=di, nomir=nomir, noconj=noconj, fill=fill, file=0, how=how, ff=7 if fill else 5, bb=-1, lim=lim, nt=nt, wp=wp)
    for n in (2, 3) + ((4,) if t else ()):
        for v in list(itertools.product((0, .5, 1, 3), repeat=n * 2)) + ([v for v in itertools.product((.9, 0, 1.4, 2.5), repeat=n * 2) if n == 2 or v[0] == 2.5 and v[5] == .9] if n < 4 else []):
            if max(v) >= 1 and (n < 4 or sum(x == .5 for x in v) == 1):
                for w in ("none", "same", "other") if n < 4 else ("other",):
                    yield dict(part="filter", n=n, v=list(v), w=w)
                if v.count(0) < len(v) and n < 4:
                    yield dict(part="filter", n=n, v=list(v), w="derive")
    for ff in range(1, 8):
        for bb in range(1, 64):
            yield dict(part="obs", ff=ff, bb=bb)


def setup(c):
    nt = c.get("nt", 1); el, di = c.get("el", 14), c.get("di", 12)
    obs, params = fx.obs_params(n_tile=3, n_freq=3, n_time=nt, dim=di, elements=el, spread=1.4, res=4e6, min_bl=.05, max_bl=5.0)
    n = 6 * nt
    if c["bb"] < 0:  # spread over the whole plane
        params["uu"] *= .5 * di / 14; params["vv"] *= .5 * el / 14; obs["max_baseline"] = 50.0
        if c.get("wp"):  # two rows whose boxes start an exchange of rows and columns of the plane apart
            q = obs["kpix"] / obs["baseline_info"]["freq"][0]; x, y = min(el, di - 5) / 2 - .3, -1.7
            for t in range(nt): params["uu"][6 * t + 1:6 * t + 3] = x * q, (x - el) * q; params["vv"][6 * t + 1:6 * t + 3] = y * q, (y + 1) * q
    L = np.hypot(params["uu"], params["vv"])
    lim = c.get("lim", "none")
    if lim != "none":  # a limit between the lengths of one baseline in the lowest and highest channel
        obs["min_baseline" if lim[:2] == "lo" else "max_baseline"] = L[int(lim[2:])] * np.mean(obs["baseline_info"]["freq"])
    psf = dict(dim=c.get("pd", 4), resolution=2)
    F = [k for k in range(3) if c["ff"] >> k & 1]; R = [k for k in range(n) if c["bb"] >> k & 1]
    w = np.ones((3, n)); w[1, 2] = 0; w[2, 4] = -1
    if c.get("wp"): w[1, 4] = 0; w[0, ::5] = -3; w[1:, 1] *= 1e-4
    return obs, params, psf, w, F, R


def check(c):
    r = Result()
    if c["part"] == "filter":
        n = c["n"]; v = np.array(c["v"], float).reshape(n, 2); img = fx.pattern((n, 2), 5)
        w = {"none": None, "same": v * (1 + .3j), "other": np.where(np.arange(2 * n).reshape(n, 2) % 3 != 1, 2.0, 0.0), "derive": v.copy()}[c["w"]]
        cnt = v if c["w"] != "derive" else v / v[v > 0].min()
        f = np.array([[1 / x if x >= 1 else 0.0 for x in row] for row in cnt])
        sel = (np.abs(w) != 0) if w is not None else f != 0
        m = f[sel].mean() if sel.any() else f.mean()
        if m == 0:
            r.nontrivial = False; r.out = 0; return r
        f = f / m
        keep = img.copy(), v.copy()
        out, g = filter_uv_uniform(img, None if c["w"] == "derive" else v, weights=w); r.steps += 1
        r.expect(close(g, f), "filter", lambda: diff(g, f)); r.expect(close(out, keep[0] * f), "filtered", lambda: diff(out, keep[0] * f))
        r.expect(np.array_equal(img, keep[0]) and np.array_equal(v, keep[1]), "inputs altered", "plane or counts changed")
        r.out = f; r.nontrivial = bool((f == 0).any())
        return r
    obs, params, psf, w, F, R = setup(c); n = w.shape[1]
    fill, nomir = bool(c.get("fill")), bool(c.get("nomir"))
    given = c.get("how", "given") == "given"
    if given and not fill:
        fi, bi = np.array(F), np.array(R)
    else:
        fi = bi = None
        if not fill:
            obs["baseline_info"]["freq_use"][:] = [int(k in F) for k in range(3)]; w[:, [k for k in range(n) if k not in R]] = 0
    ef = list(range(3)) if fill else F
    eb = list(range(n)) if fill else [k for k in R if (w[:, k] > 0).any()] if not given else R
    loc = gref.locate(obs, psf["dim"], 2, params, w, ef, eb, nomir, fill)
    cnt = np.zeros((obs["elements"], obs["dimension"])); d = psf["dim"]
    for X, Y, *_ in loc.values():
        cnt[Y:Y + d, X:X + d] += 1
    if not c.get("noconj"):
        cnt = (cnt + gref.mirror(cnt)) / 2
    w0 = w.copy()
    if c["part"] == "obs":
        img = fx.pattern(cnt.shape, 2)
        if cnt.max() < 1:
            r.nontrivial = False; r.out = 0; return r
        f = np.array([[1 / x if x >= 1 else 0.0 for x in row] for row in cnt]); f /= f[f > 0].mean()
        out, g = filter_uv_uniform(img, None, obs=obs, params=params, psf=psf, weights=w, logger=NullLogger(), fi_use=fi, bi_use=bi); r.steps += 1
        r.expect(close(g, f), "filter", lambda: diff(g, f)); r.expect(close(out, img * f), "filtered", lambda: diff(out, img * f))
    else:
        with Scratch() as s:
            use = psf
            if c["file"]:
                with h5py.File(s / "b.h5", "w") as h:
                    h["dim"] = np.array([d]); h["resolution"] = np.array([2])
                use = h5py.File(s / "b.h5", "r")
            g = visibility_count(obs, use, params, w, NullLogger(), fi_use=fi, bi_use=bi, mask_mirror_indices=nomir, no_conjugate=bool(c["noconj"]), fill_model_visibilities=fill); r.steps += 1
            if c["file"]:
                use.close()
        r.expect(close(g, cnt), "count", lambda: diff(g, cnt))
    r.expect(np.array_equal(w, w0), "inputs altered", "weights changed")
    r.out = cnt; r.nontrivial = len(loc) < 3 * n
    return r
