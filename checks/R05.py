"""R05: a dirty image is the Fourier sum of the uv plane with exactly the requested weighting, padding and scale."""
import itertools
import numpy as np
import fx, gref
from vf import Result, NullLogger, close, diff
from PyFHD.gridding.gridding_utils import dirty_image_generate, conjugate_mirror, crosspol_reformat

ID, LEVEL = "R05", "exploration"
RULE = ("every single uv pixel, and dense planes, of square and rectangular sizes with every combination of mask, filter (given, uniform, optimal), padding, pixel scale, normalisation and complex output, against Fourier sums written out; every baseline threshold (either sign, exactly on a pixel, with each smoothing width), resizing and fractional padding of every single-pixel and dense plane; the uniform filter for every count or weight of a set (fractional, zero, negative) on four pixels; "
        "every single-pixel and dense plane for the conjugate mirror and the cross-polarisation reformatting; non-trivial: any option is used")
ASSUMPTIONS = ["even plane sizes, padded or not", "a whole-number smoothing width"]


def cases(tier):
    t = tier == "thorough"
    for el, di in ((4, 4), (6, 4), (4, 8)) + (((8, 8), (2, 6)) if t else ()):
        for px in range(el * di):
            for cx in (0, 1):
                yield dict(part="pixel", el=el, di=di, px=px, cx=cx)
                yield dict(part="mirror", el=el, di=di, px=px, cx=cx)
    for el, di in ((5, 4), (3, 3), (1, 6), (7, 2)):
        for cx in (0, 1):
            for px in range(-1, el * di):
                yield dict(part="mirror", el=el, di=di, px=px, cx=cx)
    for (el, di), mask, filt, pad, deg, norm, cx, herm in itertools.product(((6, 6), (8, 8), (6, 8)), (0, 1), ("none", "array", "uniform", "weights", "optimal"), (None, 1, 2, 3), (None, .5, 1.7), (None, 2.5, "array"), (0, 1), (0, 1)):
        if pad in (None, 1) or el == di:
            if t or (el, di) != (8, 8) or norm == 2.5:
                yield dict(part="opt", el=el, di=di, mask=mask, filt=filt, pad=pad, deg=deg, norm=norm, cx=cx, herm=herm)
    for (el, di), bt, ws, cx in itertools.product(((6, 6), (8, 10), (10, 6)), (None, 0, 1, 2, 2.5, 3, 5 ** .5, -1, -2, -5 ** .5, -3, -9, 9), (None, 0, 1, 2, 3, 4), (0, 1)):
        if cx or t or ws in (None, 3):
            yield dict(part="thresh", el=el, di=di, bt=bt, ws=ws, cx=cx)
    for el, di in ((100, 100), (210, 200), (150, 280), (300, 310)):
        for bt in (7, -60, 50):
            yield dict(part="thresh", el=el, di=di, bt=bt, ws=None, cx=1)
    for (el, di), rs, pad, mask in itertools.product(((4, 4), (6, 8), (8, 4)), (1, 2, 3), (None, 1.5, 2), (0, 1)):
        for px in range(-1, el * di, 1 if t else 3):
            if pad is None or (el * rs % 4 == 0 and di * rs % 4 == 0):
                yield dict(part="resize", el=el, di=di, rs=rs, pad=pad, mask=mask, px=px)
    for (el, di), pad in itertools.product(((4, 4), (8, 8), (4, 8), (8, 12)), (1, 1.25, 1.5, 2.5)):
        for px in range(-1, el * di):
            if el * pad % 2 == 0 and di * pad % 2 == 0:
                yield dict(part="resize", el=el, di=di, rs=None, pad=pad, mask=0, px=px)
    for cnts in itertools.product((0, .5, 1, 3), repeat=4):
        for wts in (None, "same", "neg", "some"):
            if any(x >= 1 for x in cnts):
                yield dict(part="filter", cnts=cnts, wts=wts)
    for wts in itertools.product((0, .5, 2, 3, -1), repeat=4):
        if any(x > 0 for x in wts):
            yield dict(part="fweights", wts=wts)
    for n in (4, 5, 6):
        for px in range(-1, 4 * n * n, 1 if t else 3):
            yield dict(part="cross", n=n, px=px)


def grow(a, k):
    """Linear interpolation between the samples of axis 0, the last one held."""
    return np.array([a[i] + (a[min(i + 1, len(a) - 1)] - a[i]) * j / k for i in range(len(a)) for j in range(k)])


def threshold(uv, bt, ws):
    """No pixel nearer the centre than the threshold (negative: none beyond it), the edge smoothed by a box away from the border."""
    n, m = uv.shape
    if bt is None: return uv
    keep = np.ones((n, m))
    for y in range(n):
        for x in range(m):
            d = ((y - n // 2) ** 2 + (x - m // 2) ** 2) ** .5
            if d < bt if bt >= 0 else d > -bt: keep[y, x] = 0
    k = max(int((n * m) ** .5 // 100) if ws is None else ws, 1); k += k % 2 == 0; h = k // 2
    box = keep.copy(); box[h:n - h, h:m - h] = np.mean([keep[h + a:n - h + a, h + b:m - h + b] for a in range(-h, h + 1) for b in range(-h, h + 1)], axis=0)
    return uv * box


def dft(uv, pad=1):
    n, m = uv.shape
    N, M = int(n * pad), int(m * pad)
    y, x = np.arange(N) - N // 2, np.arange(M) - M // 2; v, u = np.arange(n) - n // 2, np.arange(m) - m // 2
    return np.exp(-2j * np.pi * np.outer(y, v) / N) @ uv @ np.exp(-2j * np.pi * np.outer(u, x) / M) / (n * m)


def check(c):
    r = Result()
    if c["part"] == "mirror":
        a = np.zeros((c["el"], c["di"]), complex if c["cx"] else float); z = 1 + .5j if c["cx"] else 1.0
        if c["px"] >= 0:
            a.flat[c["px"]] = z
        else:
            a = fx.pattern(a.shape, 4) if c["cx"] else fx.pattern(a.shape, 4).real
        a0 = a.copy(); e = gref.mirror(a); g = conjugate_mirror(a); r.steps += 1
        r.expect(np.array_equal(g, e) and np.array_equal(a, a0), "mirror", lambda: diff(g, e))
        r.expect(np.array_equal(conjugate_mirror(g), a), "twice", "mirroring twice is not the identity"); r.out = e
        return r
    if c["part"] == "cross":
        n = c["n"]; a = np.zeros((4, n, n), complex)
        if c["px"] >= 0:
            a.flat[c["px"]] = .7 - 1.1j
        else:
            a = fx.pattern((4, n, n), 6)
        e = a.copy(); q = (a[2] - gref.mirror(a[3])) / 2; e[2], e[3] = q, gref.mirror(q)
        g = crosspol_reformat(a.copy()); r.steps += 1
        r.expect(close(g, e), "reformat", lambda: diff(g, e)); r.out = e
        return r
    if c["part"] in ("filter", "fweights"):
        uv = fx.pattern((4, 4), 3); at = (np.array([0, 1, 2, 3]), np.array([1, 3, 0, 2])); cnt = np.full((4, 4), 2.0); w = None; n_ok = 4
        if c["part"] == "filter":
            cnt[at] = c["cnts"]; f = np.where(cnt >= 1, 1 / np.maximum(cnt, 1), 0); sel = f > 0
            if c["wts"]:
                w = cnt.copy() if c["wts"] == "same" else -cnt if c["wts"] == "neg" else (np.arange(16).reshape(4, 4) % 3).astype(float); sel = w != 0
        else:
            w = np.full((4, 4), 4.0); w[at] = c["wts"]; k = np.abs(w) / min(abs(x) for x in w.flat if x > 0)
            f = np.where(k >= 1, 1 / np.maximum(k, 1e-9), 0); sel = w != 0; cnt = None
        f = f / f[sel].mean()
        img, g, _ = dirty_image_generate(uv, dict(image_filter="filter_uv_uniform"), NullLogger(), uniform_filter_uv=cnt, weights=w, filter=np.empty(0), not_real=True); r.steps += 1; exp = dft(uv * f)
        r.expect(close(g, f), "filter", lambda: diff(g, f)); r.expect(close(img, exp), "image", lambda: diff(img, exp)); r.out = exp
        return r
    if c["part"] in ("thresh", "resize"):
        n, m = c["el"], c["di"]; uv = fx.pattern((n, m), 5); kw = dict(not_real=bool(c["cx"] if "cx" in c else c["px"] % 2)); keep = None
        if c["part"] == "thresh":
            e = threshold(uv, c["bt"], c["ws"]); kw.update(baseline_threshold=c["bt"], width_smooth=c["ws"]); p = 1
        else:
            if c["px"] >= 0: uv[:] = 0; uv.flat[c["px"]] = .8 + 1.1j
            e = uv.copy(); p = c["pad"] or 1
            if c["mask"]: kw["mask"] = (np.arange(n * m).reshape(n, m) % 3 > 0).astype(int); e = e * kw["mask"]
            if c["rs"]: kw["resize"] = c["rs"]; e = grow(grow(e, c["rs"]).T, c["rs"]).T
            if c["pad"]: kw["pad_uv_image"] = c["pad"]
        keep = uv.copy(); img, _, _ = dirty_image_generate(uv, dict(image_filter="filter_uv_uniform"), NullLogger(), **kw); r.steps += 1
        exp = dft(e, p); exp = exp if kw["not_real"] else exp.real
        r.expect(img.shape == exp.shape and close(img, exp), "image", lambda: diff(img, exp)); r.expect(np.array_equal(uv, keep), "inputs altered", "the plane changed"); r.out = exp
        return r
    el, di = c["el"], c["di"]; log = NullLogger(); cfg = dict(image_filter="filter_uv_uniform"); kw = {}
    if c["part"] == "pixel":
        uv = np.zeros((el, di), complex); uv.flat[c["px"]] = 1.3 - .4j
        exp = dft(uv); kw["not_real"] = bool(c["cx"]); r.nontrivial = False
    else:
        uv = fx.pattern((el, di), 7)
        if c["herm"]:
            uv = uv + gref.mirror(uv)
        e = uv.copy(); k = np.arange(el * di).reshape(el, di)
        if c["mask"]:
            kw["mask"] = (k % 3 > 0).astype(int); e = e * kw["mask"]
        retf = None
        if c["filt"] == "array":
            kw["filter"] = 1 + .1 * k; e = e * kw["filter"]; retf = kw["filter"].copy()
        elif c["filt"] in ("uniform", "weights", "optimal"):
            cnt = (k % 4).astype(float); w = (k % 4) * (1 + .2j) if c["filt"] == "uniform" else (k % 4) * 2.0
            f = np.where(cnt >= 1, 1 / np.maximum(cnt, 1), 0); f /= f[cnt > 0].mean(); e = e * f; retf = f
            kw.update(filter=np.empty(0), weights=w, uniform_filter_uv=None if c["filt"] == "weights" else cnt)
            if c["filt"] == "optimal":
                cfg["image_filter"] = "filter_uv_optimal"
        p = c["pad"] or 1; exp = dft(e, p)
        if c["pad"]: kw["pad_uv_image"] = c["pad"]
        if c["deg"]: kw["degpix"] = c["deg"]; exp = exp / np.radians(c["deg"]) ** 2
        big = 1 + .3 * np.cos(np.arange(exp.size)).reshape(exp.shape)
        if c["filt"] == "optimal": kw["beam_ptr"] = big + 1; exp = exp * (big + 1)
        if c["norm"]: kw["normalization"] = big if c["norm"] == "array" else c["norm"]; exp = exp * kw["normalization"]
        kw["not_real"] = bool(c["cx"])
    keep = uv.copy(); kk = {a: b.copy() for a, b in kw.items() if isinstance(b, np.ndarray)}
    img, f, nm = dirty_image_generate(uv, cfg, log, **kw); r.steps += 1
    if not c["cx"]:
        exp = exp.real
    r.expect(np.iscomplexobj(img) == bool(c["cx"]) and close(img, exp), "image", lambda: diff(img, exp))
    if c["part"] == "opt":
        r.expect((f is None and retf is None) or (retf is not None and close(f, retf)), "filter", lambda: f"{f}, expected {retf}")
        r.expect((nm is None) == (c["norm"] is None), "normalization", "not returned as given")
        if c["herm"] and not c["mask"] and c["filt"] == "none" and c["cx"] and p == 1:
            r.expect(np.abs(img.imag).max() < 1e-9 * np.abs(img).max() + 1e-12, "real", "image of a plane that mirrors into its conjugate is not real")
    r.expect(np.array_equal(uv, keep) and all(np.array_equal(kw[a], b) for a, b in kk.items()), "inputs altered", "the plane or an option array changed")
    r.out = exp
    return r
