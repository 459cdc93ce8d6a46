"""T05: region growing against a breadth-first reference on every small image."""
import itertools
import numpy as np
from vf import Result
from PyFHD.pyfhd_tools.pyfhd_utils import region_grow

ID, LEVEL = "T05", "exploration"
RULE = ("every in/out pattern of the interior of small images with each border pattern of a fixed set, every seed set of "
        "the listed kinds (each single pixel, all pixels, pairs), thresholds explicit and derived from the seed, NaN pixels "
        "at every position; non-trivial: the grown region is not empty")
ASSUMPTIONS = ["4-connectivity; pixels on the image edge join components but are not returned"]


def cases(tier):
    shapes = [(4, 4), (3, 5)] if tier == "quick" else [(4, 4), (3, 5), (5, 5), (4, 6)]
    for h, w in shapes:
        n = (h - 2) * (w - 2)
        for bits in range(2 ** n):
            for border in range(4):
                yield {"h": h, "w": w, "bits": bits, "border": border}


def bfs(mask, seeds):
    h, w = mask.shape
    lab = -np.ones(mask.shape, int); k = 0
    for i in range(h):
        for j in range(w):
            if mask[i, j] and lab[i, j] < 0:
                st = [(i, j)]; lab[i, j] = k
                while st:
                    y, x = st.pop()
                    for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                        Y, X = y + dy, x + dx
                        if 0 <= Y < h and 0 <= X < w and mask[Y, X] and lab[Y, X] < 0:
                            lab[Y, X] = k; st.append((Y, X))
                k += 1
    inner = np.zeros(mask.shape, bool); inner[1:-1, 1:-1] = True
    want = {int(lab.flat[s]) for s in seeds if inner.flat[s] and lab.flat[s] >= 0}
    return [int(p) for p in range(mask.size) if inner.flat[p] and lab.flat[p] in want]


def check(c):
    r = Result()
    h, w = c["h"], c["w"]
    n = (h - 2) * (w - 2)
    mask = np.zeros((h, w), bool)
    b = {0: 0, 1: 1}.get(c["border"])
    if c["border"] == 1:
        mask[:] = True
    elif c["border"] == 2:
        mask[0, :] = True
    elif c["border"] == 3:
        mask[:, -1] = True; mask[-1, ::2] = True
    mask[1:-1, 1:-1] = np.array([(c["bits"] >> k) & 1 for k in range(n)], bool).reshape(h - 2, w - 2)
    # in-range values 2..4, out of range below and above
    img = np.where(mask, 2.0 + (np.arange(h * w).reshape(h, w) % 3), np.where(np.arange(h * w).reshape(h, w) % 2, 0.5, 9.0))
    sizes = []

    def one(image, m, seeds, **kw):
        keep = image.copy()
        s = np.array(seeds)
        ks = s.copy()
        got = region_grow(image, s, **kw)
        r.steps += 1
        want = bfs(m, seeds)
        g = [] if got is None else sorted(int(x) for x in got)
        r.expect(g == want, "region", lambda: f"image {np.round(keep, 2).tolist()} seeds {seeds} {kw}: {g} expected {want}")
        r.expect(np.array_equal(keep, image, equal_nan=True) and np.array_equal(ks, s), "input_changed", lambda: f"{seeds}")
        sizes.append(len(want))

    inner = [y * w + x for y in range(1, h - 1) for x in range(1, w - 1)]
    for s in range(h * w):
        one(img, mask, [s], low=2.0, high=4.0)
    one(img, mask, list(range(h * w)), low=2.0, high=4.0)
    for s, t in itertools.combinations(inner, 2):
        one(img, mask, [s, t], low=2.0, high=4.0)
    # half-open defaults: threshold taken from the seed pixels
    for s in inner:
        v = float(img.flat[s])
        one(img, img == v, [s])
        one(img, img >= v, [s], high=100.0)
        one(img, img <= v, [s], low=-100.0)
        # the same image with a NaN there: never part of a region
        im2 = img.copy(); im2.flat[s] = np.nan
        m2 = mask.copy(); m2.flat[s] = False
        one(im2, m2, inner, low=2.0, high=4.0)
        if len(inner) > 1:
            t2 = inner[(inner.index(s) + 2) % len(inner)]
            im3 = img - 3.0; im3.flat[[s, t2]] = np.nan
            m3 = mask.copy(); m3.flat[[s, t2]] = False
            one(im3, m3, inner, low=-1.0, high=1.0)
        one((img * 2).astype(int), mask, [s], low=4, high=8)
    r.nontrivial = any(sizes)
    r.out = sizes
    return r
