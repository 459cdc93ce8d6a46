"""Reference imaging on the sphere: projection, HEALPix interpolation weights, beam images, Fourier sums."""
import math
import healpy as hp
import numpy as np
import gref


def frame(ra, dec):
    """unit vectors east, north, line of sight"""
    a, d = math.radians(ra), math.radians(dec)
    return np.array([[-math.sin(a), math.cos(a), 0], [-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)],
                     [math.cos(d) * math.cos(a), math.cos(d) * math.sin(a), math.sin(d)]])


def project(v, ra, dec, zra, zdec, dim, deg):
    """Pixel x, y (and cosine to the centre) of directions v on the slant orthographic image of dim x dim pixels."""
    F = frame(ra, dec); z = F @ frame(zra, zdec)[2]; xi, eta = z[0] / z[2], z[1] / z[2]; k = math.radians(deg)
    l, m, n = F @ v
    return (l + xi * (1 - n)) / k + dim // 2, (m + eta * (1 - n)) / k + dim // 2, n


def bilinear(x, y, n, dim):
    """W[pixel, row, column]: weights of the image pixels around x, y; none outside of the image."""
    W = np.zeros((len(x), dim, dim))
    for i in range(len(x)):
        if n[i] > 0 and 0 <= x[i] <= dim - 1 and 0 <= y[i] <= dim - 1:
            fx, fy = int(math.floor(x[i])), int(math.floor(y[i])); tx, ty = x[i] - fx, y[i] - fy
            for dy, wy in ((0, 1 - ty), (1, ty)):
                for dx, wx in ((0, 1 - tx), (1, tx)):
                    if wx * wy:
                        W[i, fy + dy, fx + dx] += wx * wy
    return W


def lobes(p, dim, hor):
    """Sum of Gaussian lobes given on a grid reaching 1.3 horizons, on an image reaching the horizon."""
    y, x = np.mgrid[:dim, :dim]; out = np.zeros((dim, dim)); res = dim / hor
    for a, ox, sx, oy, sy in p.reshape(-1, 5):
        X, Y = ((ox - hor * 1.3 / 2) * res + dim / 2, (oy - hor * 1.3 / 2) * res + dim / 2)
        out += a * np.exp(-((x - X) / (sx * res)) ** 2 / 2 - ((y - Y) / (sy * res)) ** 2 / 2)
    return out


def fourier(K, dim):
    d = K.shape[0]; k = np.arange(d) - (d // 2 - 1); p = np.arange(dim) - dim // 2
    E = np.exp(2j * np.pi * np.outer(p, k) / dim)
    return E @ K @ E.T


def grow(img, low, y0, x0):
    """Interior pixels connected to the seed through pixels of at least `low`."""
    n = img.shape[0]; ok = (img >= low)
    seen, todo = set(), [(y0, x0)] if ok[y0, x0] else []
    while todo:
        q = todo.pop()
        if q in seen: continue
        seen.add(q)
        for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0)):
            b = (q[0] + dy, q[1] + dx)
            if 0 <= b[0] < n and 0 <= b[1] < n and ok[b] and b not in seen: todo.append(b)
    out = np.zeros((n, n))
    for y, x in seen:
        if 0 < y < n - 1 and 0 < x < n - 1: out[y, x] = 1
    return out


def dft(uv, dx=0., dy=0.):
    n = len(uv); k = np.arange(n) - n // 2
    return np.exp(-2j * np.pi * np.outer(k - dy, k) / n) @ uv @ np.exp(-2j * np.pi * np.outer(k, k - dx) / n) / n ** 2


def padded(uv, pad):
    n = len(uv); N = n * pad
    y = np.arange(N) - N // 2; v = np.arange(n) - n // 2
    E = np.exp(-2j * np.pi * np.outer(y, v) / N)
    return E @ uv @ E.T / n ** 2


def finer(a, k):
    """a at steps of 1/k pixel, linear between pixels, constant beyond the last."""
    n = len(a); p = np.arange(n * k) / k; i = np.floor(p).astype(int); f = p - i; j = np.minimum(i + 1, n - 1)
    W = np.zeros((n * k, n)); W[np.arange(n * k), i] += 1 - f; W[np.arange(n * k), j] += f
    return W @ a @ W.T


def pictures(obs, psf, iuv, muv, wuv, cnt, how, pad, where, lobed):
    """Beam images, dirty and model images and weight planes that quickview shows (cross polarisations as real and imaginary part), and the
    discriminant that is negative beyond the horizon. `where`: right ascension and declination of the phase centre and of the zenith."""
    P, dim = len(iuv), iuv.shape[-1]; b = obs["baseline_info"]; hor = psf["pix_horizon"]
    N = dim * pad; deg = math.degrees(1 / (obs["kpix"] * N)); S = math.radians(deg) ** 2
    F = frame(*where[:2]); z = F @ frame(*where[2:])[2]; xi, eta = z[0] / z[2], z[1] / z[2]
    y, x = (np.mgrid[:N, :N] - N // 2) * math.radians(deg)
    A = 1 + xi * xi + eta * eta; B = xi * (x - xi) + eta * (y - eta); C = (x - xi) ** 2 + (y - eta) ** 2 - 1
    disc = B * B - A * C; up = disc >= 0
    filt = np.where(cnt >= 1, 1 / np.maximum(cnt, 1), 0)
    bins = [int(b["fbin_i"][k]) for k in range(len(b["freq"])) if b["freq_use"][k]]; raw = {}
    for p in range(P):
        tot = 0
        for q in bins:
            d = int(psf["dim"])
            tot = tot + (lobes(psf["beam_gaussian_params"][p, q], dim, hor) if lobed else fourier(psf["beam_ptr"][p, q, 0, 0].reshape(d, d), dim).real)
        raw[p] = finer(tot / sum(psf["fnorm"][q] for q in bins), pad) * up
    dirty, model = [], []
    for p in range(P):
        f = filt / filt[wuv[p] != 0].mean(); o = raw[p] if how == "optimal" else 1.0
        im, mo, no = (padded(a * f, pad) / S * o for a in (iuv[p], muv[p], wuv[p]))
        scale = raw[p][N // 2, N // 2] ** 2 / S / no[N // 2, N // 2].real
        dirty.append(im * scale); model.append(mo * scale)
    split = lambda L: [a.real for a in L[:2]] + ([L[2].real, L[2].imag] if P == 4 else [])
    wts = [wuv[0]] + ([wuv[1]] if P > 1 else []) + ([wuv[2].real, wuv[2].imag] if P == 4 else [])
    return raw, split(dirty), split(model), wts, disc


def even_odd(w, time_use, nbl, split):
    """Weights shared by the samples of each pair of times, and (cube name, plane name, rows) of each part."""
    N, nt = w.shape[2], len(time_use)
    s0 = list(time_use).index(1)
    pairs = [(t, t + 1) for t in range(s0, nt - 1, 2) if time_use[t] and time_use[t + 1]]
    if not split or nt < 2:
        return w, [("healpix_cube", "", [i for i in range(N) if np.maximum(w[:2, :, i], 0).any()])], pairs
    w2 = np.zeros_like(w); ev, od = [], []
    for t1, t2 in pairs:
        A, B = slice(t1 * nbl, (t1 + 1) * nbl), slice(t2 * nbl, (t2 + 1) * nbl); q = np.clip(np.minimum(w[:, :, A], w[:, :, B]), 0, 1); w2[:, :, A] = w2[:, :, B] = q
        for t in (t1, t2):
            (od if t % 2 else ev).extend(range(t * nbl, (t + 1) * nbl))
    return w2, [("hpx_even", "even", sorted(ev)), ("hpx_odd", "odd", sorted(od))], pairs


def cube(go, psf, par, v, m, w, p, rows, avg, W, beams, ph, deg, key, interp=False, no_mirror=False):
    """Cubes of one polarisation and part, with the numbers of visibilities of each channel and in total."""
    fu = go["baseline_info"]["freq_use"]; nf = len(fu); nu = nf // avg
    e = {q: np.zeros((nu, len(W))) for q in ("beam_squared_cube", "weights_cube", "variance_cube", "model_cube", key)}; cnt = np.zeros(nf, int); tot = 0
    for q in range((nf - 1) // avg + 1):
        fi = [k for k in range(nf) if k // avg == q and fu[k]]
        g = gref.grid(go, psf, par, v[p], w[p], p, fi, rows, model=m[p], interp=interp, no_mirror=no_mirror) if fi and rows else dict(n_vis=0)
        if g["n_vis"] == 0:
            continue
        tot += g["n_vis"]
        for k in fi: cnt[k] = g["nf"][k]
        if q >= nu:
            continue
        for q2, nm in (("weights_cube", "weights"), ("variance_cube", "variance"), ("model_cube", "model_return"), (key, "image_uv")):
            im = dft(g[nm] * (ph if nm in ("weights", "variance") else 1)).real * g["n_vis"] / math.radians(deg) ** 2
            e[q2][q] = W @ im.ravel()
        e["beam_squared_cube"][q] = W @ beams[p, q].ravel() * g["n_vis"]
    return e, cnt, tot
