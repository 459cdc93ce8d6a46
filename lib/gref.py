"""Reference gridder: one visibility at a time, straight from the definition."""
import numpy as np


def locate(obs, psf_dim, res, params, weights, fi, bi, no_mirror=False, fill=False):
    """For each (frequency, row): None if not gridded, else (x pixel, y pixel, kernel position in x, y, conjugated)."""
    f = obs["baseline_info"]["freq"]; out = {}
    for b in bi:
        u, v = params["uu"][b], params["vv"][b]
        L = np.hypot(u, v); s = -1 if v > 0 else 1
        if not fill and (L * f.min() < obs["min_baseline"] or L * f.max() > obs["max_baseline"]):
            continue
        if no_mirror and v > 0:
            continue
        for k in fi:
            if not fill and weights[k, b] <= 0:
                continue
            x, y = s * u * f[k] / obs["kpix"], s * v * f[k] / obs["kpix"]
            X = int(np.floor(x)) + obs["dimension"] // 2 - (psf_dim // 2 - 1); Y = int(np.floor(y)) + obs["elements"] // 2 - (psf_dim // 2 - 1)
            if X <= 0 or Y <= 0 or X + psf_dim >= obs["dimension"] or Y + psf_dim >= obs["elements"]:
                continue
            out[(k, b)] = (X, Y, (x - np.floor(x)) * res, (y - np.floor(y)) * res, s < 0)
    return out


def kernel(table, px, py, d, interp):
    """Kernel as d x d box for a position in units of the table's steps: nearest step below, or bilinear between steps."""
    i, j = int(np.floor(px)), int(np.floor(py))
    if not interp:
        return table[j, i].reshape(d, d)
    a, b = px - i, py - j
    return sum(wx * wy * table[j + q, i + p].reshape(d, d) for p, wx in ((0, 1 - a), (1, a)) for q, wy in ((0, 1 - b), (1, b)))


def mirror(a):
    """Value at -u, -v, conjugated; the origin is at the centre of the plane."""
    n, m = a.shape; out = np.empty_like(a)
    for y in range(n):
        for x in range(m):
            out[y, x] = np.conj(a[(n - y) % n, (m - x) % m])
    return out


def grid(obs, psf, params, vis, weights, pol, fi=None, bi=None, interp=False, no_mirror=False, model=None, no_conj=False):
    d, res = psf["dim"], psf["resolution"]; b = obs["baseline_info"]
    fi = [k for k in range(len(b["freq"])) if b["freq_use"][k]] if fi is None else list(fi)
    bi = [i for i in range(weights.shape[1]) if np.maximum(weights[:, i], 0).sum() > 0] if bi is None else list(bi)
    loc = locate(obs, d, res, params, weights, fi, bi, no_mirror)
    shp = (obs["elements"], obs["dimension"])
    out = {k: np.zeros(shp, complex) for k in ("image_uv", "weights", "variance", "uniform_filter", "model_return", "A", "B", "D", "Am")}
    n = len(loc)
    for (k, r), (X, Y, px, py, cj) in loc.items():
        K = np.conj(kernel(psf["beam_ptr"][pol, b["fbin_i"][k]], px, py, d, interp)); q = fi.index(k)
        box = (slice(Y, Y + d), slice(X, X + d)); c = np.conj if cj else (lambda z: z)
        V = c(vis[k, r])
        out["image_uv"][box] += K * V / n; out["weights"][box] += K / n; out["variance"][box] += np.abs(K) ** 2 / n; out["uniform_filter"][box] += 1
        out["A"][box] += K * q * V / n; out["B"][box] += K * q / n; out["D"][box] += K * q * q / n
        if model is not None:
            out["model_return"][box] += K * c(model[k, r]) / n; out["Am"][box] += K * q * c(model[k, r]) / n
    B, D = out["B"].real, out["D"].real
    den = D - B ** 2
    inv = np.where(np.abs(den) > 0, 1 / np.where(den == 0, 1, den), 0)
    out["spectral_uv"] = (out["A"] - n * B * out["image_uv"]) * inv; out["spectral_model_uv"] = (out["Am"] - n * B * out["model_return"]) * inv
    for k in ("A", "B", "D", "Am"):
        del out[k]
    if not no_conj:
        for k in out:
            out[k] = (out[k] + mirror(out[k])) / (4 if k == "variance" else 2)
    out["variance"], out["uniform_filter"] = out["variance"].real, out["uniform_filter"].real
    out["n_vis"] = n; out["nf"] = {k: sum(1 for a, _ in loc if a == k) for k in fi}
    return out
