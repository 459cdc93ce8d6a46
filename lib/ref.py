"""Plain reference versions of small numerical definitions (written from their documentation)."""
import numpy as np

COEF = (0.020142, -0.23584, 0.90723, -0.15405)


def resistant(v, dev=2):
    """Mean of the values within dev (truncation corrected) standard deviations of the median, see RESISTANT_MEAN."""
    v = np.asarray(v, float).ravel(); s = np.sort(v); n = v.size
    med = (s[(n - 1) // 2] + s[n // 2]) / 2
    ad = np.abs(v - med); a = np.sort(ad)
    mad = (a[(n - 1) // 2] + a[n // 2]) / 2 / 0.6745
    keep = v[ad <= dev * mad]
    sig = np.sqrt(np.mean((keep - keep.mean()) ** 2))
    x = max(dev, 1.0)
    if x <= 4.5:
        sig /= COEF[0] * x ** 3 + COEF[1] * x ** 2 + COEF[2] * x + COEF[3]
    keep = v[ad <= dev * sig]
    return keep.mean() if keep.size else np.nan


def polyfit(x, y, deg):
    """Least-squares coefficients, lowest order first, by solving the normal equations in exact-ish scaled variables."""
    x = np.asarray(x, float); y = np.asarray(y)
    c, s = x.mean(), max(np.abs(x - x.mean()).max(), 1e-300)
    t = (x - c) / s
    V = np.stack([t ** i for i in range(deg + 1)], 1)
    q = np.linalg.pinv(V) @ y
    p = np.poly1d([0.0]); base = np.poly1d([1 / s, -c / s])
    for i in range(deg + 1):
        p = p + q[i] * base ** i
    co = np.zeros(deg + 1); k = p.coef[::-1]
    co[:k.size] = k
    return co


def unwrap(p):
    out = [p[0]]
    for a in p[1:]:
        d = a - out[-1]
        out.append(out[-1] + d - 2 * np.pi * np.round(d / (2 * np.pi)))
    return np.array(out)
