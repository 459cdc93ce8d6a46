"""C01: sky <-> pixel and sky <-> horizon conversions are right and inverse to each other."""
import itertools, math
import numpy as np
import erfa
from vf import Result, Scratch, NullLogger, close, diff
import mini
from PyFHD.data_setup.obs import project_slant_orthographic
from PyFHD.pyfhd_tools.unit_conv import radec_to_pixel, pixel_to_radec, altaz_to_radec, radec_to_altaz
from PyFHD.pyfhd_tools.pyfhd_utils import angle_difference, parallactic_angle

ID, LEVEL = "C01", "exploration"
RULE = ("(a) every combination of phase centre, zenith, image size and pixel size from a grid, at every pixel of a lattice over the image (scalars and arrays); "
        "(b) every altitude/azimuth, site and time of a grid; (c) angular separations and parallactic angles over a grid of pairs. References: the slant orthographic "
        "projection written with direction cosines, ERFA's ICRS-to-observed routine, spherical trigonometry; non-trivial: off the phase centre")
ASSUMPTIONS = ["altitudes agree to 0.01 degrees with ERFA called without Earth-orientation tables"]


def cases(tier):
    t = tier == "thorough"
    ras = [0.0, 5.0, 60.0, 180.0, 359.5] if not t else [0.0, 0.01, 5.0, 60.0, 130.0, 180.0, 240.0, 300.0, 359.5, 359.99]
    decs = [-60.0, -30.0, -26.7, -10.0, 20.0] if not t else [-80.0, -60.0, -45.0, -30.0, -26.7, -10.0, 0.0, 20.0, 45.0]
    for ra, dec, dra, zdec, dim, dp in itertools.product(ras, decs, [0.0, -20.0, 15.0, 355.0] + ([-355.0, 40.0] if t else []), [-26.7, 0.0] if not t else [-26.7, 0.0, 30.0],
                                                         [(16, 16), (20, 12)], [0.1, 2.0] if not t else [0.05, 0.5, 2.0]):
        yield dict(part="pix", ra=ra, dec=dec, zra=(ra + dra) % 360, zdec=zdec, dim=list(dim), dp=dp)
    alts = [90, 60, 30, 10] if not t else [90, 89, 75, 60, 45, 30, 15, 5, 0]
    for az, lat, lon, jd in itertools.product([0, 45, 90, 135, 180, 225, 270, 315], [-26.7, 0.0, 40.0], [116.67, -70.0], [2456840.432178912, 2457000.9, 2459000.150023]):
        for h in ((377.8,) if not t else (0.0, 377.8, 5000.0)):
            yield dict(part="altaz", alts=alts, az=az, lat=lat, lon=lon, jd=jd, h=h)
    for d1, d2 in itertools.product([-90, -60, -26.7, 0, 10, 45, 89], repeat=2):
        yield dict(part="angle", d1=d1, d2=d2)


def vec(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec) + 0 * ra])


def frame(ra, dec):
    """unit vectors east, north, line of sight"""
    a, d = math.radians(ra), math.radians(dec)
    return np.array([[-math.sin(a), math.cos(a), 0], [-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)],
                     [math.cos(d) * math.cos(a), math.cos(d) * math.sin(a), math.sin(d)]])


def check(c):
    r = Result()
    ok = lambda good, tag, msg: r.expect(good, tag, msg)
    if c["part"] == "pix":
        nx, ny = c["dim"]
        meta = dict(phasera=c["ra"], phasedec=c["dec"], zenra=c["zra"], zendec=c["zdec"], obsx=nx // 2, obsy=ny // 2, jd0=2456840.4)
        F = frame(c["ra"], c["dec"]); z = F @ vec(c["zra"], c["zdec"])
        if z[2] < 0.1:
            r.nontrivial = False
            return r
        astr, zx, zy = project_slant_orthographic(meta, dict(dimension=nx, elements=ny, degpix=c["dp"])); r.steps += 1
        xi, eta = z[0] / z[2], z[1] / z[2]
        ok(close(astr["pv2"], [xi, eta], rtol=1e-7, atol=1e-9), "slant", lambda: f"projection terms {astr['pv2']}, expected {[xi, eta]}")
        k = math.radians(c["dp"])

        def project(ra, dec):
            l, m, n = np.tensordot(F, vec(ra, dec), 1)
            return (l + xi * (1 - n)) / k + nx // 2, (m + eta * (1 - n)) / k + ny // 2, n
        ex = project(c["zra"], c["zdec"])
        ok(close([zx, zy], ex[:2], rtol=1e-7, atol=1e-6), "zenith", lambda: f"zenith pixel {zx, zy}, expected {ex}")
        # lattice of directions around the phase centre
        off = [-0.8, -0.3, 0.0, 0.25, 0.7]
        L, M = np.meshgrid(np.array(off) * k * nx / 2, np.array(off) * k * ny / 2)
        rr = L ** 2 + M ** 2
        inside = rr < 0.9
        v = F.T @ np.array([L[inside], M[inside], np.sqrt(1 - rr[inside])])
        ra, dec = np.degrees(np.arctan2(v[1], v[0])) % 360, np.degrees(np.arcsin(v[2]))
        x, y = radec_to_pixel(ra, dec, astr); r.steps += 1
        e = project(ra, dec)
        ok(close(x, e[0], atol=1e-6) and close(y, e[1], atol=1e-6), "forward", lambda: diff(x, e[0]) + "; " + diff(y, e[1]))
        for i in range(0, len(ra), 7):
            xs, ys = radec_to_pixel(float(ra[i]), float(dec[i]), astr); r.steps += 1
            ok(abs(xs - e[0][i]) < 1e-6 and abs(ys - e[1][i]) < 1e-6, "forward scalar", lambda: f"{xs, ys} expected {e[0][i], e[1][i]}")
        if len(ra):
            xs, ys = radec_to_pixel(ra[:1], dec[:1], astr); r.steps += 1
            ok(close(xs, e[0][:1], atol=1e-6) and close(ys, e[1][:1], atol=1e-6), "forward one", lambda: f"{xs, ys} expected {e[0][:1], e[1][:1]}")
        # the inverse, at every pixel
        X, Y = np.meshgrid(np.arange(nx), np.arange(ny))
        ra2, dec2 = pixel_to_radec(X, Y, astr); r.steps += 1
        ra2, dec2 = np.asarray(ra2, dtype=float), np.asarray(dec2, dtype=float)
        px, py = (X - nx // 2) * k, (Y - ny // 2) * k
        # pixel -> direction: solve (px - xi(1-n))^2 + (py - eta(1-n))^2 + n^2 = 1 for n
        a_, b_ = px - xi, py - eta
        A = xi * xi + eta * eta + 1; B = a_ * xi + b_ * eta; C = a_ * a_ + b_ * b_ - 1
        disc = B * B - A * C
        n_ = (-B + np.sqrt(np.where(disc >= 0, disc, np.nan))) / A
        sure = np.abs(disc) > 1e-6
        sky = np.isfinite(n_)
        ok(np.array_equal(np.isnan(ra2)[sure], ~sky[sure]), "horizon", "pixels without a sky position differ")
        g = sure & sky & np.isfinite(ra2)
        w = F.T @ np.array([a_[g] + xi * n_[g], b_[g] + eta * n_[g], n_[g]])
        sep = np.linalg.norm(vec(ra2[g], dec2[g]) - w, axis=0)
        ok(g.any() and sep.max() < 1e-7, "inverse", lambda: f"largest direction error {sep.max() if g.any() else 'none'}")
        r.out = [xi, eta, e[0], e[1], sky]
        r.nontrivial = True
    elif c["part"] == "altaz":
        out = []
        for alt in c["alts"]:
            ra, dec = altaz_to_radec(alt, c["az"], c["lat"], c["lon"], c["h"], c["jd"])
            alt2, az2 = radec_to_altaz(ra, dec, c["lat"], c["lon"], c["h"], c["jd"]); r.steps += 2
            ok(0 <= ra < 360 and -90 <= dec <= 90 and 0 <= az2 < 360 + 1e-9, "ranges", lambda: f"ra/dec {ra, dec} alt/az {alt2, az2}")
            s = np.linalg.norm(vec(az2, alt2) - vec(c["az"], alt))
            ok(s < 1e-7, "round trip", lambda: f"alt/az {alt, c['az']} came back as {alt2, az2}")
            aob, zob, hob, dob, rob, eo = erfa.atco13(math.radians(ra), math.radians(dec), 0, 0, 0, 0, c["jd"], 0.0, 0.0, math.radians(c["lon"]), math.radians(c["lat"]), c["h"], 0, 0, 0, 0, 0, 1)
            s = np.degrees(np.linalg.norm(vec(np.degrees(aob), 90 - np.degrees(zob)) - vec(c["az"], alt)))
            ok(s < 0.01, "reference", lambda: f"ra/dec {ra, dec} for alt/az {alt, c['az']} is {s} degrees off")
            out.append([ra, dec])
        r.out = out
    else:
        out = []
        for r1, r2 in itertools.product([0, 30, 100, 200, 359], repeat=2):
            v1, v2 = vec(r1, c["d1"]), vec(r2, c["d2"])
            e = np.degrees(np.arctan2(np.linalg.norm(np.cross(v1, v2)), v1 @ v2))
            for deg in (True, False):
                a = angle_difference(*[x if deg else math.radians(x) for x in (r1, c["d1"], r2, c["d2"])], degree=deg); r.steps += 1
                ok(abs(a - e) < 1e-7, "separation", lambda: f"{r1, c['d1'], r2, c['d2']}: {a}, expected {e}")
            if abs(c["d1"]) < 89.5 and abs(c["d2"]) < 89.5 and e > 1e-3:
                # d1 plays the latitude, r1 - r2 the hour angle: angle at the source between pole and zenith
                q = parallactic_angle(c["d1"], r1 - r2, c["d2"]); r.steps += 1
                F = frame(-(r1 - r2), c["d2"]); z = F @ vec(0.0, c["d1"])
                eq = np.degrees(np.arctan2(z[0], z[1]))
                ok(abs((q - eq + 180) % 360 - 180) < 1e-6, "parallactic", lambda: f"lat {c['d1']} ha {r1 - r2} dec {c['d2']}: {q}, expected {eq}")
            out.append(e)
        r.out = out
    return r
