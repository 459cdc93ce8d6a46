"""D01: what is read from a UVFITS file is what the file holds."""
import itertools
import numpy as np
import uvf
from vf import Result, Scratch, NullLogger, close, diff
import mini
from PyFHD.data_setup.uvfits import extract_header, create_params, extract_visibilities

ID, LEVEL = "D01", "exploration"
RULE = ("UVFITS files written by hand for every combination of sizes (times, frequencies, polarisations kept and stored), baseline sets "
        "and encodings, group-parameter orders, scalings and precisions, degenerate axes, reference pixels and missing keywords; each is "
        "read by extract_header, create_params and extract_visibilities and compared with what was written; non-trivial: more than one row")
ASSUMPTIONS = ["one spectral window", "EarthLocation.of_site is stubbed (it downloads a registry)"]

PAIRSETS = {
    "full": [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)], "noauto": [(1, 2), (1, 3), (2, 3)], "no1": [(2, 2), (2, 3), (3, 3)],
    "no1noauto": [(2, 3), (2, 4), (3, 4)], "one": [(1, 2)], "high": [(1, 128), (127, 128), (128, 128)], "odd": [(5, 7), (7, 9)],
    "auto1": [(1, 1)], "late": [(3, 129), (130, 255)], "pow": [(2, 128), (4, 8), (64, 127)],
}
WIDE = {"wide": [(1, 300), (256, 257), (511, 2000)], "wide1": [(1, 1), (1, 2), (1, 256)]}
ORDERS = {"std": ["UU", "VV", "WW", "BASELINE", "DATE"], "bfirst": ["BASELINE", "UU", "VV", "WW", "DATE"], "dfirst": ["DATE", "WW", "BASELINE", "VV", "UU"],
          "mid": ["VV", "DATE", "UU", "BASELINE", "INTTIM", "WW"], "two": ["UU", "VV", "WW", "DATE", "DATE", "BASELINE"],
          "two2": ["DATE", "UU", "VV", "WW", "BASELINE", "FREQSEL", "DATE"], "ants": ["UU", "VV", "WW", "BASELINE", "DATE", "ANTENNA1", "ANTENNA2"],
          "antsonly": ["UU", "VV", "ANTENNA1", "ANTENNA2", "WW", "DATE"], "rev": ["DATE", "BASELINE", "WW", "VV", "UU"]}
NEED = ["UU", "VV", "WW", "BASELINE", "DATE"]


def cases(tier):
    t = tier == "thorough"
    # sizes
    for pairs, nt, nf, npol, keep, deg in itertools.product(["one", "noauto", "full"], [1, 2] if not t else [1, 2, 3], [1, 2, 3] if not t else [1, 2, 3, 5],
                                                            [1, 2, 3, 4], [0, 1, 2, 4], [2, 3]):
        if keep <= npol:
            yield dict(kind="read", part=1, pairs=pairs, nt=nt, nf=nf, npol=npol, keep=keep, deg=deg, order="std", bitpix=-64, scale=0, crpix=1)
    # encodings and orders
    for pairs, order, bitpix, scale in itertools.product(list(PAIRSETS) + list(WIDE), ORDERS, [-64, -32], [0, 1]):
        for crpix in ([1, 2] if not t else [1, 2, 3.5]):
            yield dict(kind="read", part=2, pairs=pairs, nt=2, nf=3, npol=2, keep=0, deg=3, order=order, bitpix=bitpix, scale=scale, crpix=crpix)
            if order in ("std", "two", "two2", "antsonly", "dfirst"):
                for x in ("full", "back"):
                    yield dict(kind="read", part=2, pairs=pairs, nt=3, nf=3, npol=2, keep=0, deg=3, order=order, bitpix=bitpix, scale=scale, crpix=(crpix * 1.5 + 0.25) if x == "full" else crpix, x=x)
    # every set of missing group parameters
    for k in range(1, 6):
        for miss in itertools.combinations(NEED, k):
            yield dict(kind="missing", miss=list(miss))
    for drop in itertools.chain.from_iterable(itertools.combinations(["OBSRA", "OBSDEC", "DATE-OBS", "LON", "LAT", "ALT"], k) for k in range(7)):
        for z in (0, 1):
            yield dict(kind="keys", drop=list(drop), z=z)
    # every pair of tiles whose file contains only that baseline
    top = 24 if not t else 128
    for a in range(1, top + 1):
        yield dict(kind="single", a=a, top=top)


def build(c):
    pairs = PAIRSETS.get(c["pairs"]) or WIDE[c["pairs"]]
    nb = len(pairs); n = nb * c["nt"]
    a = np.tile([p[0] for p in pairs], c["nt"]); b = np.tile([p[1] for p in pairs], c["nt"])
    enc = (2048 * a + b + 65536) if c["pairs"] in WIDE else 256 * a + b
    k = np.arange(n)
    q = 2.0 ** -20
    vals = {"UU": (3 * k - 5) * q, "VV": (7 - 2 * k) * q, "WW": (k * k % 11) * q, "BASELINE": enc,
            "DATE": 2456840.0 + (1 + k // nb) * 0.125, "ANTENNA1": a, "ANTENNA2": b, "INTTIM": np.full(n, 2.0), "FREQSEL": np.ones(n)}
    if c.get("x") == "full":  # values with all their digits
        vals["UU"], vals["VV"], vals["WW"] = (np.sin(k * f + 0.3) * 1.7e-7 for f in (1.1, 2.3, 3.7))
        vals["DATE"] = 2456840.0 + (1 + k // nb) * 0.123456789
    elif c.get("x") == "back":  # rows not in order of time
        vals["DATE"] = vals["DATE"][::-1].copy()
    groups, nd = [], ORDERS[c["order"]].count("DATE")
    seen = 0
    for g in ORDERS[c["order"]]:
        v, s, z = vals[g], 1.0, 0.0
        if g == "DATE":
            if nd == 2:
                v, z = (np.full(n, 2456840.0), 2456840.0) if seen == 0 else (vals["DATE"] - 2456840.0, 0.0)
                seen += 1
            else:
                z = 2456840.0
        elif g in ("UU", "VV", "WW") and c["scale"]:
            s = 2.0 ** -22
        groups.append((g, v, s, z))
    data = np.zeros((n, c["nf"], c["npol"], 3))
    m = np.arange(n * c["nf"] * c["npol"]).reshape(n, c["nf"], c["npol"])
    data[..., 0] = m + 0.5; data[..., 1] = 1000.25 - 3 * m; data[..., 2] = (m % 5 - 1) * 0.5
    if c.get("x") == "full":
        data[..., 0] += np.sin(m); data[..., 1] *= np.pi; data[..., 2] = (m % 7 - 3) * 0.7 * 16
        data.reshape(-1, 3)[1, :2] = np.nan; data.reshape(-1, 3)[2, 0] = np.inf
    return groups, data, vals, a, b


def check(c):
    r = Result(); log = NullLogger(); mini.stub_sites()
    with Scratch() as d:
        cfg = {"input_path": str(d), "obs_id": "x", "instrument": "mwa", "n_pol": c.get("keep", 0), "model_file_path": str(d / "m.uvfits")}
        if c["kind"] == "single":
            n = 0
            for b in range(c["a"], c["top"] + 1):
                data = np.ones((2, 1, 1, 3)); base = np.full(2, 256 * c["a"] + b)
                g = [("UU", [0, 1], 1, 0), ("VV", [0, 1], 1, 0), ("WW", [0, 1], 1, 0), ("BASELINE", base, 1, 0), ("DATE", [2456840.5, 2456841], 1, 2456840)]
                uvf.write(d / "x.uvfits", data, g)
                h, pd, _, _ = extract_header(cfg, log); p = create_params(h, pd, log); r.steps += 2
                r.expect(np.all(p["antenna1"] == c["a"]) and np.all(p["antenna2"] == b), "baseline",
                         lambda: f"baseline code of ({c['a']}, {b}) read as {p['antenna1']}, {p['antenna2']}")
            r.out = c["a"]
            return r
        if c["kind"] == "missing":
            base = dict(kind="read", pairs="full", nt=1, nf=2, npol=2, keep=0, deg=3, order="std", bitpix=-64, scale=0, crpix=1)
            groups, data, vals, a, b = build(base)
            uvf.write(d / "x.uvfits", data, [g for g in groups if g[0] not in c["miss"]] + [("OTHER", np.ones(len(a)), 1, 0)])
            r.steps += 1
            try:
                extract_header(cfg, log)
                r.fail("accepted", f"a file without {c['miss']} was accepted")
            except KeyError:
                pass
            said = " ".join(m for l, m in log.lines if l == "error")
            r.expect(all(f"parameter {m} " in said for m in c["miss"]), "unnamed", lambda: f"missing {c['miss']}, log says: {said}")
            return r
        if c["kind"] == "keys":
            base = dict(kind="read", pairs="full", nt=1, nf=2, npol=2, keep=0, deg=3, order="std", bitpix=-64, scale=0, crpix=1)
            groups, data, vals, a, b = build(base)
            hd = {"OBSRA": 11.5, "OBSDEC": -26.5, "RA": 12.5, "DEC": -25.5, "LON": 100.0, "LAT": -20.0, "ALT": 50.0, "DATEOBS": "2014-07-01T12:00:00"}
            if c.get("z"):  # zero is a place like any other
                hd = {k: v if isinstance(v, str) else 0.0 for k, v in hd.items()}
            uvf.write(d / "x.uvfits", data, groups, header=hd, drop=c["drop"])
            h, *_ = extract_header(cfg, log); r.steps += 1
            exp = {"obsra": 12.5 if "OBSRA" in c["drop"] else 11.5, "obsdec": -25.5 if "OBSDEC" in c["drop"] else -26.5,
                   "lon": mini.MWA[0] if "LON" in c["drop"] else 100.0, "lat": mini.MWA[1] if "LAT" in c["drop"] else -20.0,
                   "alt": mini.MWA[2] if "ALT" in c["drop"] else 50.0}
            if c.get("z"):
                exp = {k: 0.0 if k in ("obsra", "obsdec") or k.upper() not in c["drop"] else v for k, v in exp.items()}
            for k, v in exp.items():
                r.expect(abs(h[k] - v) < 1e-6, "header:" + k, lambda: f"{k}: {h[k]}, expected {v}")
            r.out = exp
            return r
        groups, data, vals, a, b = build(c)
        fr = (180e6, 2.5e5, c["crpix"])
        uvf.write(d / "x.uvfits", data, groups, bitpix=c["bitpix"], freq=fr, n_degenerate=c["deg"])
        for model in (False, True):
            if model:
                uvf.write(d / "m.uvfits", data, groups, bitpix=c["bitpix"], freq=fr, n_degenerate=c["deg"])
                (d / "x.uvfits").unlink()
            h, pd, _, _ = extract_header(cfg, log, model_uvfits=model)
            p = create_params(h, pd, log)
            v, w = extract_visibilities(h, pd, cfg, log)
            r.steps += 3
            npol = c["keep"] or c["npol"]
            exp_v = (data[..., 0] + 1j * data[..., 1]).transpose(2, 1, 0)[:npol]
            exp_w = data[..., 2].transpose(2, 1, 0)[:npol]
            cl = lambda a, b: close(np.stack([a.real, a.imag]), np.stack([b.real, b.imag]), rtol=1e-6 if c["bitpix"] == -32 else 1e-12)
            r.expect(cl(v, exp_v), "vis", lambda: diff(v, exp_v)); r.expect(cl(w, exp_w), "weights", lambda: diff(w, exp_w))
            r.expect(v.dtype == np.complex128 and w.dtype == np.float64, "precision", lambda: f"{v.dtype} {w.dtype}")
            for k, g in (("uu", "UU"), ("vv", "VV"), ("ww", "WW")):
                r.expect(close(p[k], vals[g], rtol=1e-6 if c["bitpix"] == -32 else 1e-12, atol=0) and p[k].dtype == np.float64, k, lambda: diff(p[k], vals[g]))
            tt = np.asarray(p["time"], dtype=float)
            r.expect(tt.shape == vals["DATE"].shape and np.max(np.abs(tt - vals["DATE"])) < (2e-9 if c["bitpix"] == -64 else 1e-8 if c.get("x") != "full" else 1e-6), "time", lambda: diff(tt, vals["DATE"]))
            r.expect(np.array_equal(p["antenna1"], a) and np.array_equal(p["antenna2"], b), "antennas", lambda: f"{p['antenna1']} {p['antenna2']} expected {a} {b}")
            f = fr[0] + (np.arange(c["nf"]) - (fr[2] - 1)) * fr[1]
            r.expect(close(h["frequency_array"], f, rtol=1e-12), "freq", lambda: diff(h["frequency_array"], f))
            r.expect((h["n_pol"], h["n_freq"], h["n_baselines"], h["freq_res"]) == (c["npol"], c["nf"], len(a), fr[1]), "sizes",
                     lambda: (h["n_pol"], h["n_freq"], h["n_baselines"], h["freq_res"]))
            r.expect((h["obsra"], h["obsdec"]) == (10.0, -27.0), "pointing", lambda: (h["obsra"], h["obsdec"]))
            r.expect(abs(h["jd0"] - 2456840.0) < 1e-8, "jd0", lambda: h["jd0"])
        r.out = [v, w, a, b, f]
        r.nontrivial = len(a) > 1
    return r
