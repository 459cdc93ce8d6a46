"""D03: the observation description follows from the data, the tables and the options."""
import itertools, math
import numpy as np
from vf import Result, Scratch, NullLogger, close, diff
import mini
from PyFHD.data_setup.obs import create_obs

ID, LEVEL = "D03", "exploration"
RULE = ("every combination of (a) antenna numbering (all permutations and shifts of up to 4 antennas) and baseline set, (b) channel count, averaging and "
        "resolution, (c) numbers of times and of rows per time, (d) uv-plane options (dimension, elements, kbinsize, FoV, minimum baseline); create_obs is "
        "compared with direct definitions; non-trivial: more than one channel, time or antenna")
ASSUMPTIONS = ["rows are grouped by time with times increasing"]


def cases(tier):
    t = tier == "thorough"
    nums = [list(p) for n in ((2, 3) if not t else (2, 3, 4)) for p in itertools.permutations(range(1, n + 1))]
    nums += [[2, 3, 1, 5], [4, 3, 2, 1], [10, 20, 30, 40], [2, 3, 4, 5], [0, 1, 2], [5, 4, 1, 2], [3, 1, 4, 2], [7, 1, 2, 3, 4], [2, 4, 6, 8, 1, 3, 5, 7], [11, 2, 1, 3]]
    for k, num in enumerate(nums):
        for use, nt in itertools.product(["num", "idx"], [1, 2]):
            for autos in (0, 1):
                yield dict(part="tiles", num=num, use=use, nt=nt, autos=autos, dup=k)
    for nf, avg, res, f0 in itertools.product([1, 2, 3, 4, 5, 6, 8] + ([12, 16, 24, 384] if t else [24]), [None, 1, 2, 3, 4, 8] + ([5, 16, 24] if t else []), [80e3, 5e5], [180e6, 167.075e6]):
        yield dict(part="freq", nf=nf, avg=avg, res=res, f0=f0)
    rows = [1, 2, 3]
    for n in range(1, 4 if not t else 6):
        for sizes in itertools.product(rows, repeat=n):
            yield dict(part="time", sizes=list(sizes))
    for dim, el, kb, fov, mb in itertools.product([None, 8, 16, 20], [None, 8, 16, 32], [None, 0.5, 1.0, 3], [None, 0, 60.0, 10.0], [None, 0, 1.0, 5.0, 1e3]):
        for ext in ((1.0, 4.0, 30.0) if t else (1.0, 30.0)):
            yield dict(part="uv", dim=dim, el=el, kb=kb, fov=fov, mb=mb, ext=ext)


def base(c):
    nums = c.get("num", [1, 2, 3]); nt_sizes = c.get("sizes")
    n = len(nums)
    pairs = [(i, j) for i in range(n) for j in range(i, n) if c.get("autos", 1) or i != j]
    if nt_sizes is None:
        nt_sizes = [len(pairs)] * c.get("nt", 2)
    a, b, tm = [], [], []
    for t, s in enumerate(nt_sizes):
        for i, j in (pairs * 3)[:s]:
            a.append(i); b.append(j); tm.append(2456840.4 + (t + 0.5) * 2 / 86400)
    a, b, tm = np.array(a), np.array(b), np.array(tm)
    ext = c.get("ext", 1.0)
    k = np.arange(len(a))
    uu = np.where(a == b, 0, (3.0 * (b - a) + 0.3 * k) * 1e-9 * ext); vv = np.where(a == b, 0, (1.0 - 0.7 * k + b) * 1e-9 * ext)
    if not np.any(uu):  # a lone autocorrelation cannot define any baseline length
        uu = uu + 1e-9
    nf, res, f0 = c.get("nf", 4), c.get("res", 80e3), c.get("f0", 180e6)
    tab = np.array(nums)
    A, B = (tab[a], tab[b]) if c.get("use", "num") == "num" else (a + 1, b + 1)
    header = dict(n_pol=2, n_tile=n, n_freq=nf, freq_res=res, frequency_array=f0 + res * np.arange(nf), lat=mini.MWA[1], lon=mini.MWA[0], alt=mini.MWA[2], obsra=5.0, obsdec=-27.0)
    params = dict(uu=uu, vv=vv, ww=uu * 0, time=tm, antenna1=A.astype(float), antenna2=B.astype(float))
    layout = {"antenna_numbers": tab}
    cfg = dict(n_pol=0, instrument="mwa", obs_id="x", beam_nfreq_avg=c.get("avg", 2), FoV=c.get("fov"), kbinsize=c.get("kb", 0.5), dimension=c.get("dim", 16),
               elements=c.get("el", 16), min_baseline=c.get("mb", 0.0), time_cut=None, dft_threshold=False, healpix_inds=None, override_target_phasera=None,
               override_target_phasedec=None, run_simulation=False)
    return header, params, layout, cfg, a, b


def check(c):
    r = Result(); log = NullLogger()
    header, params, layout, cfg, a, b = base(c)
    if c["part"] == "tiles" and c["use"] == "idx" and not set(np.concatenate([a, b]) + 1) <= set(c["num"]):
        # indices in the file are only kept where they are no other antenna's number
        known = {v: i + 1 for i, v in reversed(list(enumerate(c["num"])))}
        ea, eb = np.array([known.get(i + 1, i + 1) for i in a]), np.array([known.get(i + 1, i + 1) for i in b])
    elif c["part"] == "tiles" and c["use"] == "idx":
        known = {v: i + 1 for i, v in enumerate(c["num"])}
        ea, eb = np.array([known[i + 1] for i in a]), np.array([known[i + 1] for i in b])
    else:
        ea, eb = a + 1, b + 1
    if c["part"] == "tiles" and max(params["antenna1"].max(), 0) == 0:
        return r
    kpix = (180 / math.pi) / cfg["FoV"] if cfg["FoV"] else (0.5 if cfg["kbinsize"] is None else cfg["kbinsize"])
    kxy = np.abs(np.stack([np.outer(header["frequency_array"], params[k]) for k in ("uu", "vv")]))
    dim, el = cfg["dimension"], cfg["elements"]
    if dim is None and el is None:
        dim = el = 2 ** int(math.log10(2 * kxy.max() / kpix) / math.log10(2)) if 2 * kxy.max() / kpix >= 1 else 0
    dim, el = (dim if dim is not None else el), (el if el is not None else dim)
    if not ((kxy[0] / kpix < dim / 2) & (kxy[1] / kpix < el / 2)).any():
        r.nontrivial = False
        return r  # no visibility fits on the requested plane
    u0, v0 = params["uu"].copy(), params["vv"].copy()
    with Scratch() as d:
        cfg["input_path"] = str(d)
        obs = create_obs(header, params, layout, cfg, log)
    r.steps = 1
    bi = obs["baseline_info"]; n = len(c.get("num", [1, 2, 3])); f = header["frequency_array"]; nf = len(f)
    eq = lambda got, exp, tag: r.expect(close(got, exp, rtol=1e-11), tag, lambda: f"{tag}: {diff(got, exp)}")
    eq(bi["tile_a"], ea, "tile_a"); eq(bi["tile_b"], eb, "tile_b"); eq(params["antenna1"], ea, "antenna1"); eq(params["antenna2"], eb, "antenna2")
    eq(params["uu"], u0, "uu"); eq(params["vv"], v0, "vv")
    tu = sorted(set(params["time"])); sizes = [int(np.sum(params["time"] == x)) for x in tu]
    eq(obs["n_time"], len(tu), "n_time"); eq(bi["bin_offset"], np.cumsum([0] + sizes[:-1]), "bin_offset"); eq(obs["n_baselines"], sizes[0], "n_baselines")
    eq(bi["jdate"], tu, "jdate"); eq(obs["jd0"], tu[0], "jd0"); eq(obs["n_vis"], len(a) * nf, "n_vis"); eq(bi["time_use"], np.ones(len(tu)), "time_use"); eq(obs["n_time_flag"], 0, "n_time_flag")
    eq(obs["n_pol"], 2, "n_pol"); eq(obs["n_freq"], nf, "n_freq"); eq(obs["n_tile"], n, "n_tile"); eq(obs["nf_vis"], np.zeros(nf), "nf_vis"); eq(bi["freq_use"], np.ones(nf), "freq_use")
    eq(bi["freq"], f, "freq"); eq(obs["freq_center"], sorted(f)[nf // 2] if nf % 2 else (f[nf // 2 - 1] + f[nf // 2]) / 2, "freq_center"); eq(obs["freq_res"], header["freq_res"], "freq_res")
    avg = cfg["beam_nfreq_avg"] or 1
    eq(bi["fbin_i"], np.arange(nf) // avg, "fbin_i")
    # uv plane
    kx, ky = np.outer(f, u0), np.outer(f, v0); kr = np.hypot(kx, ky); mx = max(np.abs(kx).max(), np.abs(ky).max())
    eq(obs["kpix"], kpix, "kpix"); eq(obs["dimension"], dim, "dimension"); eq(obs["elements"], el, "elements"); eq(obs["degpix"], (180 / math.pi) / (kpix * dim), "degpix")
    ins = (np.abs(kx) / kpix < dim / 2) & (np.abs(ky) / kpix < el / 2)
    if ins.any():
        eq(obs["max_baseline"], kr[ins].max(), "max_baseline")
    mn = kr[kr > 0].min()
    eq(obs["min_baseline"], mn if cfg["min_baseline"] is None else max(mn, cfg["min_baseline"]), "min_baseline")
    eq(obs["obsx"], dim // 2, "obsx"); eq(obs["obsy"], el // 2, "obsy")
    eq(obs["astr"]["naxis"], [dim, el], "naxis"); eq(obs["astr"]["crpix"], [dim // 2 + 1, el // 2 + 1], "crpix"); eq(obs["astr"]["cdelt"], [obs["degpix"]] * 2, "cdelt")
    eq(obs["astr"]["crval"], [5.0, -27.0], "crval")
    # no metafits: tiles without data are flagged
    present = set(ea) | set(eb)
    eq(bi["tile_use"], [int(i + 1 in present) for i in range(n)], "tile_use"); eq(bi["tile_flag"], [int(i + 1 not in present) for i in range(n)], "tile_flag")
    eq(obs["n_tile_flag"], n - len([i for i in range(n) if i + 1 in present]), "n_tile_flag")
    eq(obs["time_res"], (tu[1] - tu[0]) * 86400 if len(tu) > 1 else 1, "time_res")
    r.out = [ea, eb, bi["fbin_i"], kpix, dim, el, obs["max_baseline"], obs["min_baseline"], sizes, f]
    return r
