"""P04: data and model values of flagged samples never reach a product."""
import itertools, math, os
from pathlib import Path
import numpy as np
import e2e, mini
import P03
from vf import Result, Scratch, tree_diff

ID, LEVEL = "P04", "exploration"
RULE = ("whole runs in pairs that differ only in the data values, or the model values, of flagged samples: every kind of set of flagged samples (each polarisation and channel of one baseline, baselines, tiles, channels and times, by weights of zero or less, by the tile flags of the metafits, by the options) with every option; all products "
        "are equal, but for the values stored of the flagged samples themselves; non-trivial: all")
ASSUMPTIONS = ["values are finite", "the auto-correlations are not altered, and gains start from one value (the start taken from auto-correlations and robust means of all samples uses flagged ones)", "of four polarisations, all are flagged alike", "channels flagged in all samples are put back into use if they hold data, as documented, and are not altered"]
CHUNK = 2
KINDS = ["sample0", "sample1", "negative", "baseline", "tile", "channel-time", "time", "both-pols", "meta", "option"]
warmup = P03.warmup


def cases(tier):
    seen = []
    for c in every(tier):
        if c not in seen:
            seen.append(c); yield c


def every(tier):
    t = tier == "thorough"
    scenes = [dict(n_time=3), dict(n_pol=4, n_time=3), dict(n_time=3, avg=2, autos=False)]
    opts = [o for o in P03.OPTIONS if "calibration_auto_initialize" not in o and o.get("flag_basic", True) and not {"flag_freq_start", "flag_freq_end"} & set(o)]  # these channels come back into use
    for s, k in itertools.product(scenes, KINDS):
        for j, o in enumerate([{}, dict(bandpass_calibrate=True, calibration_polyfit=True), dict(calibration_auto_fit=True)]):
            if j == 2 and s.get("autos") is False: continue
            yield dict(scene=dict(s), kind=k, opt=dict(o))
    for i, (k, o) in enumerate(itertools.product(KINDS, opts)):
        if o and o not in (dict(calibration_auto_fit=True),) and (t or i % 5 == 0):
            for s in scenes if t else scenes[i % 2:i % 2 + 1]:
                if not (k == "option" and "flag_tiles" in o or s.get("autos") is False and "calibration_auto_fit" in o):
                    yield dict(scene=dict(s), kind=k, opt=dict(o))


def flag(o, kind, opt):
    """Marks samples as flagged, and returns which."""
    m = np.zeros(o.vis.shape, bool); cross = np.nonzero(o.ant1 != o.ant2)[0]; bad = 0
    tile = lambda t: (o.ant1 == t) | (o.ant2 == t)
    if kind == "sample0": m[0, 1, cross[7]] = True
    elif kind == "sample1": m[1, 2, cross[3]] = m[1, 3, cross[12]] = True
    elif kind == "negative": m[:, 1, cross[5]] = m[0, 0, cross[9]] = True; bad = -1
    elif kind == "baseline": m[:, :, cross[4]] = True
    elif kind == "tile": m[:, :, tile(8)] = True
    elif kind == "channel-time": m[:, 2, o.n_bl:2 * o.n_bl] = True
    elif kind == "time": m[:, :, o.n_bl:2 * o.n_bl] = True
    elif kind == "both-pols": m[:2, :, cross[6]] = True
    elif kind == "meta": m[:, :, tile(3)] = True
    elif kind == "option": m[:, :, tile(5)] = True; opt["flag_tiles"] = ["5"]
    if o.n_pol == 4: m[:] = m.any(axis=0)
    if kind not in ("meta", "option"):
        o.wts[m] = bad
    return m & (o.ant1 != o.ant2)


def check(c):
    r = Result(); sc = dict(c["scene"]); opt = dict(P03.PLAIN, calibration_auto_initialize=False, **c["opt"]); avg = opt["beam_nfreq_avg"] = opt.get("beam_nfreq_avg") or sc.get("avg", 4)
    sc["avg"] = avg
    with Scratch() as d:
        s = e2e.Scene(d / "s", tiles=(1, 2, 3, 4, 5, 8, 9, 12), flags=False, **sc); o = s.obs
        if c["kind"] == "meta": o.flagged_meta = o.flagged_meta + [3]
        m = flag(o, c["kind"], opt); files = d / "s" / "in"
        vis, model = o.vis.copy(), o.model.copy(); out = {}
        shift = (3 + 1j) * mini.pattern(vis.shape, 9) * m
        for name, v, mo in (("as is", vis, model), ("data", vis + 50 * shift, model), ("zero", np.where(m, 0, vis), model), ("model", vis, model + 7 * shift)):
            o.vis = v
            for f in list(files.glob("*")) + [d / "s" / "model.uvfits"]: f.unlink()
            o.write_uvfits(files / f"{e2e.OBS}.uvfits"); o.write_metafits(files / f"{e2e.OBS}.metafits"); o.write_uvfits(d / "s" / "model.uvfits", mo)
            rc, where, said, _ = e2e.run(s, d, "o", **opt); r.steps += 1
            if not r.expect(rc == 0, "ends", f"{name}: ends with {rc}: {said}"):
                return r
            got = {n: e2e.contents(p) for n, p in e2e.products(where).items() if p.suffix in (".h5", ".fits") and "/raw_vis_arr" not in n}
            for f in sorted(where.parent.rglob("*"), reverse=True): f.unlink() if f.is_file() else f.rmdir()
            for n in list(got):
                if "raw_vis_arr" in n or "calibrated_vis_arr" in n or n.startswith("checkpoints/"):
                    if "gridding" not in n: got[n] = blank(got[n], m)
            out[name] = got
    base = out.pop("as is")
    for name, got in out.items():
        if not r.expect(set(got) == set(base), "products", lambda: f"{name}: {sorted(set(got) ^ set(base))}"):
            continue
        for n in base:
            x = tree_diff(got[n], base[n])
            r.expect(x is None, f"altered by flagged {'model' if name == 'model' else 'data'}", lambda: f"{name}: {n}: {x}")
    r.out = [c["kind"], base[f"visibilities/{e2e.OBS}_calibrated_vis_weights.h5"]]
    return r


def blank(x, m):
    """x without the visibilities of the marked samples"""
    if isinstance(x, dict):
        return {k: blank(v, m) for k, v in x.items()}
    return np.where(m, 0, x) if isinstance(x, np.ndarray) and x.shape == m.shape and x.dtype.kind == "c" else x
