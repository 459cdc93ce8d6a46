"""P02: a run writes exactly the products asked for, and what it writes does not depend on what else is asked for."""
import itertools, os
from pathlib import Path
import e2e
import yaml
from vf import Result, Scratch, tree_diff

ID, LEVEL = "P02", "exploration"
RULE = ("whole runs with every combination of the saving, checkpoint, image, HEALPix, gridding and stopping options (quick: those that differ from all-on or all-off in at most two, or one for uncalibrated, cross-polarised and unsplit runs); the names of all files are compared with those documented, "
        "and their contents with those of the run that saves everything; non-trivial: something is left out")
ASSUMPTIONS = ["one small observation", "calibration plots off"]
CHUNK = 4
FLAGS = ("save_checkpoints", "save_obs", "save_params", "save_cal", "save_visibilities", "save_weights", "export_images", "snapshot_healpix_export", "recalculate_grid", "cal_stop")
STATE = {}


def cases(tier):
    for key in itertools.product((1, 0), (2, 4), (1, 0)):
        for bits in range(2 ** len(FLAGS)):
            on = bin(bits).count("1")
            if (tier == "thorough" and key[2]) or min(on, len(FLAGS) - on) <= (3 if tier == "thorough" else 2 if key == (1, 2, 1) else 1):
                yield dict(cal=key[0], npol=key[1], split=key[2], bits=bits)


def warmup():
    d = Path(os.environ.get("VERIF_SCRATCH", "/tmp"), "p02")
    STATE["d"] = d
    e2e.warm(d)
    STATE["scene"] = {n: e2e.Scene(d / f"s{n}", n_pol=n) for n in (2, 4)}


def baseline(case, on):
    """Contents of the products of the run of the same kind that saves all; kept by this process."""
    key = (case["cal"], case["npol"], case["split"], on["recalculate_grid"], on["cal_stop"])
    if key not in STATE:
        with Scratch() as w:
            over = {f: True for f in FLAGS}
            over.update(calibrate_visibilities=bool(case["cal"]), split_ps_export=bool(case["split"]), recalculate_grid=key[3], cal_stop=key[4])
            rc, out, said, _ = e2e.run(STATE["scene"][case["npol"]], w, "base", **over)
            STATE[key] = (rc, said, {n: e2e.contents(p) for n, p in e2e.products(out).items()})
    return STATE[key]


def expected(case, on):
    o, pols = e2e.OBS, ("XX", "YY", "XY", "YX")[:case["npol"]]
    names = {"layout.h5"}
    vis = on["save_visibilities"] or on["snapshot_healpix_export"]  # documented: the export turns saving visibilities on
    through = not on["cal_stop"]
    if on["save_checkpoints"]:
        names |= {"checkpoints/a_obs_checkpoint.h5"}
        if case["cal"]: names |= {"checkpoints/a_calibration_checkpoint.h5"}
        if through and on["recalculate_grid"]: names |= {"checkpoints/a_gridding_checkpoint.h5"}
    if on["save_obs"]: names |= {f"metadata/{o}_obs.h5"}
    if on["save_params"]: names |= {f"metadata/{o}_params.h5"}
    if on["save_cal"] and case["cal"]: names |= {f"calibration/{o}_cal.h5"}
    if vis:
        names |= {f"visibilities/{o}_raw_vis_arr.h5", f"visibilities/{o}_calibrated_vis_arr.h5"}
        if through and on["recalculate_grid"]:
            names |= {f"gridding/{o}_{x}_uv.h5" for x in ("image", "weights", "variance", "uniform_filter", "model")}
    if on["save_weights"]: names |= {f"visibilities/{o}_raw_vis_weights.h5", f"visibilities/{o}_calibrated_vis_weights.h5"}
    if through and on["recalculate_grid"] and on["export_images"]:
        shown = ("XX", "YY") + (("XY_real", "XY_imag") if case["npol"] == 4 else ())
        names |= {f"fits/{o}_{k}_{p}.fits" for k in ("uniform_dirty", "uniform_model", "uniform_residual", "beam", "uv_weights") for p in shown}
    if through and on["snapshot_healpix_export"]:
        halves = ("even", "odd") if case["split"] else ("",)
        for h in halves:
            names |= {f"healpix/{o}_{'hpx_' + h if h else 'healpix_cube'}_{p}.h5" for p in pols}
            names |= {f"healpix/uvf_grid/{o}_{h}_{p}_{k}_gridded_uvf.h5" for p in pols for k in ("dirty_uv_arr", "model_uv_arr", "variance_uv_arr", "weights_uv")}
    return names


def same_option(a, b):
    if a is None or b is None: return a is None and b is None
    try: return float(a) == float(b)
    except (TypeError, ValueError): return str(a) == str(b)


def records(r, lab, out, given):
    """The log, and the options as given and as used, are found beside the products."""
    files = [str(p.relative_to(out)) for p in sorted(Path(out).rglob("*")) if p.is_file() and (p.suffix == ".log" or p.relative_to(out).parts[0] == "config")]
    logs = [f for f in files if f.endswith(".log")]; yamls = [f for f in files if f.endswith(".yaml")]
    shape = len(files) == 4 and "config/pyfhd_config.h5" in files and len(logs) == 1 and len(yamls) == 2 and sum(y.endswith("-final.yaml") for y in yamls) == 1
    if not r.expect(shape, "records", f"{lab}: the log and the configuration are {files}"): return
    r.expect((Path(out) / logs[0]).stat().st_size > 0, "log", f"{lab}: the log is empty")
    for f in ["config/pyfhd_config.h5"] + yamls:
        have = e2e.h5tree(Path(out) / f) if f.endswith("h5") else yaml.safe_load((Path(out) / f).read_text())
        have = {k.replace("-", "_"): v for k, v in have.items()}
        bad = [(k, have.get(k, "missing"), v) for k, v in given.items() if not (k in have and same_option(have[k], v))]
        r.expect(not bad, "options", lambda: f"{lab}: {f} has (option, value, given) {bad[:4]}")


def check(case):
    r = Result()
    on = {f: bool(case["bits"] >> i & 1) for i, f in enumerate(FLAGS)}
    rc0, said0, base = baseline(case, on)
    with Scratch() as w:
        rc, out, said, _ = e2e.run(STATE["scene"][case["npol"]], w, "o", calibrate_visibilities=bool(case["cal"]), split_ps_export=bool(case["split"]), **on)
        r.steps += 1
        lab = f"cal={case['cal']} n_pol={case['npol']} split={case['split']} on: {[f for f in on if on[f]]}"
        r.expect(rc0 == 0, "baseline", f"{lab}: the run that saves all ends with {rc0}: {said0}")
        if not r.expect(rc == 0, "ends", f"{lab}: ends with {rc}: {said}"): return r
        given = {**e2e.BASE, "input_path": STATE["scene"][case["npol"]].d / "in", "n_pol": case["npol"], "calibrate_visibilities": bool(case["cal"]), "split_ps_export": bool(case["split"]), **on}
        if on["snapshot_healpix_export"]: given.pop("save_visibilities")  # turned on by the export
        records(r, lab, out, given)
        got = e2e.products(out)
        want = expected(case, on)
        r.nontrivial = not all(on[f] for f in FLAGS[:8])
        r.out = sorted(got)
        r.expect(set(got) == want, "files", f"{lab}: missing {sorted(want - set(got))[:6]}, extra {sorted(set(got) - want)[:6]}")
        for n in sorted(set(got) & want):
            if n not in base:
                r.fail("baseline", f"{lab}: {n} is not written when everything is saved"); continue
            d = tree_diff(e2e.contents(got[n]), base[n])
            r.expect(d is None, f"contents:{n.split('/')[0]}", lambda: f"{lab}: {n} differs from that of the run that saves all: {d}")
    return r
