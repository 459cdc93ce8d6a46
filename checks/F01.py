"""F01: options that cannot work are refused before the run starts, with a failure status; all others reach the run as given."""
import argparse, itertools, os
from pathlib import Path
from conf import inside, parse, setup, put, INTERNAL
from vf import Result, Scratch
import F02

ID, LEVEL = "F01", "exploration"
RULE = ("every option alone with each of its values; every set of up to two (three in the thorough run) of all conditions that make options invalid, and of all options that change others; every form of output path and description; "
        "against a list of the conditions written down separately; non-trivial: some condition given")
ASSUMPTIONS = ["a configuration file exists", "one nominal mode for reflection fits at a time"]

# name: (arguments, files made)
FILEOPTS = ("cal-bp-transfer", "diffuse-calibrate", "calibration_catalog-file-path", "transfer-calibration", "transfer-model-uv", "transfer-weights",
            "diffuse-model", "model-catalog-file-path", "IDL_variables_file", "in-situ-sim-input", "eor-vis-filepath", "sim-noise", "healpix-inds")
ATOMS = {}
for o in FILEOPTS:
    ATOMS[f"{o}:present"] = ({o: "some file.dat"}, [])
    ATOMS[f"{o}:missing"] = ({o: "absent.dat"}, [])
    ATOMS[f"{o}:missingdir"] = ({o: "nodir/some file.dat"}, [])
ATOMS.update({
    "noinput": ({"input-path": "nowhere"}, []), "nouvfits": ({"input-path": "in_m"}, []), "nometafits": ({"input-path": "in_u"}, []),
    "run-simulation": ({"run-simulation": True}, []), "restrict": ({"restrict-healpix-inds": True}, []),
    "eor2": ({"enhance-eor": "2"}, []), "eor0.5": ({"enhance-eor": "0.5"}, []), "eor1": ({"enhance-eor": "1"}, []),
    "sidelobe": ({"allow-sidelobe-model-sources": True}, []),
    "recalc": ({"recalculate-all": True}, []), "healpix": ({"snapshot-healpix-export": True}, []), "savevis": ({"save-visibilities": True}, []),
    "offset-": ({"beam-offset-time": "-5"}, []), "offset+": ({"beam-offset-time": "5"}, []), "offset0": ({"beam-offset-time": "0"}, []),
    "perbl": ({"beam-per-baseline": True}, []), "interp": ({"interpolate-kernel": True}, []),
    "hyper": ({"cal-reflection-hyperresolve": True}, []), "modefile": ({"cal-reflection-mode-file": True}, []),
    "gain": ({"cal-base-gain": "0.5"}, []), "adaptive": ({"cal-adaptive-calibration-gain": True}, []), "gain1": ({"cal-base-gain": "1"}, []),
    "pad": ({"pad-uv-image": "1.5"}, []), "ring": ({"ring-radius-multi": "4"}, []),
    "calcheck": ({"calibrate-checkpoint": "some file.dat"}, []),
    "uvmodel": ({"model-file-type": "uvfits", "model-file-path": "m.uvfits"}, []), "uvmodel:missing": ({"model-file-type": "uvfits", "model-file-path": "mm.uvfits"}, []),
    "psf:sav": ({"grid_psf_file": "p.sav"}, []), "psf:nosav": ({"grid_psf_file": "q.sav"}, []), "psf:npz": ({"grid_psf_file": "p.npz"}, []), "psf:other": ({"grid_psf_file": "p.txt"}, []),
})
for n in range(6):
    ATOMS[f"sav{n}"] = ({"model-file-path": f"sav{n}"}, [])
ATOMS["sav:nodir"] = ({"model-file-path": "savx"}, [])
ATOMS["savnoparams"] = ({"model-file-path": "savp"}, [])
ATOMS["savname"] = ({"model-file-path": "1061319840_model"}, [])
ATOMS["savname2"] = ({"model-file-path": "1061319840_full"}, [])
ATOMS["savother"] = ({"model-file-path": "savo"}, [])
ATOMS["savlike"] = ({"model-file-path": "savl"}, [])
for n in (0, 4):
    ATOMS[f"npol{n}"] = ({"n-pol": str(n)}, [])


def cases(tier):
    names = sorted(ATOMS)
    for k in range(0, 3):
        for s in itertools.combinations(names, k):
            keys = [o for a in s for o in ATOMS[a][0]]
            if len(set(keys)) == len(keys):
                yield dict(part="valid", atoms=list(s))
    few = [a for a in names if not a.endswith(":missingdir") and a.split(":")[0] not in FILEOPTS[:9]]
    for s in itertools.combinations(few, 3) if tier == "thorough" else [(a, b, "run-simulation") for a, b in itertools.combinations(few, 2)] + [(a, b, "npol4") for a, b in itertools.combinations(few, 2)]:
        keys = [o for a in s for o in ATOMS[a][0]]
        if len(set(keys)) == len(keys):
            yield dict(part="valid", atoms=list(s))
    for dest, a in F02.actions().items():
        if not isinstance(a, argparse._AppendAction) and (a.type in (int, float) or a.choices or a.nargs == 0 or a.nargs == "+" or isinstance(a, argparse.BooleanOptionalAction)):
            for v in F02.values(a):
                yield dict(part="valid", atoms=[], each=[dest, v])
    for out, exists, desc, log, old in itertools.product(("o", "o/p q/r", "abs"), (0, 1), (None, "d", "a b c", "x'#y", "é:1"), (None, 0, 1), (0, 1)):
        yield dict(part="output", out=out, exists=exists, desc=desc, log=log, old=old)


def args(case_opts, d):
    a = ["1061319840", "-c", "c.yaml", "--silent"]
    for o, v in case_opts.items():
        a += [f"--{o}"] if v is True else [f"--{o}", v] if o == "grid_psf_file" else [f"--{o}={v}"]
    return a


def layout(d):
    put(*(d / p for p in ("in/1061319840.uvfits", "in/1061319840.metafits", "in_m/1061319840.metafits", "in_u/1061319840.uvfits", "some file.dat", "m.uvfits", "p.sav", "p.npz", "p.txt", "in/1061319848.sav")))
    P = ["params", "vis_model_XX", "vis_model_YY", "vis_model_XY", "vis_model_YX"]
    for n in range(6):
        (d / f"sav{n}").mkdir()
        put(d / f"sav{n}/other.sav", d / f"sav{n}/1061319840_notes.txt", *(d / f"sav{n}/1061319840_{p}.sav" for p in (P + ["extra"])[:n + (n == 5)]))
    put(*(d / f"savp/1061319840_{p}.sav" for p in P[1:] + ["other"]))
    put(*(d / f"savo/1061319848_{p}.sav" for p in P))
    put(d / "savl/1061319840_params.sav", d / "savl/1061319840_vis_model_XX.sav", *(d / f"savl/1061319840_vis_model_{p}" for p in ("YY.sav.bak", "XY.save", "YX_sav", "YX.SAV", "saved.txt")))
    put(d / "1061319840_model/1061319840_params.sav", *(d / f"1061319840_model/{p}.sav" for p in P))
    put(*(d / f"1061319840_full/1061319840_{p}.sav" for p in P))
    (d / "c.yaml").write_text("silent : true\ninput-path : 'in'\nmodel-file-path : 'sav5'\n")


def invalid(o, d):
    """Written down from the documentation of the options."""
    def has(k): return o[k] is not None and o[k] is not False
    def file(k): return (d / o[k]).exists()
    bad = [k for k in ("cal_bp_transfer", "diffuse_calibrate", "calibration_catalog_file_path", "transfer_calibration", "transfer_model_uv", "transfer_weights",
                       "diffuse_model", "model_catalog_file_path", "IDL_variables_file", "in_situ_sim_input", "eor_vis_filepath", "sim_noise") if has(k) and not file(k)]
    inp = d / o["input_path"]
    bad += [x for x in ("1061319840.uvfits", "1061319840.metafits") if not (inp / x).exists()]
    if has("healpix_inds") and o["restrict_healpix_inds"] and not file("healpix_inds"): bad.append("inds")
    if not o["run_simulation"] and any(has(k) for k in ("in_situ_sim_input", "eor_vis_filepath", "sim_noise")): bad.append("sim")
    if float(o["enhance_eor"]) != 1 and not has("eor_vis_filepath"): bad.append("eor")
    if o["allow_sidelobe_model_sources"]: bad.append("sidelobe")
    if not file("model_file_path"): bad.append("model")
    elif o["model_file_type"] == "sav" and o["calibrate_checkpoint"] is None:
        m = d / o["model_file_path"]
        n = len(list(m.glob("*1061319840*.sav")))
        if not (m / "1061319840_params.sav").exists(): bad.append("params")
        if n <= 2 or n < o["n_pol"] + 1: bad.append("savs")
    for f in o["grid_psf_file"]:
        if Path(f).suffix not in (".sav", ".npz") or not (d / f).exists(): bad.append("psf")
    return bad


def expected(o, d):
    e = dict(o)
    if o["recalculate_all"]: e.update(recalculate_beam=True, recalculate_grid=True)
    if o["snapshot_healpix_export"]: e["save_visibilities"] = True
    e["beam_offset_time"] = max(o["beam_offset_time"], 0)
    if o["beam_per_baseline"]: e["interpolate_kernel"] = False
    if o["cal_reflection_mode_file"]: e["cal_reflection_hyperresolve"] = False
    if o["cal_base_gain"] is None: e["cal_base_gain"] = 0.75
    e["ring_radius"] = o["pad_uv_image"] * o["ring_radius_multi"]
    return e


def check(case):
    r = Result()
    with Scratch() as d:
        d = Path(os.path.realpath(d)); layout(d)
        with inside(d):
            if case["part"] == "output":
                return output(case, d, r)
            opts = {o: v for a in case["atoms"] for o, v in ATOMS[a][0].items()}
            o = parse(args(opts, d) + F02.args([case["each"]] if "each" in case else []))
            r.steps += 1
            if "each" in case: opts = dict([case["each"]])
            if not r.expect(bool(o), "parse", f"options refused {opts}"): return r
            for k, v in opts.items() if "each" not in case else ():
                got = o[k.replace("-", "_")]
                r.expect(got == v or str(got) == v or (isinstance(got, (int, float)) and got == float(v)) or (got == [v]), f"given:{k}", lambda: f"{k} given as {v!r} is {got!r}")
            cfg, status = setup(o)
            r.steps += 1
            bad = invalid(o, d)
            r.nontrivial = bool(opts)
            r.out = [bad, status]
            if bad:
                r.expect(cfg is None and status not in (0, None), "refused", f"{opts}: {bad} not refused: {'run starts' if cfg else f'exit status {status}'}")
                return r
            if not r.expect(cfg is not None, "accepted", f"{opts} refused with status {status}"): return r
            e = expected(o, d)
            for k in e:
                if k in INTERNAL or k.startswith("grid_psf_file_"): continue
                a, b = cfg.get(k), e[k]
                if isinstance(b, (str, Path)) and (isinstance(a, Path) or isinstance(b, Path)):
                    ok = os.path.abspath(a) == os.path.abspath(b)
                    if b is not None and k in [f.replace("-", "_") for f in FILEOPTS] and k != "healpix_inds": ok = ok and os.path.isabs(a)
                else: ok = type(a) is type(b) and a == b if isinstance(b, bool) else a == b
                r.expect(ok, f"kept:{k}", lambda: f"{opts}: {k} is {a!r}, expected {b!r}")
            for f, k in (("p.sav", "grid_psf_file_sav"), ("p.npz", "grid_psf_file_npz")):
                if opts.get("grid_psf_file") == f:
                    r.expect(str(cfg[k]) == str(d / f), "psf", f"{k}: {cfg[k]!r}")
    return r


def output(case, d, r):
    out = str(d / "abs/x") if case["out"] == "abs" else case["out"]
    name = None if case["desc"] is None else "pyfhd_" + case["desc"].replace(" ", "_")
    if case["exists"]: os.makedirs(out)
    if case["old"] and name and case["exists"]:
        put(Path(out, name, "kept.txt"), Path(out, name, "config", "kept.yaml"))
    a = ["1061319840", "-c", "c.yaml", "-o", out] + ([] if case["desc"] is None else [f"--description={case['desc']}"])
    if case["log"] is not None:
        with open("c.yaml", "a") as f: f.write(f"log-file : {'true' if case['log'] else 'false'}\n")
    o = parse(a)
    if not r.expect(bool(o), "parse", f"refused {a}"): return r
    cfg, status = setup(o); r.steps += 1
    if not r.expect(cfg is not None, "accepted", f"{a} refused with status {status}"): return r
    dirs = sorted(os.listdir(out))
    r.out = [len(dirs), case["log"]]
    r.expect(len(dirs) == 1 and (dirs == [name] if name else dirs[0].startswith("pyfhd_")), "directory", f"{a}: made {dirs}")
    r.expect(os.path.realpath(cfg["output_dir"]) == os.path.realpath(Path(out, dirs[0])), "directory", f"{a}: {cfg['output_dir']}")
    od = Path(out, dirs[0])
    logs = list(od.glob("*.log"))
    r.expect(len(logs) == (0 if case["log"] == 0 else 1), "log", f"{a}: log files {logs}")
    r.expect(len([p for p in (od / "config").glob("*.yaml") if p.name != "kept.yaml"]) == 1, "config", "no configuration written")
    if case["old"] and name and case["exists"]:
        r.expect((od / "kept.txt").read_text() == "x" and (od / "config/kept.yaml").read_text() == "x", "existing", "existing files changed")
    return r
