"""F02: the configuration written by a run, fed back, gives the same run; configuration file and command line set the same options."""
import argparse, itertools, os
from pathlib import Path
from conf import inside, parse, setup, put, INTERNAL, ps
from vf import Result, Scratch, REPO

ID, LEVEL = "F02", "exploration"
RULE = ("every option of the parser with each of a set of values for its type (and strings, paths and lists with quotes, spaces, colons, hashes, letters outside ASCII and words with a meaning in YAML), alone, and every pair of options with one value each; "
        "given on the command line, then by the collated file of that run, then by the file of that run; each option also given by a configuration file and by both; the shipped files; non-trivial: an option differs from its default")
ASSUMPTIONS = ["negative numbers in lists have no exponent", "text has no control characters"]
OBS = "1061319840"
NAMES = ["plain.dat", "a b.dat", "it's.dat", 'q"q.dat', "c: d.dat", "#h.dat", "é ü.dat", "[x, y].dat", "{k}.dat", "~", "null", "true", "no", "1e3", "007", "a=b.dat", "- x.dat", "*s.dat", "%p.dat", "back\\slash.dat", "@at", "`bt", "!t", "&a", "?q", "|p", ">g"]
SKIP = ("help", "version", "config", "obs_id", "grid_psf_file_sav", "grid_psf_file_npz")
STATE = {}


def actions():
    if "a" not in STATE:
        STATE["a"] = {a.dest: a for a in ps.pyfhd_parser()._actions if a.dest not in SKIP and any(o.startswith("--") for o in a.option_strings)}
    return STATE["a"]


def long(a):
    return [o for o in a.option_strings if o.startswith("--")][0]


def values(a):
    if isinstance(a, argparse.BooleanOptionalAction): return [True, False]
    if isinstance(a, (argparse._StoreTrueAction,)): return [True]
    if a.choices: return [str(c) for c in a.choices]
    if isinstance(a, argparse._AppendAction): return [["Tile011"], ["Tile011", "Tile012", "11"]] + [[n] for n in NAMES] + [NAMES]
    if a.nargs == "*": return [["p.sav"], ["p.sav", "p.npz"], ["a b.sav"], ["it's.npz", "p.sav"]]
    if a.nargs == "+": return [["0.5"], ["2", "4.25"], ["-2.0", "4", "1e3"], ["0"]]
    if a.type is int: return ["7", "0", "1", "16", "-3", "100000000", "123456789012"]
    if a.type is float: return ["0.1", "1e-7", "0", "1", "-0.5", "12345.678901234567", "1e22", "3", "1e-300", "inf"]
    return list(NAMES)


def representative(a):
    v = values(a)
    return v[1] if a.nargs == "+" else v[0]


def cases(tier):
    acts = actions()
    yield dict(part="none")
    for dest in acts:
        for i in range(len(values(acts[dest]))):
            yield dict(part="one", opts=[[dest, values(acts[dest])[i]]])
    few = [d for d in acts if tier == "thorough" or not isinstance(acts[d], argparse._StoreTrueAction)]
    for a, b in itertools.combinations(few, 2):
        yield dict(part="two", opts=[[a, representative(acts[a])], [b, representative(acts[b])]])
    for dest in acts:
        for i in range(len(values(acts[dest])) if tier == "thorough" else min(3, len(values(acts[dest])))):
            yield dict(part="file", dest=dest, i=i)
    for f in ("pyfhd.yaml", "input/1088285600_example/1088285600_example.yaml", "PyFHD/templates/pyfhd.yaml"):
        yield dict(part="shipped", f=f)


def args(opts):
    out = []
    for dest, v in opts:
        a = actions()[dest]; o = long(a)
        if v is True: out += [o]
        elif v is False: out += ["--no-" + o[2:]]
        elif isinstance(a, argparse._AppendAction): out += [f"{o}={x}" for x in v]
        elif isinstance(v, list): out += [o] + v
        else: out += [f"{o}={v}"]
    return out


def layout(d, opts):
    P = ["params", "vis_model_XX", "vis_model_YY", "vis_model_XY", "vis_model_YX"]
    put(*(d / p for p in ["p.sav", "p.npz", "a b.sav", "it's.npz"]))
    put(*(d / "in" / f"{OBS}.{e}" for e in ("uvfits", "metafits")))
    put(*(d / "model" / f"{OBS}_{p}.sav" for p in P))
    for n in {"plain.dat"} | {v for _, v in opts if isinstance(v, str) and v in NAMES}:  # each is a directory that can stand for any file, input or output directory
        (d / n).mkdir()
        put(*(d / n / f"{OBS}.{e}" for e in ("uvfits", "metafits")), *(d / n / f"{OBS}_{p}.sav" for p in P))
    (d / "c.yaml").write_text("silent : true\ninput-path : 'in'\nmodel-file-path : 'model'\nrun-simulation : true\neor-vis-filepath : 'plain.dat'\n")


def same(a, b):
    if isinstance(a, Path) or isinstance(b, Path):
        return a is not None and b is not None and os.path.abspath(a) == os.path.abspath(b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return list(a or []) == list(b or [])
    return (isinstance(a, bool) == isinstance(b, bool)) and a == b


def compare(r, tag, got, exp, msg):
    for k in sorted(set(got) | set(exp)):
        if k in INTERNAL: continue
        r.expect(k in got and k in exp and same(got[k], exp[k]), f"{tag}:{k}", lambda: f"{msg}: {k} is {got.get(k)!r}, expected {exp.get(k)!r}")


def run(r, argv, msg):
    o = parse(argv); r.steps += 1
    if not r.expect(bool(o), "refused", f"{msg}: not accepted"): return None
    cfg, status = setup(o); r.steps += 1
    if cfg is None: return status
    return cfg


def collated(cfg):
    return max(Path(cfg["output_dir"], "config").glob("*.yaml"), key=lambda p: p.stat().st_mtime_ns)


def check(case):
    r = Result()
    with Scratch() as d:
        d = Path(os.path.realpath(d))
        if case["part"] == "shipped":
            o = parse([OBS, "-c", str(REPO / case["f"])]); r.steps += 1
            r.expect(bool(o), "shipped", f"{case['f']} not accepted")
            return r
        layout(d, case.get("opts", []))
        with inside(d):
            if case["part"] == "file":
                return fromfile(case, r)
            opts = case.get("opts", [])
            cfg = run(r, [OBS, "-c", "c.yaml"] + args(opts), f"{opts}")
            if cfg is None: return r
            if not isinstance(cfg, dict):  # refused: judged by F01
                r.out = "refused"; r.nontrivial = False
                return r
            first = dict(cfg)
            r.out = [[k, str(v)] for k, v in opts]
            y = collated(cfg); os.rename(y, "first.yaml")
            again = run(r, [OBS, "-c", "first.yaml"], f"{opts} from the collated file")
            if not r.expect(isinstance(again, dict), "refused", f"{opts}: the run of the collated file is refused ({again})"): return r
            compare(r, "same", again, first, f"{opts} from the collated file")
    return r


def fromfile(case, r):
    """The option in a configuration file does what it does on the command line, which takes precedence."""
    import json
    a = actions()[case["dest"]]; v = values(a)[case["i"]]; o = long(a)
    cli = parse([OBS, "-c", "c.yaml"] + args([[case["dest"], v]])); r.steps += 1
    if not r.expect(bool(cli), "refused", f"{o}={v} refused"): return r
    base = [l for l in Path("c.yaml").read_text().splitlines() if not l.startswith(o[2:] + " ")]
    Path("f.yaml").write_text("\n".join(base + [f"{o[2:]} : {json.dumps(v, ensure_ascii=False)}", ""]))
    fil = parse([OBS, "-c", "f.yaml"]); r.steps += 1
    if not r.expect(bool(fil), "refused", f"{o}: {v} in a file refused"): return r
    compare(r, "file", fil, cli, f"{o}: {v} in a file")
    if a.nargs is None and not isinstance(a, argparse._AppendAction):
        w = values(a)[(case["i"] + 1) % len(values(a))]
        both = parse([OBS, "-c", "f.yaml"] + args([[case["dest"], w]])); one = parse([OBS, "-c", "c.yaml"] + args([[case["dest"], w]])); r.steps += 2
        if r.expect(bool(both) and bool(one), "refused", f"{o}: {v} in a file and {w}"):
            compare(r, "both", both, one, f"{o}: {v} in a file, {w} on the command line")
    if isinstance(a, (argparse._StoreTrueAction, argparse.BooleanOptionalAction)) :
        for word, val in (("false", False), ("False", False), ("no", False), ("true", True), ("True", True), ("~", a.default)):
            Path("f.yaml").write_text("\n".join(base + [f"{o[2:]} : {word}", ""]))
            fil = parse([OBS, "-c", "f.yaml"]); r.steps += 1
            r.expect(bool(fil) and fil[case["dest"]] is val, "switch", f"{o}: {word} in a file gives {fil and fil[case['dest']]!r}")
    return r
