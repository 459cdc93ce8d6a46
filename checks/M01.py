"""M01: the model visibility lined up with a data visibility is the one of the same antennas, channel and moment; models that do not fit are refused."""
import copy, itertools
import numpy as np
import mini, sav
from vf import Result, Scratch, NullLogger, close, diff
from PyFHD.source_modeling import vis_model_transfer as vmt

ID, LEVEL = "M01", "exploration"
RULE = ("every pair of tile sets of data and model, with tiles named by index or number, with and without auto-correlations on either side (and with some of the model's missing), every set of missing baselines of either side with the rows in several orders, every number of times and of extra model times before and after, and a grid of "
        "constant time offsets in both directions up to half an integration, at two integration times; each output row is compared with a look-up by antennas and time; models read from uvfits and sav files (the array itself, a pointer to it, or an array of one); non-trivial: rows are moved")
ASSUMPTIONS = ["the baselines of a time are listed in the same order at every time, times ascending, the first antenna before the second",
               "tile numbers, where used, exceed the number of tiles"]
mini.stub_sites()
N = 5
NAMES = np.array([11, 13, 12, 21, 7])


def cases(tier):
    t = tier == "thorough"
    subs = [s for k in range(1, N + 1) for s in itertools.combinations(range(1, N + 1), k)]
    for d in subs:
        if len(d) < 2: continue
        for m in subs:
            for da, ma in itertools.product((0, 1), (0, 1, 2, 3)):
                for named in (0, 1):
                    yield dict(part="align", d=list(d), m=list(m), da=da, ma=ma, named=named, nt=2, pre=0, post=0, off=0.0, res=2.0)
    for res in (2.0, 0.5, 8.0):
        for off in [0.0] + [s * x for x in (.01, .12, .2, .24, .26, .3, .4, .45, .49) + ((.05, .15, .35, .48) if t else ()) for s in (1, -1)]:
            for nt, pre, post in itertools.product((1, 2, 3), (0, 1, 2), (0, 1, 2)):
                for da, ma in ((0, 0), (1, 1)) + (((1, 0), (0, 1), (1, 2), (0, 3)) if t else ()):
                    if (res, off, nt, pre, post) == (2.0, 0.0, 2, 0, 0): continue  # above
                    yield dict(part="align", d=[1, 3, 4], m=[1, 2, 3, 4], da=da, ma=ma, named=0, nt=nt, pre=pre, post=post, off=off, res=res)
    pairs = list(itertools.combinations((1, 2, 3, 4), 2))
    lost = [list(x) for k in range(len(pairs)) for x in itertools.combinations(pairs, k)]
    for dx, mx, (da, ma), od, om in itertools.product(lost, lost, ((0, 0), (1, 1)), (0, 1, 2), (0, 1, 2)):
        if not t and (len(dx) + len(mx) > 3 or len(mx) > 1): continue
        if not dx and not mx and (od, om) == (0, 0): continue
        yield dict(part="align", d=[1, 2, 3, 4], m=[1, 2, 3, 4], da=da, ma=ma, named=(len(dx) + len(mx)) % 2, nt=2, pre=1, post=0, off=0.0, res=2.0, dx=dx, mx=mx, od=od, om=om)
    for both in (0, 1):
        for d, m in itertools.product(subs, subs):
            if len(d) > 1 and len(m) > 1:
                yield dict(part="align", d=list(d), m=list(m), da=1, ma=1, named=1 + both, nt=2, pre=0, post=0, off=0.0, res=2.0, od=both)
    for nt in (2, 3):
        for less in range(1, nt):
            yield dict(part="align", d=[1, 2, 3], m=[1, 2, 3], da=1, ma=1, named=0, nt=nt, pre=0, post=-less, off=0.0, res=2.0)
    for pol, nf, kind in itertools.product((2, 4), (2, 4), ("uvfits", "freq", "lessfreq", "sav", "sav1", "savp", "nosav", "other")):
        yield dict(part="import", pol=pol, nf=nf, kind=kind)
    for pol, miss in itertools.product((2, 4), range(5)):
        if miss <= pol:
            yield dict(part="import", pol=pol, nf=2, kind="miss", miss=miss)


def rows(tiles, autos, drop=(), order=0):
    out = [(a, b) for a in tiles for b in tiles if (a < b or (a == b and autos)) and (a, b) not in drop]
    return out if order == 0 else out[::-1] if order == 1 else sorted(out, key=lambda p: p[::-1])


def code(run):
    try:
        return None, run()
    except SystemExit as e:
        return ("exit", e.code), None
    except Exception as e:
        return ("raised", repr(e)), None


def check(c):
    r = Result(); log = NullLogger()
    return align(c, r, log) if c["part"] == "align" else imports(c, r, log)


def align(c, r, log):
    nt, day = c["nt"], 86400.0; np_, nf = 2, 2
    drop = {0: (), 1: (), 2: ((c["m"][-1],) * 2,), 3: ((c["m"][0],) * 2,)}[c["ma"]]
    dr = rows(c["d"], c["da"], [tuple(x) for x in c.get("dx", ())], c.get("od", 0)); mr = rows(c["m"], c["ma"], list(drop) + [tuple(x) for x in c.get("mx", ())], c.get("om", 0))
    t0 = 2456840.4; dt = t0 + (np.arange(nt) + .5) * c["res"] / day
    mt = t0 + (np.arange(-c["pre"], nt + c["post"]) + .5 + c["off"]) * c["res"] / day
    name = (lambda k: int(NAMES[k - 1])) if c["named"] else (lambda k: k)
    pd = dict(antenna1=np.array([name(a) for _ in dt for a, b in dr]), antenna2=np.array([name(b) for _ in dt for a, b in dr]), time=np.repeat(dt, len(dr)))
    mname = name if c["named"] == 2 else (lambda k: k)
    pm = dict(antenna1=np.array([mname(a) for _ in mt for a, b in mr], int), antenna2=np.array([mname(b) for _ in mt for a, b in mr], int), time=np.repeat(mt, len(mr)))
    obs = dict(n_pol=np_, n_freq=nf, time_res=c["res"], baseline_info=dict(tile_names=NAMES.copy() if c["named"] else np.arange(1, N + 1)))
    M = mini.pattern((np_, nf, len(mt) * len(mr)), 3)
    present = {name(a) for p in dr for a in p}
    if c["named"] and (max(present) <= N or c["named"] == 2 and max([mname(a) for p in mr for a in p], default=0) <= N):
        r.nontrivial = False
        return r
    if not mr:
        r.nontrivial = False
        return r  # nothing at all in the model
    keep = [copy.deepcopy(x) for x in (M, pd, pm, obs)]
    err, got = code(lambda: vmt.flag_model_visibilities(M, pd, pm, obs, dict(input_path="/in", obs_id="1", model_file_path="/m", model_file_type="uvfits"), log)); r.steps += 1
    fits = {p for p in dr if p[0] != p[1]} <= set(mr) and len(mt) >= nt and len(set(sum(mr, ()))) >= len(set(sum(dr, ())))
    if not fits:
        r.expect(err is not None and err != ("exit", None) and err != ("exit", 0), "refused", f"the model lacks tiles or times, {err or 'and was used'}"); r.out = [c["d"], c["m"]]
        return r
    if not r.expect(err is None, "accepted", f"a model that fits the data was refused: {err}"):
        return r
    e = np.zeros((np_, nf, nt * len(dr)), complex)
    use_autos = c["ma"] == 1 and c["da"]
    for i, (k, (a, b)) in enumerate(itertools.product(range(nt), dr)):
        if a == b and not use_autos:
            continue
        e[:, :, i] = keep[0][:, :, (k + c["pre"]) * len(mr) + mr.index((a, b))]
    r.expect(close(got, e), "alignment", lambda: diff(got, e)); r.out = e
    same = np.array_equal(M, keep[0]) and all(np.array_equal(pd[k], keep[1][k]) and np.array_equal(pm[k], keep[2][k]) for k in pd) and np.array_equal(obs["baseline_info"]["tile_names"], keep[3]["baseline_info"]["tile_names"])
    r.expect(same, "inputs altered", "the model or its parameters changed")
    r.nontrivial = len(mr) != len(dr) or len(mt) != nt or c["off"] != 0
    return r


def imports(c, r, log):
    kind = c["kind"]; P, nf = c["pol"], c["nf"]
    o = mini.Obs(n_pol=P, n_freq=nf, n_time=2, tiles=(1, 2, 4)); obs = dict(n_pol=P, n_freq=nf + (kind == "freq") - (kind == "lessfreq"), pol_names=["XX", "YY", "XY", "YX", "I", "Q", "U", "V"])
    with Scratch() as d:
        cfg = dict(model_file_type="sav" if "sav" in kind or kind == "miss" else kind if kind == "other" else "uvfits", obs_id="77", n_pol=P, instrument="mwa", input_path=d / "none")
        if cfg["model_file_type"] == "uvfits":
            o.write_uvfits(d / "m.uvfits", o.model); cfg["model_file_path"] = d / "m.uvfits"
            err, got = code(lambda: vmt.vis_model_transfer(cfg, obs, log))
        else:
            cfg["model_file_path"] = d
            for i, n in enumerate(["77_params.sav"] + [f"77_vis_model_{p}.sav" for p in obs["pol_names"][:P]]):
                if kind == "nosav" or (kind == "miss" and i == c["miss"]): continue
                if i == 0:
                    sav.write(d / n, params=dict(uu=o.uu.astype("f8"), antenna1=o.ant1.astype("i4")))
                    continue
                a = np.ascontiguousarray(o.model[i - 1].T.astype("c8"))
                p = a if kind == "sav" else sav.Ptr(a)
                if kind == "sav1": p = np.empty(1, object); p[0] = sav.Ptr(a)
                sav.write(d / n, vis_model_ptr=p, **(dict(obs=dict(n_pol=P, n_freq=nf)) if kind != "sav" else {}))
            err, got = code(lambda: vmt.vis_model_transfer(cfg, obs, log))
    r.steps += 1
    if kind in ("freq", "lessfreq", "nosav", "miss", "other"):
        r.expect(err is not None and err[0] == "exit" and err[1] not in (None, 0), "refused", f"an unusable model: {err or 'was used'}"); r.out = kind
        return r
    if not r.expect(err is None, "import", f"{err}"):
        return r
    arr, par = got
    r.expect(arr.dtype == np.complex128 and close(arr, o.model, rtol=1e-6 if "sav" in kind else 1e-9), "values", lambda: diff(arr, o.model)); r.out = arr
    u = par.get("uu", par.get("UU")); a1 = par.get("antenna1")
    r.expect(u is not None and close(u, o.uu) and np.array_equal(a1, o.ant1), "parameters", lambda: f"u or antennas differ from the file: {sorted(par)}")
    return r
