"""D04: metadata file, time cuts and re-derived observations."""
import copy, itertools, math
import numpy as np
from astropy.io import fits
from vf import Result, Scratch, NullLogger, close, diff, tree_diff
import mini
import D03
from PyFHD.data_setup.obs import create_obs, update_obs

ID, LEVEL = "D04", "exploration"
RULE = ("(a) metadata files of up to 3 antennas with every row order and every flag pattern; (b) every time cut with one or two entries from a grid around the "
        "integration time, for up to 4 (6) time steps; (c) every combination of channel count, averaging, dimension, pixel size and field of view given to "
        "update_obs; non-trivial: some tile flagged, time cut or a changed option")
ASSUMPTIONS = ["both polarisations of a tile carry the same flag in the metadata file"]


def cases(tier):
    t = tier == "thorough"
    for n in (2, 3):
        rows = list(itertools.permutations(range(2 * n)))
        step = 1 if t or n == 2 else 5  # every 5th row order on the quick tier (stated in the level note)
        for k, order in enumerate(rows[::step]):
            yield dict(part="meta", n=n, order=list(order))
    grid = [None, 0.0, 0.5, 2.0, 2.5, 4.0, 5.0, 100.0]
    grid = grid + [-x for x in grid[2:]]
    for nt in range(1, 5 if not t else 7):
        for a, b in itertools.product(grid, repeat=2):
            if a is None and b is not None:
                continue
            yield dict(part="cut", nt=nt, cut=[x for x in (a, b) if x is not None])
    for nf, avg0, avg, dim, kb, fov in itertools.product([1, 2, 3, 4, 6, 8], [1, 2, 4], [None, 1, 2, 3, 8], [8, 12], [0.5, 2.0], [None, 60.0]):
        yield dict(part="update", nf=nf, avg0=avg0, avg=avg, dim=dim, kb=kb, fov=fov)
    for ext, avg, dim, kb, fov in itertools.product([2.0, 3.0, 4.0, 5.0], [None, 2], [4, 6, 8, 10, 12], [0.25, 0.5, 1.0], [None, 60.0]):  # lengths that reach the edge of the new plane
        yield dict(part="update", nf=3, avg0=1, avg=avg, dim=dim, kb=kb, fov=fov, ext=ext)


def write_meta(path, n, order, flags, res=2.0):
    ant = np.repeat(np.arange(n), 2); pol = np.tile(["Y", "X"], n)
    o = list(order)
    cols = [fits.Column("Antenna", "I", array=ant[o]), fits.Column("Tile", "I", array=(ant * 10 + 11)[o]), fits.Column("Pol", "A", array=pol[o]),
            fits.Column("Flag", "I", array=np.array(flags)[ant][o]), fits.Column("Height", "E", array=(mini.MWA[2] + 0.5 * ant)[o])]
    p = fits.PrimaryHDU()
    for k, v in dict(RA=4.0, DEC=-26.0, RAPHASE=5.0, DECPHASE=-27.5, INTTIME=res, DELAYS="1,2,3").items():
        p.header[k] = v
    fits.HDUList([p, fits.BinTableHDU.from_columns(cols)]).writeto(path, overwrite=True)


def check(c):
    r = Result(); log = NullLogger()
    eq = lambda got, exp, tag: r.expect(close(got, exp, rtol=1e-9), tag, lambda: f"{tag}: {diff(got, exp)}")
    if c["part"] == "meta":
        n = c["n"]
        outs = []
        with Scratch() as d:
            for flags in itertools.product([0, 1], repeat=n):
                for sim in ((False, True) if sum(flags) >= n - 1 else (False,)):
                    write_meta(d / "x.metafits", n, c["order"], flags)
                    header, params, layout, cfg, a, b = D03.base(dict(num=list(range(1, n + 1)), nt=2))
                    cfg["input_path"] = str(d); cfg["run_simulation"] = sim
                    r.steps += 1
                    try:
                        obs = create_obs(header, params, layout, cfg, log)
                        stop = None
                    except SystemExit as e:
                        stop = e.code
                    if sum(flags) >= n - 1 and not sim:
                        r.expect(stop not in (None, 0), "all flagged", lambda: f"flags {flags}: stopped with {stop!r}")
                        continue
                    if not r.expect(stop is None, "stopped", lambda: f"flags {flags}: stopped with {stop!r}"):
                        continue
                    bi = obs["baseline_info"]
                    eq(bi["tile_flag"], flags, "tile_flag"); eq(bi["tile_use"], 1 - np.array(flags), "tile_use"); eq(obs["n_tile_flag"], sum(flags), "n_tile_flag")
                    eq(bi["tile_names"], 11 + 10 * np.arange(n), "tile_names")
                    r.expect(close(bi["tile_height"], 0.5 * np.arange(n), atol=1e-3), "tile_height", lambda: bi["tile_height"])
                    for k, v in dict(obsra=4.0, obsdec=-26.0, phasera=5.0, phasedec=-27.5, time_res=2.0, orig_phasera=5.0, orig_phasedec=-27.5).items():
                        eq(obs[k], v, k)
                    r.expect(list(obs["delays"]) == ["1", "2", "3"], "delays", lambda: obs["delays"])
                    eq(obs["astr"]["crval"], [5.0, -27.5], "crval")
                    outs.append(flags)
        r.out = [n, c["order"], outs]
    elif c["part"] == "cut":
        nt = c["nt"]
        header, params, layout, cfg, a, b = D03.base(dict(nt=nt))
        with Scratch() as d:
            write_meta(d / "x.metafits", 3, range(6), [0, 0, 0])
            cfg["input_path"] = str(d); cfg["time_cut"] = c["cut"] or None
            obs = create_obs(header, params, layout, cfg, log); r.steps += 1
        use = np.ones(nt)
        for x in c["cut"]:
            k = min(math.ceil(abs(x) / 2.0), nt)
            if x < 0:
                use[nt - k:] = 0
            elif k:
                use[:k] = 0
        eq(obs["baseline_info"]["time_use"], use, "time_use"); eq(obs["n_time_flag"], nt - use.sum(), "n_time_flag"); eq(obs["n_time"], nt, "n_time")
        r.out = [nt, use]; r.nontrivial = bool(c["cut"])
    else:
        header, params, layout, cfg, a, b = D03.base(dict(nf=c["nf"], avg=c["avg0"], ext=c.get("ext", 1.0)))
        with Scratch() as d:
            cfg["input_path"] = str(d)
            obs = create_obs(header, params, layout, cfg, log)
        keep = copy.deepcopy(obs)
        kw = {}
        if c["avg"] is not None:
            kw["beam_nfreq_avg"] = c["avg"]
        if c["fov"] is not None:
            kw["fov"] = c["fov"]
        out = update_obs(obs, c["dim"], c["kb"], **kw); r.steps += 1
        d = tree_diff({k: v for k, v in obs.items() if k != "meta_data"}, {k: v for k, v in keep.items() if k != "meta_data"})
        r.expect(d is None, "input altered", lambda: d)
        kpix = c["kb"] if c["fov"] is None else (180 / math.pi) / c["fov"]; dim = c["dim"]; degpix = (180 / math.pi) / (kpix * dim)
        avg = c["avg"] if c["avg"] is not None else min(c["avg0"], c["nf"])
        exp = {k: v for k, v in keep.items() if k != "meta_data"}
        exp.update(dimension=dim, elements=dim, obsx=dim / 2, obsy=dim / 2, kpix=kpix, degpix=degpix, max_baseline=min(keep["max_baseline"], dim * kpix / math.sqrt(2)))
        exp["astr"].update(naxis=np.array([dim, dim]), cdelt=np.full(2, degpix), crpix=np.array([dim / 2 + 1] * 2))
        exp["baseline_info"]["fbin_i"] = np.arange(c["nf"]) // avg
        d = tree_diff({k: v for k, v in out.items() if k != "meta_data"}, exp)
        r.expect(d is None, "updated", lambda: d)
        r.out = [dim, kpix, exp["baseline_info"]["fbin_i"], exp["max_baseline"]]
    return r
