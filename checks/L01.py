"""L01: calibration plots show the gains of every tile, under its name."""
import itertools, os, pickle
from pathlib import Path
import numpy as np
import fx
from vf import Result, Scratch
import matplotlib
from PyFHD.plotting.calibration import plot_cals
import matplotlib.pyplot as plt
from matplotlib.figure import Figure

ID, LEVEL = "L01", "exploration"
RULE = ("numbers of tiles about each multiple of a page, one and two polarisations, each pattern of flagged tiles, channels and missing gains, small to large phases; every panel of every figure is read when it is saved and compared "
        "with the gains, residuals and raw gains worked out tile by tile; files on disk for a few cases; non-trivial: some tile is flagged or a page is partly filled")
ASSUMPTIONS = ["some tile and channel is in use", "tile names differ", "figures are read when they are saved"]
TYPES = ("cal", "cal_residual", "cal_raw")
FLAGS = ("none", "first", "last", "alternate", "all but one", "page edge")


def cases(tier):
    t = tier == "thorough"
    for n, pol in itertools.product((1, 5, 16, 17, 127, 128, 129) + ((3, 64, 200, 255, 256, 257, 300) if t else (200, 257)), (2,)):
        yield dict(n=n, pol=pol, flags="none", nan="none", freq="all", g="mild")
    for flags, n in itertools.product(FLAGS[1:], (6, 130) if t else (6,)):
        yield dict(n=n, pol=2, flags=flags, nan="none", freq="all", g="mild")
    yield dict(n=130, pol=2, flags="page edge", nan="none", freq="some", g="wrap")
    for nan, freq, g in itertools.product(("none", "tile", "pol", "channel"), ("all", "some", "one"), ("mild", "wrap", "flat")):
        if t or (nan != "none") + (freq != "all") + (g != "mild") in (1, 3):
            yield dict(n=5, pol=2, flags="first" if nan == "channel" else "none", nan=nan, freq=freq, g=g)
    for flags in FLAGS[:2]:
        yield dict(n=4, pol=1, flags=flags, nan="none", freq="some", g="wrap")
    yield dict(n=3, pol=2, flags="none", nan="none", freq="all", g="mild", disk=1)
    if t:
        yield dict(n=129, pol=1, flags="last", nan="none", freq="some", g="wrap", disk=1)


def make(c):
    n, nf, pol = c["n"], 5, c["pol"]
    amp = 1 + 0.3 * np.sin(1.7 * np.arange(pol * nf * n) + 0.3).reshape(pol, nf, n)
    ph = (0.4 if c["g"] != "wrap" else 2.5) * np.cos(0.9 * np.arange(pol * nf * n)).reshape(pol, nf, n) + (1.1 * np.arange(nf)[None, :, None] if c["g"] == "wrap" else 0)
    gain = amp * np.exp(1j * ph)
    res = 0.1 * fx.pattern((pol, nf, n), 3)
    if c["g"] == "flat": gain, res = np.ones_like(gain), np.zeros_like(res)
    use = np.ones(n, int); use[{"none": [], "first": [0], "last": [n - 1], "alternate": range(0, n, 2), "all but one": range(1, n), "page edge": [min(127, n - 1), min(128, n - 1)]}[c["flags"]]] = 0
    fu = np.ones(nf, int); fu[{"all": [], "some": [0, 3], "one": [0, 1, 3, 4]}[c["freq"]]] = 0
    gain[:, :, use == 0] = np.nan
    if c["nan"] == "tile": gain[:, :, 2] = np.nan
    if c["nan"] == "pol": gain[0, :, 3] = np.nan
    if c["nan"] == "channel": gain[:, 2, 1] = np.nan
    obs = dict(n_tile=n, n_pol=pol, n_freq=nf, pol_names=["XX", "YY"][:pol], baseline_info=dict(freq=1.8e8 + 1.6e5 * np.arange(nf), freq_use=fu, tile_use=use, tile_names=np.array([f"Tile{(7 * i + 11) % 1009:03d}" for i in range(n)])))
    return obs, dict(n_pol=pol, gain=gain, gain_residual=res)


def wanted(obs, cal):
    """{type: {tile name: (amplitudes, phases) per polarisation}}, channel by channel"""
    f = np.flatnonzero(obs["baseline_info"]["freq_use"]); out = {k: {} for k in TYPES}
    for t in range(obs["n_tile"]):
        per = {k: [] for k in TYPES}
        for p in range(cal["n_pol"]):
            g = cal["gain"][p, f, t]; raw = g + cal["gain_residual"][p, f, t]
            a, b = np.angle(g), np.angle(raw)
            per["cal"].append((np.abs(g), a)); per["cal_raw"].append((np.abs(raw), b))
            per["cal_residual"].append((np.abs(raw) - np.abs(g), np.unwrap(b) - np.unwrap(a)))
        for k in TYPES: out[k][str(obs["baseline_info"]["tile_names"][t])] = per[k]
    return out


def read(fig):
    panels = {}
    for ax in fig.axes:
        lines = [(l.get_color(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]
        if ax.get_title() or lines: panels.setdefault(ax.get_title(), []).append((lines, ax.get_ylim(), ax.get_xlim()))
    leg = {}
    for l in fig.legends:
        h = getattr(l, "legend_handles", None) or l.legendHandles
        leg.update({t.get_text(): matplotlib.colors.to_rgb(x.get_color()) for t, x in zip(l.get_texts(), h)})
    return panels, leg


def check(c):
    r = Result(); obs, cal = make(c)
    b = obs["baseline_info"]; before = pickle.dumps((obs, cal))
    saved = {}
    orig = Figure.savefig

    def record(self, fname, *a, **k):
        saved[str(fname)] = read(self)
        if c.get("disk"): return orig(self, fname, *a, **k)
    with Scratch() as d:
        d = Path(d); Figure.savefig = record
        try:
            plot_cals(obs, cal, {"obs_id": "1061316296", "output_dir": d / "out"})
        finally:
            Figure.savefig = orig; plt.close("all")
        r.steps += 1
        r.expect(pickle.dumps((obs, cal)) == before, "inputs", "the observation or the gains were changed")
        pages = -(-c["n"] // 128); names = {}
        for k in TYPES:
            for p in range(pages):
                for i, part in enumerate(("amp", "phase")):
                    names[f"{d}/out/plots/calibration/1061316296_{k}_{part}" + (f"_page{p}" if pages > 1 else "") + ".png"] = (k, p, i)
        if not r.expect(set(saved) == set(names), "files", lambda: f"{c['n']} tiles: plotted {sorted(os.path.basename(s) for s in saved)}, expected {sorted(os.path.basename(s) for s in names)}"): return r
        if c.get("disk"):
            for s in names:
                r.expect(os.path.exists(s) and open(s, "rb").read(8) == b"\x89PNG\r\n\x1a\n", "disk", f"{os.path.basename(s)} is not a PNG file")
    want = wanted(obs, cal); fr = b["freq"][b["freq_use"] != 0] / 1e6
    for s, (k, p, i) in names.items():
        panels, leg = saved[s]; what = os.path.basename(s)
        tiles = range(128 * p, min(128 * (p + 1), c["n"]))
        here = [str(b["tile_names"][t]) for t in tiles]
        if not r.expect(sorted(panels) == sorted(here) and all(len(v) == 1 for v in panels.values()), "panels", lambda: f"{what}: panels {sorted(panels)[:6]}..., expected one for each of {sorted(here)[:6]}..."): continue
        r.expect(set(leg) == set(obs["pol_names"]), "legend", f"{what}: legend {leg}")
        for t, name in zip(tiles, here):
            lines, ylim, xlim = panels[name][0]
            w = {q: want[k][name][q][i] for q in range(c["pol"])}
            w = {q: y for q, y in w.items() if b["tile_use"][t] and not np.isnan(y).all()}
            if not r.expect(len(lines) == len(w), "tiles", lambda: f"{what}: {name} has {len(lines)} curves, expected {len(w)}"): continue
            for q, y in w.items():
                col = leg.get(obs["pol_names"][q])
                mine = [l for l in lines if matplotlib.colors.to_rgb(l[0]) == col]
                if not r.expect(len(mine) == 1, "colours", lambda: f"{what}: {name} {obs['pol_names'][q]} is not drawn in its colour"): continue
                _, x, got = mine[0]
                r.expect(x.shape == fr.shape and np.allclose(x, fr, rtol=1e-12), "frequencies", lambda: f"{what}: {name} at {x}, expected {fr}")
                r.expect(got.shape == y.shape and np.allclose(got, y, rtol=1e-9, atol=1e-9, equal_nan=True), f"{k}:{('amp', 'phase')[i]}", lambda: f"{what}: {name} {obs['pol_names'][q]} shows {got}, expected {y}")
                ok = y[np.isfinite(y)]
                r.expect(np.all((ok >= min(ylim) - 1e-9) & (ok <= max(ylim) + 1e-9)), "range", lambda: f"{what}: {name} has values outside the shown range {ylim}: {ok}")
    r.nontrivial = c["flags"] != "none" or c["n"] % 128 != 0
    r.states = len(saved) * c["n"]
    r.out = [len(saved), c["n"], c["flags"], c["nan"]]
    return r
