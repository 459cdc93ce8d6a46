"""Small in-memory observations for the checks (dictionaries as create_obs makes them)."""
import numpy as np
from mini import pattern


def obs_params(n_tile=3, n_freq=4, n_time=2, n_pol=2, autos=True, dim=16, kpix=0.5, res=80e3, f0=180e6, avg=2, spread=1.0, pairs=None, min_bl=0.0,
               max_bl=1e9, numbers=None, elements=None):
    """Tiles on a generic 2D layout; rows grouped by time. u, v in seconds such that lengths are ~spread wavelengths."""
    if pairs is None:
        pairs = [(a, b) for a in range(1, n_tile + 1) for b in range(a, n_tile + 1) if autos or a != b]
    pairs = np.array(pairs).reshape(-1, 2)
    nb = len(pairs)
    k = np.arange(1, n_tile + 1)
    e, n = np.cos(k * 2.399963) * np.sqrt(k), np.sin(k * 2.399963) * np.sqrt(k)
    u = (e[pairs[:, 0] - 1] - e[pairs[:, 1] - 1]) * spread / f0; v = (n[pairs[:, 0] - 1] - n[pairs[:, 1] - 1]) * spread / f0
    uu = np.concatenate([u * np.cos(0.05 * t) - v * np.sin(0.05 * t) for t in range(n_time)])
    vv = np.concatenate([u * np.sin(0.05 * t) + v * np.cos(0.05 * t) for t in range(n_time)])
    freq = f0 + res * np.arange(n_freq)
    tm = np.repeat(2456840.4 + (np.arange(n_time) + 0.5) * 2 / 86400, nb)
    bi = dict(tile_a=np.tile(pairs[:, 0], n_time).astype(np.int64), tile_b=np.tile(pairs[:, 1], n_time).astype(np.int64), freq=freq,
              freq_use=np.ones(n_freq, dtype=np.int64), tile_use=np.ones(n_tile, dtype=np.int64), time_use=np.ones(n_time, dtype=np.int8),
              bin_offset=np.arange(n_time, dtype=np.int64) * nb, fbin_i=np.arange(n_freq) // avg, tile_names=np.array([str(10 * i + 1) for i in range(1, n_tile + 1)]),
              tile_flag=np.zeros(n_tile, dtype=np.int64), tile_height=np.zeros(n_tile), jdate=np.unique(tm))
    obs = dict(n_pol=n_pol, n_tile=n_tile, n_freq=n_freq, n_time=n_time, n_baselines=nb, n_vis=nb * n_time * n_freq, nf_vis=np.zeros(n_freq, dtype=np.int64),
               freq_res=res, freq_center=float(np.median(freq)), kpix=kpix, dimension=dim, elements=elements or dim, degpix=(180 / np.pi) / (kpix * dim),
               min_baseline=min_bl, max_baseline=max_bl, n_time_flag=0, n_tile_flag=0, n_freq_flag=0, baseline_info=bi, alpha=-0.8, degrid_spectral_terms=0,
               grid_spectral_terms=0, dft_threshold=0, obsra=0.0, obsdec=-27.0, phasera=0.0, phasedec=-27.0, obsx=dim // 2, obsy=(elements or dim) // 2,
               beam_nfreq_avg=avg, pol_names=["XX", "YY", "XY", "YX", "I", "Q", "U", "V"], residual=False, instrument="mwa", obsname="x", time_res=2.0)
    params = dict(uu=uu, vv=vv, ww=0.1 * (uu + vv), time=tm, antenna1=bi["tile_a"], antenna2=bi["tile_b"])
    return obs, params


def vis(obs, salt=1, autos_real=True):
    b = obs["baseline_info"]
    v = pattern((obs["n_pol"], obs["n_freq"], len(b["tile_a"])), salt)
    if autos_real:
        au = b["tile_a"] == b["tile_b"]
        v[:2, :, au] = np.abs(v[:2, :, au])
    return v
