"""Bounded exhaustive exploration harness.

A check module defines
    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier) -> iterable of JSON-able dicts: the bounded space, in a fixed order (simplest first)
    check(case)  -> Result: runs the real PyFHD code on that case and compares with the reference
The runner enumerates the whole space (no sampling, no cap), records violations as replay files,
matches them against known_findings.json and writes evidence/<ID>.json.
"""
import hashlib, itertools, json, multiprocessing as mp, os, shutil, signal, sys, tempfile, time, traceback, warnings
from pathlib import Path
import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
if os.environ.get("VERIF_COV"):
    sys.path.insert(0, str(VERIF / "tools"))
    import cov
HANG_S = float(os.environ.get("VERIF_HANG_S", "400"))


class Result:
    """states: reference-model states compared; steps: calls into the implementation; out: observable."""
    __slots__ = ("bad", "states", "steps", "out", "nontrivial")

    def __init__(self):
        self.bad, self.states, self.steps, self.out, self.nontrivial = [], 0, 0, None, True

    def fail(self, tag, msg):
        self.bad.append((tag, str(msg)[:2000]))

    def expect(self, ok, tag, msg):
        self.states += 1
        if not ok:
            self.fail(tag, msg() if callable(msg) else msg)
        return bool(ok)


def digest(*objs):
    h = hashlib.blake2b(digest_size=12)

    def feed(o):
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                feed(o.tolist()); return
            if o.dtype.kind in "fc":
                with np.errstate(all="ignore"):
                    o = np.round(np.nan_to_num(o, nan=-7e77, posinf=7e77, neginf=-6e77), 9) + 0.0
            h.update(str((o.shape, o.dtype.kind)).encode()); h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode()); feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"["); [feed(x) for x in o]; h.update(b"]")
        else:
            h.update(repr(o).encode())
    feed(list(objs))
    return h.hexdigest()


def close(a, b, rtol=1e-9, atol=None):
    """Same shape, same NaN pattern, values equal to rounding (relative to the magnitude of the reference)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US" or b.dtype.kind in "US":
        return bool(np.all(a == b))
    a = a.astype(complex if np.iscomplexobj(a) or np.iscomplexobj(b) else float)
    b = b.astype(a.dtype)
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return False
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    if not fin.any():
        return True
    scale = float(np.max(np.abs(b[fin])))
    tol = rtol * scale + (1e-12 if atol is None else atol)
    return bool(np.max(np.abs(a[fin] - b[fin])) <= tol)


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape}, expected {b.shape}"
    try:
        if a.dtype.kind in "USO" or b.dtype.kind in "USO":
            w = np.argwhere(a != b)
        else:
            w = np.argwhere(~np.isclose(a, b, rtol=1e-8, atol=1e-11, equal_nan=True))
        i = tuple(w[0]) if len(w) else ()
        return f"{len(w)} of {a.size} differ; first at {tuple(int(x) for x in i)}: got {a[i]!r}, expected {b[i]!r}"
    except Exception:
        return f"got {a!r}, expected {b!r}"


def tree_diff(a, b, path=""):
    """First difference between two nested dicts of arrays/scalars/strings, or None."""
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return f"{path}: {type(a).__name__} instead of dict"
        if set(a) != set(b):
            return f"{path}: keys differ: missing {sorted(map(str, set(b) - set(a)))} extra {sorted(map(str, set(a) - set(b)))}"
        for k in b:
            d = tree_diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if b is None or a is None:
        return None if a is None and b is None else f"{path}: got {a!r}, expected {b!r}"
    A, B = np.asarray(a), np.asarray(b)
    if B.dtype == object and B.size and A.shape == B.shape:
        for i, (x, y) in enumerate(zip(A.ravel().tolist(), B.ravel().tolist())):
            d = tree_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if not close(A, B):
        return f"{path}: {diff(A, B)}"
    return None


class Scratch:
    """A scratch directory, removed afterwards."""

    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="vf_", dir=os.environ.get("VERIF_SCRATCH", "/tmp")))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(str(self.d), ignore_errors=True)


class NullLogger:
    """Quiet stand-in with the logging interface; keeps what was said."""

    def __init__(self):
        self.lines, self.handlers = [], []

    def _log(self, lvl):
        return lambda msg="", *a, **k: self.lines.append((lvl, str(msg)))

    def __getattr__(self, name):
        if name in ("info", "warning", "error", "debug", "critical", "warn", "exception"):
            return self._log(name)
        raise AttributeError(name)


def product(**axes):
    """All combinations; the last axis varies fastest."""
    keys = list(axes)
    for combo in itertools.product(*axes.values()):
        yield dict(zip(keys, combo))


# --------------------------------------------------------------------------- running
def _guarded(mod, case):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            r = mod.check(case)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            r = Result()
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if str(REPO) in f.filename]
            where = inrepo[-1].name if inrepo else (tb[-1].name if tb else "?")
            r.fail(f"raised:{type(e).__name__}:{where}",
                   f"{type(e).__name__}: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-6:]))
    return r


def _worker(mod, jobs, results, cur):
    if os.environ.get("VERIF_DEBUG") is None:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1); os.dup2(dn, 2)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        j = jobs.get()
        if j is None:
            break
        out = []
        for i, case in j:
            cur.value = i
            r = _guarded(mod, case)
            out.append((i, r.bad, r.states, r.steps, digest(r.out) if r.out is not None else None, bool(r.nontrivial)))
        results.put(out)


def explore(mod, tier, procs=None):
    all_cases = list(mod.cases(tier))
    keyset = {json.dumps(c, sort_keys=True) for c in all_cases}
    if len(keyset) != len(all_cases):
        raise SystemExit("harness error: duplicate cases")
    procs = procs or int(os.environ.get("VERIF_PROCS", getattr(mod, "PROCS", 8)))
    chunk = getattr(mod, "CHUNK", None) or max(1, min(500, len(all_cases) // (procs * 8) or 1))
    agg = dict(states=0, steps=0, outs=set(), nontrivial=set(), bad=[], done=0)
    warm = getattr(mod, "warmup", None)
    if warm:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                warm()
        except Exception:
            pass
    ctx = mp.get_context("fork")
    jobs, results = ctx.Queue(), ctx.Queue()
    idx = list(enumerate(all_cases))
    if os.environ.get("VERIF_FAILFAST"):  # development: any violation soon
        import random
        random.Random(0).shuffle(idx)
        chunk = min(chunk, 4)
    pending = [idx[k:k + chunk] for k in range(0, len(idx), chunk)]
    workers = []

    def spawn():
        cur = ctx.Value("q", -1)
        p = ctx.Process(target=_worker, args=(mod, jobs, results, cur), daemon=True)
        p.start()
        workers.append((p, cur))
    for _ in range(min(procs, len(pending))):
        spawn()
    for c in pending:
        jobs.put(c)
    for _ in workers:
        jobs.put(None)
    got, last = 0, time.time()
    finished = set()
    import queue as _q
    while got < len(pending):
        try:
            out = results.get(timeout=2)
            got += 1
            last = time.time()
            for i, bad, s, st, od, nt in out:
                finished.add(i)
                agg["done"] += 1; agg["states"] += s; agg["steps"] += st
                key = od if od is not None else i
                agg["outs"].add(key)
                if nt:
                    agg["nontrivial"].add(i)
                for tag, msg in bad:
                    agg["bad"].append((i, tag, msg))
            if agg["bad"] and os.environ.get("VERIF_FAILFAST"):
                break
        except _q.Empty:
            dead = [(p, c) for p, c in workers if not p.is_alive() and p.exitcode not in (0, None)]
            if dead:
                p, c = dead[0]
                agg["bad"].append((int(max(c.value, 0)), "died", f"the process running this case ended with code {p.exitcode}"))
                break
            if time.time() - last > HANG_S:
                stuck = [int(c.value) for p, c in workers if p.is_alive() and c.value >= 0 and c.value not in finished]
                i = stuck[0] if stuck else 0
                agg["bad"].append((i, "hang", f"no answer after {HANG_S:.0f} s"))
                break
    jobs.cancel_join_thread()  # what is left in it when stopping early is not waited for
    for p, _ in workers:
        if p.is_alive() and got < len(pending):
            p.kill()
        p.join(timeout=10)
    return all_cases, agg


def load_known():
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else {"findings": [], "fixed": []}


def match_known(known, pid, case, tag):
    for k in known["findings"]:
        if k["property"] == pid and k["tag"] == tag and all(case.get(x) == v for x, v in k.get("case", {}).items()):
            return k
    return None


def main(pid, tier, replay=None):
    import importlib
    t0 = time.time()
    sys.path.insert(0, str(VERIF / "checks"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rdir = VERIF / "evidence" / "replays"
    rdir.mkdir(parents=True, exist_ok=True)
    for old in rdir.glob(f"{pid}-*.json"):
        if replay is None:
            old.unlink()
    known = load_known()
    try:
        mod = importlib.import_module(pid)
    except BaseException as e:
        path = rdir / f"{pid}-import.json"
        path.write_text(json.dumps({"property": pid, "case": None, "error": traceback.format_exc()}))
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if replay:
        rep = json.loads(Path(replay).read_text())
        r = _guarded(mod, rep["case"])
        for tag, msg in r.bad:
            print(f"[{tag}] {msg}")
        bad = [b for b in r.bad if not match_known(known, pid, rep["case"], b[0])]
        print("reproduced" if bad else "not reproduced")
        if bad:
            print(f"VIOLATION property={pid} replay={replay}")
        return 1 if bad else 0
    cases, agg = explore(mod, tier)
    agg["bad"].sort(key=lambda b: b[0])
    seen_known, fresh = {}, []
    for i, tag, msg in agg["bad"]:
        k = match_known(known, pid, cases[i], tag)
        if k:
            seen_known.setdefault(k["what"], 0)
            seen_known[k["what"]] += 1
        else:
            fresh.append((i, tag, msg))
    for what, n in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {what} ({n} of the explored cases)")
    printed, tags = 0, {}
    for i, tag, msg in fresh:
        tags[tag] = tags.get(tag, 0) + 1
        if tags[tag] > 2 or printed >= 12:
            continue
        path = rdir / f"{pid}-{printed}.json"
        path.write_text(json.dumps({"property": pid, "tag": tag, "case": cases[i], "message": msg}, indent=1))
        print(f"--- [{tag}] case {json.dumps(cases[i])[:600]}\n    {msg[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        printed += 1
    if fresh:
        print("violations by kind:", tags)
    wall = round(time.time() - t0, 2)
    n = len(cases)
    samples = [cases[0], cases[n // 2], cases[-1]] if n > 2 else cases
    cov = dict(samples=samples, rule=mod.RULE, exhaustive=(agg["done"] == n), cases=n,
               distinct_outcomes=len(agg["outs"]), known_findings_seen=len(seen_known))
    if mod.LEVEL == "model_checking":
        cov.update(states=agg["states"], transitions=agg["steps"], traces_validated_against_impl=agg["done"])
    else:
        cov.update(evaluations=agg["steps"], distinct_nontrivial=len(agg["nontrivial"]), comparisons=agg["states"])
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=wall, violations=len(fresh))
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid} {tier}: cases={n} explored={agg['done']} implementation calls={agg['steps']} "
          f"comparisons={agg['states']} distinct outcomes={len(agg['outs'])} violations={len(fresh)} wall={wall}s")
    return 1 if fresh else 0
