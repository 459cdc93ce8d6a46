"""I03: a save that is killed or runs out of space leaves the previous file or the complete new one."""
import ctypes, itertools, json, os, subprocess, sys
from pathlib import Path
import numpy as np
from vf import Result, Scratch, VERIF

ID, LEVEL = "I03", "fault_enumeration"
RULE = ("every file-system operation (open, write, truncate, rename, unlink) a save makes below its directory, for each pair of "
        "previous and new contents, is a fault point: killed before it, killed half way through it, or no space from there on; "
        "after the fault the file is loaded, a retry is made and loaded again; non-trivial: the fault hit before the save ended")
ASSUMPTIONS = ["process crash and persistent lack of space; a single transient write error inside the HDF5 library is not reported by h5py",
               "operations that completed are visible afterwards (no power loss)"]
PROCS = 8
CHUNK = 1
VALUES = ["none", "small", "nested", "big", "array", "wide", "strings"]


def value(name):
    if name == "small":
        return {"a": 1, "b": "x", "which": "small"}
    if name == "nested":
        return {"which": "nested", "o": {"p": {"q": np.arange(50.0)}, "n": None}, "l": ["a", "b"]}
    if name == "big":
        rng = np.sin(np.arange(60000.0)) * 1e3
        return {"which": "big", "vis": (rng[:30000] + 1j * rng[30000:]).reshape(2, 100, 150), "w": rng.reshape(200, 300)}
    if name == "array":
        return np.cos(np.arange(5000.0)).reshape(50, 100)
    if name == "wide":
        return {f"k{i:03d}": (i if i % 3 else {"s": np.full(5, i)}) for i in range(60)}
    if name == "strings":
        return {"which": "strings", "t": np.array(["Tile%03d" % i for i in range(128)]), "u": "\u00e9" * 40}


def cases(tier):
    v = VALUES if tier == "thorough" else ["none", "small", "nested", "big", "array"]
    for a, b in itertools.product(v, v[1:]):
        if a != b:
            for mode in (1, 2, 3):
                yield {"old": a, "new": b, "mode": mode}


def shim():
    out = Path(os.environ.get("VERIF_SCRATCH", "/tmp"), "faultfs.so")
    if not out.exists():
        tmp = out.with_name(f"faultfs.{os.getpid()}.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", str(tmp), str(VERIF / "lib" / "faultfs.c"), "-ldl"], check=True)
        os.replace(tmp, out)
    return out


def warmup():
    shim()


def check(c):
    r = Result()
    with Scratch() as d:
        env = dict(os.environ, LD_PRELOAD=str(shim()))
        p = subprocess.run([sys.executable, "-W", "ignore", __file__, json.dumps(c), str(d)], env=env, capture_output=True, text=True, timeout=300)
        lines = [l for l in p.stdout.splitlines() if l.startswith("RES ")]
        if not lines:
            raise RuntimeError(f"fault driver gave no answer ({p.returncode}): {p.stderr[-800:]}")
        res = json.loads(lines[-1][4:])
    for tag, msg in res["bad"]:
        r.fail(tag, msg)
    r.states, r.steps, r.out = res["checked"], res["runs"], [c["old"], c["new"], c["mode"], res["points"]]
    r.nontrivial = res["points"] > 0
    return r


# ------------------------------------------------------------------ runs under the preloaded shim
def drive(c, d):
    from PyFHD.io.pyfhd_io import save, load
    import vf
    L = ctypes.CDLL(None)
    L.vf_count.restype = ctypes.c_long
    d = Path(d)

    def arm(where, k, mode):
        L.vf_arm(str(where).encode() + b"/", ctypes.c_long(k), mode)

    def read(f):
        if not f.exists():
            return None
        try:
            return load(f)
        except Exception as e:
            return ("unreadable", repr(e)[:200])

    def norm(v):
        if isinstance(v, dict):
            return {k: norm(x) for k, x in v.items()}
        return np.array(v) if isinstance(v, list) else v

    def eq(g, w):
        if (g is None) != (w is None):
            return False
        return vf.tree_diff(norm(g), norm(w)) is None if not isinstance(g, tuple) else False

    def child(f, v, k, mode):
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2)
                arm(f.parent, k, mode)
                save(f, v, "data")
                L.vf_disarm()
                os._exit(0)
            except BaseException:
                os._exit(1)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])

    old, new = (None if c["old"] == "none" else value(c["old"])), value(c["new"])

    def fresh(k):
        w = d / f"r{k}"
        w.mkdir()
        f = w / "f.h5"
        if old is not None:
            save(f, old, "data")
        return w, f

    import shutil
    w, f = fresh("count")
    pid = os.fork()
    if pid == 0:
        arm(w, 0, 0); save(f, new, "data"); n = L.vf_count(); L.vf_disarm()
        (d / "n").write_text(str(n)); os._exit(0)
    os.waitpid(pid, 0)
    n = int((d / "n").read_text())
    bad, checked, runs = [], 0, 1
    if n < 2:
        bad.append(("no_fault_points", f"only {n} file operations seen below the directory"))
    if not eq(read(f), new):
        bad.append(("plain_save", f"{c}"))
    for k in range(1, n + 1):
        w, f = fresh(k)
        rc = child(f, new, k, c["mode"]); runs += 1
        got = read(f); checked += 1
        lab = f"previous={c['old']} new={c['new']} fault {k}/{n} mode {c['mode']} exit {rc}"
        if rc == 0 and not eq(got, new):
            bad.append(("silent_loss", f"{lab}: save reported success but loading gives {str(got)[:200]}"))
        elif not (eq(got, old) or eq(got, new)):
            bad.append(("torn", f"{lab}: loading gives neither the previous nor the new contents: {str(got)[:200]}"))
        # a later save (the rerun after the crash) works whatever was left behind
        rc = child(f, new, 0, 0); runs += 1; checked += 1
        if rc != 0 or not eq(read(f), new):
            bad.append(("retry", f"{lab}: a retry does not give the new contents"))
        shutil.rmtree(w)
    print("RES " + json.dumps(dict(bad=bad[:20], checked=checked, runs=runs, points=n)))


if __name__ == "__main__":
    sys.path.insert(0, str(VERIF / "lib"))
    drive(json.loads(sys.argv[1]), sys.argv[2])
