"""P01: a run killed at any point, or out of space, leaves only complete products and checkpoints; starting again from any checkpoint gives what an undisturbed run gives."""
import ctypes, json, os, shutil, subprocess, sys
from pathlib import Path
from vf import Result, Scratch, VERIF, tree_diff

ID, LEVEL = "P01", "fault_enumeration"
RULE = ("whole runs killed before each renaming, truncating or unlinking of a file and half way through the middle write to each file (thorough: before or half way through every operation), or without space from there on (quick: from each renaming on); after each, every product under its final name is compared with that of an undisturbed run, "
        "and the run is started again without a checkpoint and with the last one left behind; thorough: also killed a second time at each renaming of the restarted run; undisturbed runs of several kinds restarted from each checkpoint elsewhere; non-trivial: the fault hit before the run ended")
ASSUMPTIONS = ["process crash and persistent lack of space, not loss of power", "FITS images may be cut short by a crash; they are written again by the next run", "one small observation per kind of run"]
PROCS = 8
CHUNK = 1
PARTS = 8
KINDS = [dict(), dict(n_pol=4), dict(split_ps_export=False), dict(bandpass_calibrate=False, calibration_polyfit=False), dict(calibrate_visibilities=False), dict(vis_baseline_hist=False, flag_visibilities=True),
         dict(rephase_weights=False, interpolate_kernel=False), dict(flag_freq_start=180.2, flag_freq_end=181.2), dict(flag_tiles=["3"]), dict(deproject_w_term=0.3), dict(grid_spectral=True), dict(image_filter="filter_uv_natural"),
         dict(pad_uv_image=2.0), dict(cal_time_average=True, tiles=[1, 2, 3, 5, 8, 9, 12]), dict(max_cal_iter=8, calibration_auto_fit=True)]


def cases(tier):
    t = tier == "thorough"
    n = 40 if t else PARTS
    for i in range(n):
        yield dict(part="crash", i=i, of=n, writes=t, n_pol=2)
    for i in range(PARTS):
        yield dict(part="space", i=i, of=PARTS, writes=t)
    for i, k in enumerate(KINDS):
        if t or i < 9:
            yield dict(part="restart", kind=k)
    if t:
        for i in range(PARTS):
            yield dict(part="twice", i=i, of=PARTS)
        for i in range(PARTS):
            yield dict(part="crash", i=i, of=PARTS, writes=False, n_pol=4)


def shim():
    out = Path(os.environ.get("VERIF_SCRATCH", "/tmp"), "faultfs.so")
    if not out.exists():
        tmp = out.with_name(f"faultfs.{os.getpid()}.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", str(tmp), str(VERIF / "lib" / "faultfs.c"), "-ldl"], check=True)
        os.replace(tmp, out)
    return out


def warmup():
    shim()


def check(c):
    r = Result()
    with Scratch() as d:
        env = dict(os.environ, LD_PRELOAD=str(shim()))
        p = subprocess.run([sys.executable, "-W", "ignore", __file__, json.dumps(c), str(d)], env=env, capture_output=True, text=True, timeout=3000)
        lines = [l for l in p.stdout.splitlines() if l.startswith("RES ")]
        if not lines:
            raise RuntimeError(f"fault driver gave no answer ({p.returncode}): {p.stderr[-800:]}")
        res = json.loads(lines[-1][4:])
    for tag, msg in res["bad"]:
        r.fail(tag, msg)
    r.states, r.steps, r.out = res["checked"], res["runs"], [str(c), res["points"]]
    r.nontrivial = res["points"] > 0
    return r


# ------------------------------------------------------------------ runs under the preloaded shim
class Driver:
    def __init__(self, c, d):
        import e2e
        self.e = e2e; self.c, self.d = c, Path(d)
        self.bad, self.checked, self.runs, self.points = [], 0, 0, 0
        self.ref = {}

    def fail(self, tag, msg):
        self.bad.append((tag, msg[:1500]))

    def expect(self, ok, tag, msg):
        self.checked += 1
        if not ok: self.fail(tag, msg() if callable(msg) else msg)
        return ok

    def scene(self, n_pol=2):
        return self.e.Scene(self.d / f"s{n_pol}", n_pol=n_pol)

    def run(self, *a, **k):
        self.runs += 1
        return self.e.run(*a, **k)

    def baseline(self, s, **over):
        self.work = self.d / "base"; self.work.mkdir(exist_ok=True)
        rc, out, said, n = self.run(s, self.work, "o", arm=(0, 0), **over)
        self.expect(rc == 0, "plain", f"the undisturbed run ends with {rc}: {said}")
        self.base = {k: self.e.contents(p) for k, p in self.e.products(out).items()}
        return n, out

    def same(self, p, name):
        try:
            return tree_diff(self.e.contents(p), self.base[name])
        except Exception as e:
            return f"unreadable: {type(e).__name__}: {e}"[:300]

    def intact(self, out, lab):
        for n, p in self.e.products(out).items():
            if n in self.base and p.suffix == ".h5":
                d = self.same(p, n)
                self.expect(d is None, "torn", lambda: f"{lab}: {n} is left incomplete: {d}")

    def complete(self, rc, out, said, lab, need=None):
        if not self.expect(rc == 0, "ends", f"{lab}: ends with {rc}: {said}"): return False
        got = self.e.products(out)
        miss = sorted((set(self.base) if need is None else need) - set(got))
        self.expect(not miss, "missing", f"{lab}: missing {miss[:6]}")
        extra = sorted(n for n in set(got) - set(self.base) if not (self.c["part"] == "twice" and n.endswith(".tmp")))
        self.expect(not extra, "left", f"{lab}: left behind {extra[:6]}")
        ok = not miss
        for n in sorted(set(got) & set(self.base)):
            d = self.same(got[n], n)
            ok = self.expect(d is None, f"differs:{n.split('/')[0]}", lambda: f"{lab}: {n} differs from that of an undisturbed run: {d}") and ok
        return ok

    def starts(self, cp):
        """The ways to start again, given the directory of checkpoints: without one and with those there are."""
        have = {k: cp / f"a_{k}_checkpoint.h5" for k in ("obs", "calibration", "gridding")}
        out = [("nothing", {})]
        if have["obs"].exists(): out.append(("obs", dict(obs_checkpoint=have["obs"])))
        if have["calibration"].exists(): out.append(("calibration", dict(calibrate_checkpoint=have["calibration"])))
        if have["calibration"].exists() and have["gridding"].exists(): out.append(("gridding", dict(calibrate_checkpoint=have["calibration"], gridding_checkpoint=have["gridding"])))
        return out

    def restart(self, s, w, lab, **over):
        """From the state left in w/o, every way to start again, each on its own copy; checkpoints are given by their place in that copy."""
        ways = self.starts(w / "o/pyfhd_a/checkpoints")
        for name, _ in ways[-1:] + ways[:-1][:1]:
            x = self.d / "again"; shutil.rmtree(x, ignore_errors=True); x.mkdir()
            if (w / "o").exists(): shutil.copytree(w / "o", x / "o")
            cps = dict(self.starts(x / "o/pyfhd_a/checkpoints"))[name]
            rc, out, said, _ = self.run(s, x, "o", **cps, **over)
            self.complete(rc, out, said, f"{lab}, started again from {name}")
            shutil.rmtree(x)

    def kinds(self, n):
        k = self.kindstr
        pts = [i + 1 for i in range(n) if k[i] != "w"]
        return pts

    def counted(self, s, **over):
        """Number and kinds of the file operations of an undisturbed run."""
        rc, out, said, n = None, None, None, None
        w = self.d / "count"; w.mkdir()
        L = ctypes.CDLL(None); L.vf_count.restype = ctypes.c_long; L.vf_kinds.restype = ctypes.c_char_p
        real = self.e.run_here

        def run_here(argv):
            code = real(argv)
            (w / "kinds").write_bytes(L.vf_kinds())
            return code
        self.e.run_here = run_here
        try:
            rc, out, said, n = self.run(s, w, "o", arm=(0, 0), **over)
        finally:
            self.e.run_here = real
        self.kindstr = (w / "kinds").read_text()[:n]
        return n

    def crash(self):
        s = self.scene(self.c["n_pol"]); self.baseline(s)
        n = self.counted(s); k = self.kindstr
        if self.c["writes"]:
            pts = [(i + 1, 1 if k[i] != "w" else 2) for i in range(n)]
        else:
            special = [i for i in range(n) if k[i] != "w"]
            pts = [(i + 1, 1) for i in special if k[i] != "o"] + [((a + b) // 2 + 1, 2) for a, b in zip(special, special[1:]) if b - a > 1 and k[a] == "o"]
        pts = sorted(pts)
        if len(pts) < 20: self.fail("no_fault_points", f"only {len(pts)} file operations seen")
        for j, (p, mode) in enumerate(pts):
            if j % self.c["of"] != self.c["i"]: continue
            w = self.d / "w"; shutil.rmtree(w, ignore_errors=True); w.mkdir()
            rc, out, said, _ = self.run(s, w, "o", arm=(p, mode))
            self.points += 1
            lab = f"killed {'before' if mode == 1 else 'half way through'} operation {p} of {n} ({k[p - 1]})"
            self.expect(rc == 77, "killed", f"{lab}: exit {rc} {said}")
            self.intact(out, lab)
            self.restart(s, w, lab)

    def space(self):
        s = self.scene(); self.baseline(s)
        n = self.counted(s); k = self.kindstr
        pts = [i + 1 for i in range(n) if k[i] in ("r" if not self.c["writes"] else "rot")]
        for j, p in enumerate(pts):
            if j % self.c["of"] != self.c["i"]: continue
            w = self.d / "w"; shutil.rmtree(w, ignore_errors=True); w.mkdir()
            rc, out, said, _ = self.run(s, w, "o", arm=(p, 3))
            self.points += 1
            lab = f"no space from operation {p} of {n} ({k[p - 1]}) on"
            self.intact(out, lab)
            if rc == 0:
                self.complete(rc, out, said, lab)
            x = self.starts(out / "checkpoints")[-1]
            rc, out, said, _ = self.run(s, w, "o", **x[1])
            self.complete(rc, out, said, f"{lab}, started again from {x[0]}")

    def twice(self):
        s = self.scene(); self.baseline(s)
        n = self.counted(s); k = self.kindstr
        pts = [i + 1 for i in range(n) if k[i] == "r"]
        for j, p in enumerate(pts):
            if j % self.c["of"] != self.c["i"]: continue
            w = self.d / "w"; shutil.rmtree(w, ignore_errors=True); w.mkdir()
            self.run(s, w, "o", arm=(p, 1))
            for name, _ in self.starts(w / "o/pyfhd_a/checkpoints"):
                q = 0
                while True:
                    q += 1
                    x = self.d / "x"; shutil.rmtree(x, ignore_errors=True); shutil.copytree(w, x)
                    cps = dict(self.starts(x / "o/pyfhd_a/checkpoints"))[name]
                    m = pts[::8]
                    if q > len(m): break
                    rc, out, said, _ = self.run(s, x, "o", arm=(m[q - 1], 1), **cps)
                    self.points += 1
                    lab = f"killed at renaming {p}, started again from {name}, killed at operation {m[q - 1]}"
                    self.intact(out, lab)
                    if rc == 0: break
                    y = self.starts(out / "checkpoints")[-1]
                    rc, out, said, _ = self.run(s, x, "o", **y[1])
                    self.complete(rc, out, said, f"{lab}, started again from {y[0]}")

    def restarts(self):
        over = dict(self.c["kind"])
        s = self.e.Scene(self.d / "s", n_pol=over.pop("n_pol", 2), tiles=over.pop("tiles", [1, 2, 3, 5, 8]))
        n, out = self.baseline(s, **over)
        for name, cps in self.starts(out / "checkpoints"):
            w = self.d / f"from_{name}"; w.mkdir()
            rc, o, said, _ = self.run(s, w, "o", **cps, **over)
            self.points += 1
            # everything that is made from the checkpoint on
            early = {"layout.h5", f"visibilities/{self.e.OBS}_raw_vis_arr.h5", f"visibilities/{self.e.OBS}_raw_vis_weights.h5", "checkpoints/a_obs_checkpoint.h5"}
            if name != "nothing" and name != "obs": early |= {"checkpoints/a_calibration_checkpoint.h5"}
            if name == "gridding": early |= {"checkpoints/a_gridding_checkpoint.h5"}
            need = set(self.base) - (early if name != "nothing" else set())
            self.complete(rc, o, said, f"{self.c['kind']}: started from the {name} checkpoint of another run", need)


def drive(c, d):
    D = Driver(c, d)
    D.e.warm(Path(d) / "w0")
    dict(crash=D.crash, space=D.space, twice=D.twice, restart=D.restarts)[c["part"]]()
    print("RES " + json.dumps(dict(bad=D.bad[:25], checked=D.checked, runs=D.runs, points=D.points)))


if __name__ == "__main__":
    drive(json.loads(sys.argv[1]), sys.argv[2])
