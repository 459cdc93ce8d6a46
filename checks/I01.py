"""I01: save/load histories against a dictionary model of the file system."""
import itertools, json
from pathlib import Path
import numpy as np
import h5py
from vf import Result, Scratch, NullLogger
from PyFHD.io.pyfhd_io import save, load

ID, LEVEL = "I01", "model_checking"
RULE = ("(a) every pair of leaf kinds placed at every pair of positions in a dictionary tree of depth <= 3, saved and loaded; "
        "(b) every history of save/load operations to the depth bound over two files and four values; the model state is "
        "file -> value; non-trivial: the loaded tree holds at least one leaf or the history overwrites a file")
ASSUMPTIONS = ["dictionary keys are plain names; an array inside a dictionary of one entry is documented to load as the array",
               "lists load as arrays, paths as strings, None inside arrays as NaN or the empty string (documented)"]


def leaves():
    o = lambda *a: np.array(a, dtype=object)
    return {
        "int": (lambda: 3, 3), "neg": (lambda: -2 ** 40, -2 ** 40), "float": (lambda: 0.1, 0.1), "nan": (lambda: float("nan"), np.nan),
        "complex": (lambda: 1 - 2.5j, 1 - 2.5j), "true": (lambda: True, True), "false": (lambda: False, False),
        "str": (lambda: "abc", "abc"), "empty": (lambda: "", ""), "uni": (lambda: "\u00e9\u2603", "\u00e9\u2603"),
        "none": (lambda: None, None), "npint": (lambda: np.int32(7), 7), "npstr": (lambda: np.str_("xy"), "xy"),
        "path": (lambda: Path("/a/b c"), "/a/b c"), "zero": (lambda: 0, 0),
        "iarr": (lambda: np.array([[1, -2], [3, 4]], dtype=np.int16), np.array([[1, -2], [3, 4]])),
        "farr": (lambda: np.array([0.1, np.nan, np.inf, -0.0]), np.array([0.1, np.nan, np.inf, -0.0])),
        "f32": (lambda: np.array([0.1, 3], dtype=np.float32), np.array([0.1, 3], dtype=np.float32).astype(float)),
        "carr": (lambda: np.array([[[1j, 2 + 1e-300j]]]), np.array([[[1j, 2 + 1e-300j]]])),
        "c64": (lambda: np.array([0.1j], dtype=np.complex64), np.array([0.1j], dtype=np.complex64).astype(complex)),
        "barr": (lambda: np.array([True, False]), np.array([True, False])),
        "sarr": (lambda: np.array(["XX", "", "YY_long"]), np.array(["XX", "", "YY_long"])),
        "usarr": (lambda: np.array(["\u00e9"]), np.array(["\u00e9"])),
        "noarr": (lambda: o(None, None), np.array([np.nan, np.nan])), "mixnum": (lambda: o(1.5, None), np.array([1.5, np.nan])),
        "mixc": (lambda: o(1j, None), np.array([1j, complex(np.nan, np.nan)])), "mixs": (lambda: o("a", None), np.array(["a", ""])),
        "list": (lambda: [1, 2, 3], np.array([1, 2, 3])), "slist": (lambda: ["a", "bc"], np.array(["a", "bc"])),
        "flist": (lambda: [0.5], np.array([0.5])), "nlist": (lambda: [1, None], np.array([1, np.nan])), "elist": (lambda: [], np.array([])),
        "tuple": (lambda: (1, 2), np.array([1, 2])), "earr": (lambda: np.zeros((0, 3)), np.zeros((0, 3))),
        "zarr": (lambda: np.array(2.5), 2.5), "big": (lambda: np.arange(3000.0).reshape(50, 60) / 7, np.arange(3000.0).reshape(50, 60) / 7),
        "ragged": (lambda: [np.arange(2), np.arange(3)], [np.arange(2), np.arange(3)]),
        "fragged": (lambda: [np.array([.5]), np.array([1.25, 2.5])], [np.array([.5]), np.array([1.25, 2.5])]),
        "cragged": (lambda: [np.array([.5, 1j]), np.array([2.5])], [np.array([.5, 1j]), np.array([2.5 + 0j])]),
        "mragged": (lambda: [np.arange(2), np.array([.5, 1.5, 2])], [np.array([0., 1.]), np.array([.5, 1.5, 2])]),
        "rlists": (lambda: [[1, 2], [3.5]], [np.array([1., 2.]), np.array([3.5])]), "rtuple": (lambda: (np.array([]), np.array([.25])), [np.array([]), np.array([.25])]),
        "rscalar": (lambda: [1, np.arange(2) + .5], [np.array([1.]), np.array([.5, 1.5])]),
        "noncontig": (lambda: np.arange(12.0).reshape(3, 4).T[::2], np.arange(12.0).reshape(3, 4).T[::2].copy()),
        "dict": (lambda: {"u": 1, "v": {"w": np.arange(2)}}, {"u": 1, "v": {"w": np.arange(2)}}), "edict": (lambda: {}, {}),
    }


POS = [("a",), ("b",), ("d", "x"), ("d", "y"), ("d", "e", "p"), ("f", "q")]
NAMES = list(leaves())


def place(tree, path, v):
    for k in path[:-1]:
        tree = tree.setdefault(k, {})
    tree[path[-1]] = v


def same(got, want, where=""):
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return f"{where}: {got!r} expected keys {sorted(want)}"
        for k in want:
            d = same(got[k], want[k], where + "/" + k)
            if d:
                return d
        return None
    if want is None:
        return None if got is None else f"{where}: {got!r} expected None"
    if isinstance(want, list):     # ragged
        if len(got) != len(want) or any(not np.array_equal(g, w) or g.dtype.kind != w.dtype.kind for g, w in zip(got, want)):
            return f"{where}: {got!r} expected {want!r}"
        return None
    if isinstance(want, str):
        return None if isinstance(got, str) and got == want else f"{where}: {got!r} expected {want!r}"
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray) or got.shape != want.shape or got.dtype.kind != want.dtype.kind:
            return f"{where}: {got!r} expected {want!r}"
        if want.dtype.kind in "fc":
            ok = np.array_equal(got, want, equal_nan=True) and np.array_equal(np.signbit(got.real), np.signbit(want.real))
            if want.dtype.kind == "c":
                ok = ok or (np.array_equal(np.isnan(got), np.isnan(want)) and np.array_equal(got[~np.isnan(got)], want[~np.isnan(want)]))
            ok = ok and got.dtype.itemsize == want.dtype.itemsize
        else:
            ok = np.array_equal(got, want)
        return None if ok else f"{where}: {got!r} expected {want!r}"
    if np.ndim(got) != 0 or isinstance(got, (str, bytes, np.ndarray)):
        return f"{where}: {got!r} expected scalar {want!r}"
    if np.asarray(got).dtype.kind != np.asarray(want).dtype.kind:
        return f"{where}: {got!r} expected {want!r} (kind)"
    return None if (got == want or (want != want and got != got)) else f"{where}: {got!r} expected {want!r}"


def cases(tier):
    for n in NAMES:
        yield {"kind": "single", "leaf": n}
    for a, b in itertools.product(NAMES, NAMES):
        yield {"kind": "pair", "a": a, "b": b}
    depth = 4 if tier == "quick" else 5
    ops = ["sA0", "sA1", "sA2", "sA3", "sB1", "lA", "lB", "zA"]
    for d in range(1, depth + 1):
        for h in itertools.product(ops, repeat=d):
            if h[-1][0] != "s" and not (d > 1 and all(x[0] != "s" for x in h)):
                yield {"kind": "history", "ops": list(h)}


def check(c):
    r = Result()
    L = leaves()
    with Scratch() as d:
        f = Path(d, "x.h5")
        if c["kind"] == "single":
            mk, want = L[c["leaf"]]
            # alone in the file (arrays only) and as an array argument
            v = mk()
            if isinstance(v, np.ndarray) and v.ndim > 0:
                for arg in (mk(), {"only": mk()}):
                    save(f, arg, "only", logger=NullLogger()); got = load(f, NullLogger())
                    r.steps += 2
                    r.expect(same(got, want) is None, "array_file", lambda: same(got, want))
            if isinstance(v, dict):
                save(f, {"only": mk()}, "n", logger=NullLogger()); got = load(f)
                r.steps += 2
                r.expect(same(got, {"only": want}) is None, "one_group", lambda: same(got, {"only": want}))
            for p in POS:
                t, w = {"pad": 1}, {"pad": 1}
                place(t, p, mk()); place(w, p, want)
                save(f, t, "t", logger=NullLogger()); got = load(f)
                r.steps += 2
                r.expect(same(got, w) is None, "tree", lambda: same(got, w))
                # lazy loading shows the same datasets
                h = load(f, lazy_load=True)
                try:
                    r.steps += 1
                    node = h["/".join(p)]
                    ok = isinstance(h, h5py.File) and h.mode == "r" and (
                        isinstance(node, h5py.Group) if isinstance(want, dict) else
                        (node.shape is None or node.shape == (np.shape(want) if not isinstance(want, list) else (len(want),))))
                    if ok and isinstance(want, np.ndarray) and want.dtype.kind in "ifc":
                        ok = np.array_equal(node[:], want, equal_nan=True) or want.dtype.kind == "c"
                    r.expect(ok, "lazy", lambda: f"{p}: {node!r}")
                finally:
                    h.close()
            r.out = c["leaf"]
            return r
        if c["kind"] == "pair":
            for p, q in itertools.combinations(POS, 2):
                t, w = {}, {}
                for path, n in ((p, c["a"]), (q, c["b"])):
                    place(t, path, L[n][0]()); place(w, path, L[n][1])
                if len(t) == 1 and not isinstance(next(iter(t.values())), dict):
                    continue
                save(f, t, "t", logger=NullLogger()); got = load(f)
                r.steps += 2
                r.expect(same(got, w) is None, "tree", lambda: same(got, w))
            r.out = [c["a"], c["b"]]
            return r
        vals = [({"a": np.arange(5.0), "b": {"s": "x", "n": None}}, {"a": np.arange(5.0), "b": {"s": "x", "n": None}}),
                ({"a": 1, "c": "y"}, {"a": 1, "c": "y"}),
                (np.arange(6).reshape(2, 3), np.arange(6).reshape(2, 3)),
                ({"a": {"s": 2}, "b": [1.5, 2.5], "z": np.zeros((40, 40), complex)}, {"a": {"s": 2}, "b": np.array([1.5, 2.5]), "z": np.zeros((40, 40), complex)})]
        model = {}
        lazy = []
        over = False
        for op in c["ops"]:
            path = Path(d, op[1] + ".h5")
            r.steps += 1
            if op[0] == "s":
                over |= op[1] in model
                save(path, vals[int(op[2])][0], "name", logger=NullLogger())
                model[op[1]] = int(op[2])
            elif op[1] not in model:
                try:
                    load(path, NullLogger()); r.fail("ghost", f"{c['ops']}: load of a file never saved succeeded")
                except OSError:
                    pass
                r.states += 1
            elif op[0] == "l":
                got = load(path, NullLogger())
                w = vals[model[op[1]]][1]
                r.expect(same(got, w) is None, "history", lambda: f"{c['ops']} at {op}: {same(got, w)}")
            else:
                h = load(path, lazy_load=True)
                w = vals[model[op[1]]][1]
                keys = {"name"} if isinstance(w, np.ndarray) else set(w)
                r.expect(set(h.keys()) == keys, "lazy_keys", lambda: f"{c['ops']}: {list(h.keys())}")
                h.close()
            left = sorted(x.name for x in d.iterdir())
            r.expect(left == sorted(k + ".h5" for k in model), "stray_files", lambda: f"{c['ops']}: {left}")
        for v, w in vals:
            r.expect(same(v if not isinstance(v, dict) else {k: (np.array(x) if isinstance(x, list) else x) for k, x in v.items()}, w) is None,
                     "argument_changed", lambda: f"{c['ops']}")
        r.nontrivial = over
        r.out = [c["ops"][-1], sorted(model.items())]
    return r
