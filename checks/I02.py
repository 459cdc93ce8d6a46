"""I02: chunked, variable-length and converted data keep their values."""
import itertools
from pathlib import Path
import numpy as np
import h5py
from vf import Result, Scratch, NullLogger, close
from PyFHD.io.pyfhd_io import save, load, recarray_to_dict

ID, LEVEL = "I02", "exploration"
RULE = ("(a) every ragged list of up to 4 rows with lengths 0..3 in int/float/complex saved as variable length; (b) every chunk "
        "shape of small arrays, also nested; (c) record arrays as IDL save files yield them: every pair of field kinds, one or two "
        "levels deep; non-trivial: more than one row, chunk or field")
ASSUMPTIONS = ["record arrays hold one record, as IDL structures read from save files do"]


def cases(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        for lens in itertools.product(range(4), repeat=n):
            for t in ("i", "f", "c"):
                yield {"kind": "vlen", "lens": list(lens), "t": t}
    shapes = [(3,), (4, 2), (2, 3, 2)] if tier == "quick" else [(3,), (5,), (4, 2), (3, 3), (2, 3, 2), (2, 2, 2, 2)]
    for s in shapes:
        for ch in [True] + [list(x) for x in itertools.product(*[range(1, k + 1) for k in s])]:
            yield {"kind": "chunk", "shape": list(s), "chunk": ch}
    for a, b in itertools.product(range(16), repeat=2):
        yield {"kind": "rec", "a": a, "b": b}


def fields():
    obj = lambda *xs: np.array(list(xs) + [None], dtype=object)[:-1]
    stack = np.empty(2, dtype=object); stack[0] = np.arange(3.0); stack[1] = np.arange(3.0) + 5
    rag = np.empty(2, dtype=object); rag[0] = np.arange(3.0); rag[1] = np.arange(2.0)
    nest = np.empty((2, 2), dtype=object)
    for i in range(2):
        for j in range(2):
            nest[i, j] = np.arange(3.0) + 10 * i + j
    wide = np.empty((2, 3), dtype=object)
    for i in range(2):
        for j in range(3):
            wide[i, j] = (np.arange(2.0) + 10 * i + 3 * j) * (1 - .5j)
    first, last = np.empty(2, dtype=object), np.empty(2, dtype=object); first[1] = np.arange(2.0); last[0] = np.arange(2.0)
    strs = np.empty((2, 2), dtype=object); strs[:] = [[b"a ", b"b"], [b"cc", b""]]
    return [  # (stored in the record, expected)
        (np.int32(5), 5), (np.float64(0.25), 0.25), (b"hello", "hello"), (np.arange(4.0), np.arange(4.0)),
        (np.arange(6).reshape(2, 3), np.arange(6).reshape(2, 3)), (np.array([7.5]), np.array([7.5])),
        (obj(b"a ", b"bc"), ["a", "bc"]), (obj(None, None, None), np.full(3, np.nan)), (stack, np.array([np.arange(3.0), np.arange(3.0) + 5])),
        (rag, [np.arange(3.0), np.arange(2.0)]), (np.array([1 + 2j, 3j]), np.array([1 + 2j, 3j])),
        (nest, np.array(nest.tolist())), (wide, np.array(wide.tolist())), (first, [np.nan, np.arange(2.0)]), (strs, [["a", "b"], ["cc", ""]]),
        (last, np.array([np.arange(2.0), np.full(2, np.nan)]))]


def rec(names, vals):
    r = np.recarray(1, dtype=[(n, object) for n in names])
    for n, v in zip(names, vals):
        r[n][0] = v
    return r


def equal(g, w):
    if isinstance(w, dict):
        return isinstance(g, dict) and set(g) == set(w) and all(equal(g[k], w[k]) for k in w)
    if isinstance(w, list):
        return isinstance(g, (list, np.ndarray)) and len(g) == len(w) and all(np.array_equal(x, y, equal_nan=not isinstance(y, (str, list))) for x, y in zip(g, w))
    if isinstance(w, str):
        return g == w
    if isinstance(w, np.ndarray):
        return isinstance(g, np.ndarray) and g.dtype != object and close(g, w, rtol=0, atol=0)
    return np.ndim(g) == 0 and g == w


def check(c):
    r = Result()
    with Scratch() as d:
        f = Path(d, "x.h5")
        if c["kind"] == "vlen":
            dt = {"i": np.int64, "f": np.float64, "c": np.complex128}[c["t"]]
            rows = [(np.arange(n) * 1.5 + 7 * i).astype(dt) * (1 + (2j if c["t"] == "c" else 0)) for i, n in enumerate(c["lens"])]
            rows = [x.astype(dt) for x in rows]
            o = np.empty(len(rows), dtype=object)
            for i, x in enumerate(rows):
                o[i] = x.copy()
            mixed = [x.astype(int) if c["t"] != "i" and i % 2 and np.array_equal(x.astype(int), x) else x.tolist() for i, x in enumerate(rows)]
            for v in (o, [x.copy() for x in rows], mixed):
                if isinstance(v, list) and len(set(c["lens"])) == 1:
                    continue        # not ragged: an ordinary array
                for tree in ({"v": v, "k": 1}, {"k": 1, "g": {"v": v}}):
                    save(f, tree, "t", logger=NullLogger(), variable_lengths={"v": h5py.vlen_dtype(dt)})
                    got = load(f); r.steps += 2
                    got = got["v"] if "v" in got else got["g"]["v"]
                    r.expect(len(got) == len(rows) and all(np.array_equal(g, w) and g.dtype == w.dtype for g, w in zip(got, rows)),
                             "vlen", lambda: f"{c}: {got!r}")
            r.nontrivial = len(rows) > 1
            r.out = rows
        elif c["kind"] == "chunk":
            ch = c["chunk"] if c["chunk"] is True else tuple(c["chunk"])
            a = (np.arange(np.prod(c["shape"])) * (1 - 0.5j)).reshape(c["shape"])
            for tree in ({"v": a, "k": 1}, {"k": 1, "g": {"v": a}}):
                save(f, tree, "t", to_chunk={"v": {"shape": a.shape, "chunk": ch}})
                got = load(f); r.steps += 2
                got = got["v"] if "v" in got else got["g"]["v"]
                r.expect(np.array_equal(got, a), "chunk", lambda: f"{c}: {got!r}")
                h = load(f, lazy_load=True)
                ds = h["v"] if "v" in h else h["g"]["v"]
                if ch is not True:
                    r.expect(ds.chunks == ch, "chunk_layout", lambda: f"{c}: {ds.chunks}")
                r.expect(np.array_equal(ds[0], a[0]), "lazy_slice", lambda: f"{c}")
                h.close()
            r.out = c["chunk"]
        else:
            A, B = fields()[c["a"]], fields()[c["b"]]
            inner = rec(["P", "Q"], [A[0], B[0]])
            got = recarray_to_dict(inner); r.steps += 1
            want = {"p": A[1], "q": B[1]}
            r.expect(equal(got, want), "record", lambda: f"{c}: {got!r} expected {want!r}")
            outer = rec(["IN", "X"], [rec(["P", "Q"], [fields()[c["a"]][0], fields()[c["b"]][0]]), np.arange(2.0)])
            got = recarray_to_dict(outer); r.steps += 1
            want = {"in": want, "x": np.arange(2.0)}
            r.expect(equal(got, want), "nested_record", lambda: f"{c}: {got!r} expected {want!r}")
            r.out = [c["a"], c["b"]]
    return r
