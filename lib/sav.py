"""Writes IDL save files: numbers, strings, arrays (also of structures' pointers), structures (dicts) and pointers (Ptr), as IDL's SAVE does."""
import struct
import numpy as np

CODE = {"u1": 1, "i2": 2, "i4": 3, "f4": 4, "f8": 5, "c8": 6, "c16": 9, "u2": 12, "u4": 13, "i8": 14, "u8": 15}


class Ptr:
    """a pointer to value; Ptr() is the null pointer"""
    def __init__(self, *value):
        self.value, self.index = value, 0


def L(n):
    return struct.pack(">l", int(n))


def S(s):
    b = s.encode("latin1")
    return L(len(b)) + b + b"\0" * (-len(b) % 4)


def kind(v):
    """(type code, flags) of a value"""
    if isinstance(v, dict): return 8, 0x34
    if isinstance(v, Ptr): return 10, 0
    if isinstance(v, (str, bytes)): return 7, 0
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return (10 if isinstance(v.flat[0], Ptr) else 7), 4
        return CODE[v.dtype.str[1:]], 4
    return CODE[np.asarray(v).dtype.str[1:]], 0


def size(v):
    if isinstance(v, dict): return sum(size(x) for x in v.values())
    if isinstance(v, np.ndarray) and v.dtype != object: return v.size * v.itemsize
    if isinstance(v, np.ndarray): return 4 * v.size
    return 4 if isinstance(v, (Ptr, str, bytes)) else np.asarray(v).itemsize


def arraydesc(v):
    dims = [1] if isinstance(v, dict) else list(v.shape[::-1])
    n = int(np.prod(dims))
    return L(8) + L(0) + L(size(v)) + L(n) + L(len(dims)) + L(0) * 2 + L(8) + b"".join(L(x) for x in dims + [1] * (8 - len(dims)))


def structdesc(v, name=""):
    out = L(9) + S(name) + L(0) + L(len(v)) + L(size(v)); off = 0
    for x in v.values():
        c, f = kind(x); out += L(off) + L(c) + L(f); off += size(x)
    out += b"".join(S(k.upper()) for k in v)
    out += b"".join(arraydesc(x) for x in v.values() if kind(x)[1] & 4)
    return out + b"".join(structdesc(x) for x in v.values() if isinstance(x, dict))


def scalar(v):
    c, _ = kind(v)
    if c == 10: return L(v.index)
    if c == 7:
        b = v if isinstance(v, bytes) else v.encode("latin1")
        return L(len(b)) + (L(len(b)) + b + b"\0" * (-len(b) % 4) if b else b"")
    a = np.asarray(v)
    b = a.astype(a.dtype.newbyteorder(">")).tobytes()
    if c == 1: return L(1) + b + b"\0" * 3
    if c in (2, 12): return (b"\0\0" if c == 12 or a >= 0 else b"\xff\xff") + b
    return b


def data(v):
    if isinstance(v, dict):
        return b"".join(data(x) for x in v.values())
    if not isinstance(v, np.ndarray):
        return scalar(v)
    c, _ = kind(v)
    if c in (2, 7, 10, 12):
        out = b"".join(scalar(x) for x in v.ravel())
    else:
        out = (L(v.size) if c == 1 else b"") + v.astype(v.dtype.newbyteorder(">")).tobytes()
    return out + b"\0" * (-len(out) % 4)


def typed(v):
    c, f = kind(v)
    if f & 32: return L(c) + L(f) + arraydesc(v) + structdesc(v)
    return L(c) + L(f) + (arraydesc(v) if f & 4 else b"")


def write(path, **variables):
    heap = []

    def number(v):
        if isinstance(v, Ptr):
            if v.value and not v.index:
                heap.append(v); v.index = len(heap)
                number(v.value[0])
        elif isinstance(v, dict):
            for x in v.values(): number(x)
        elif isinstance(v, np.ndarray) and v.dtype == object:
            for x in v.ravel(): number(x)
    for v in variables.values(): number(v)
    out = bytearray(b"SR\x00\x04")

    def record(t, body):
        end = len(out) + 16 + len(body)
        out.extend(L(t) + struct.pack(">II", end, 0) + L(0) + body)
    record(10, L(0) * 256 + S("Thu Jan  1 00:00:00 1970") + S("u") + S("h"))
    record(14, L(9) + S("x86_64") + S("linux") + S("8.0"))
    if heap:
        record(15, L(len(heap)) + b"".join(L(p.index) for p in heap))
        for p in heap:
            record(16, L(p.index) + L(0) + typed(p.value[0]) + L(7) + data(p.value[0]))
    for n, v in variables.items():
        record(2, S(n.upper()) + typed(v) + L(7) + data(v))
    record(6, b"")
    with open(path, "wb") as f:
        f.write(bytes(out))
