"""Readers for the headers of the shipped data files (.npy, MATLAB v5 .mat): names and shapes, and coordinate vectors."""
import ast, os, struct, zlib


def npy(path):
    with open(path, "rb") as f:
        raw = f.read()
    if raw[:6] != b"\x93NUMPY":
        raise ValueError("not a .npy file")
    major = raw[6]
    n, off = (struct.unpack("<H", raw[8:10])[0], 10) if major == 1 else (struct.unpack("<I", raw[8:12])[0], 12)
    h = ast.literal_eval(raw[off: off + n].decode("latin1"))
    return {"shape": tuple(h["shape"]), "dtype": h["descr"], "fortran": h["fortran_order"], "data": raw[off + n:]}


def npy_vector(d):
    """values of a small float array"""
    fmt = {"<f8": ("d", 8), "<f4": ("f", 4), "<i8": ("q", 8), "<i4": ("i", 4)}.get(d["dtype"])
    n = 1
    for k in d["shape"]:
        n *= k
    if fmt is None:
        return None
    return list(struct.unpack("<%d%s" % (n, fmt[0]), d["data"][: n * fmt[1]]))


MI = {1: ("b", 1), 2: ("B", 1), 3: ("h", 2), 4: ("H", 2), 5: ("i", 4), 6: ("I", 4), 7: ("f", 4), 9: ("d", 8), 12: ("q", 8), 13: ("Q", 8)}


def _elem(b, o):
    t, n = struct.unpack("<II", b[o: o + 8])
    if t >> 16:
        return t & 0xffff, b[o + 4: o + 4 + (t >> 16)], o + 8
    e = o + 8 + n
    return t, b[o + 8: e], (e + 7) // 8 * 8 if t != 15 else e


def mat(path):
    """{name: {"shape":..., "values": list or None}}"""
    with open(path, "rb") as f:
        raw = f.read()
    if raw[:4] == b"\x89HDF":
        raise ValueError("MATLAB 7.3 file, which scipy.io.loadmat does not read")
    if raw[126:128] != b"IM":
        raise ValueError("not a little-endian MATLAB v5 file")
    out, o = {}, 128
    while o + 8 <= len(raw):
        t, body, o = _elem(raw, o)
        if t == 15:
            t, body, _ = _elem(zlib.decompress(body), 0)
        if t != 14:
            continue
        p = 0
        _, flags, p = _elem(body, p)
        cls = flags[0]
        _, dims, p = _elem(body, p)
        _, name, p = _elem(body, p)
        shape = struct.unpack("<%di" % (len(dims) // 4), dims)
        vals, size = None, 1
        for d in shape:
            size *= d
        if 6 <= cls <= 15:
            dt, data, p = _elem(body, p)
            f = MI.get(dt)
            if f and size == max(shape, default=0):
                vals = list(struct.unpack("<%d%s" % (len(data) // f[1], f[0]), data))
        out[name.decode("latin1")] = {"shape": tuple(shape), "values": vals, "numeric": 6 <= cls <= 15}
    return out


def read(path):
    if path.endswith(".npy"):
        return npy(path)
    if path.endswith(".mat"):
        return mat(path)
    raise ValueError("format of %s is not known" % os.path.basename(path))
