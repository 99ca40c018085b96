"""Child process: calls one compiled C function with the given buffers.

Protocol: length-prefixed pickles on stdin/stdout.  Array arguments are copied into
malloc'd blocks of exactly their size (AddressSanitizer redzones around them), so an
access outside an array, or a read of freed memory, ends the process."""
import ctypes
import os
import pickle
import struct
import sys

CT = {"int64": ctypes.c_int64, "int32": ctypes.c_int32, "double": ctypes.c_double, "char": ctypes.c_char,
      "ptr": ctypes.c_void_p}
libs = {}
libc = ctypes.CDLL(None)
libc.malloc.restype = ctypes.c_void_p
libc.malloc.argtypes = [ctypes.c_size_t]
libc.free.argtypes = [ctypes.c_void_p]


class Complex(ctypes.Structure):
    _fields_ = [("re", ctypes.c_double), ("im", ctypes.c_double)]


def build(a, bufs, keep):
    k = a[0]
    if k == "buf":            # (buf, name)
        return ctypes.c_void_p(bufs[a[1]])
    if k == "null":
        return ctypes.c_void_p(None)
    if k == "val":            # (val, ctype, v)
        if a[1] == "char":
            return ctypes.c_char(bytes([a[2] & 255]))
        return CT[a[1]](a[2])
    if k == "struct":         # (struct, [(name, ctype or [ctype, n], arg)])
        fs = []
        for nm, ty, v in a[1]:
            fs.append((nm, CT[ty] if isinstance(ty, str) else CT[ty[0]] * ty[1]))
        S = type("S", (ctypes.Structure,), {"_fields_": fs})
        o = S()
        for nm, ty, v in a[1]:
            if v is None:
                continue
            if isinstance(ty, str):
                x = build(v, bufs, keep)
                setattr(o, nm, x.value)
            else:
                arr = getattr(o, nm)
                for i, e in enumerate(v):
                    arr[i] = e
        keep.append(o)
        return o
    raise ValueError(k)


def main():
    inp = sys.stdin.buffer
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
        so = req["so"]
        if so not in libs:
            libs[so] = ctypes.CDLL(so)
        f = getattr(libs[so], req["fn"])
        bufs = {}
        for nm, b in req["bufs"].items():
            p = libc.malloc(max(len(b), 1))
            ctypes.memmove(p, b, len(b))
            bufs[nm] = p
        keep = []
        args = []
        for a in req["args"]:
            x = build(a, bufs, keep)
            if a[0] == "struct":
                x = ctypes.byref(x)
            args.append(x)
        f.restype = {"void": None, "int64": ctypes.c_int64, "int32": ctypes.c_int32, "double": ctypes.c_double,
                     "ptr": ctypes.c_void_p, "complex": Complex}[req["ret"]]
        r = f(*args)
        if req["ret"] == "complex":
            r = (r.re, r.im)
        res = {"ret": r, "bufs": {nm: ctypes.string_at(p, len(req["bufs"][nm])) for nm, p in bufs.items()}}
        # structs are passed by pointer: report scalar fields that changed
        res["structs"] = []
        for o in keep:
            d = {}
            for nm, ty in o._fields_:
                v = getattr(o, nm)
                d[nm] = list(v) if hasattr(v, "__len__") and not isinstance(v, (bytes, str)) else v
            res["structs"].append(d)
        for p in bufs.values():
            libc.free(p)
        b = pickle.dumps(res)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()


main()
