"""C06: bytes, tables and malformed pictures"""
import os
import pathlib
import sys
import warnings

import numpy as np
from base import Rec, rng, pyrng, event, arr, shp, THOROUGH

try:
    from raytools import io as rio, imagetools
except Exception:
    print("DRIVER-IMPORT", file=sys.stderr)
    raise

warnings.simplefilter("ignore")
# stored format -> (model type, range)
TYPES = {"<f": "f4", ">f": "f4", "<f8": "f8", ">f8": "f8", "<i4": "i", ">i2": "i", "u1": "i", "B": "i", "<u2": "i",
         "<i8": "i", "f": "f4", "d": "f8", "float32": "f4", "int": "i"}


def data(r, shape, ty, dt):
    if TYPES[dt] == "i":
        n = np.dtype(dt)
        hi = min(np.iinfo(n).max, 2 ** 40)
        lo = max(np.iinfo(n).min, -2 ** 40)
        a = r.integers(lo, hi, shape, endpoint=True)
        return a if ty == "native" else a.astype(float)
    a = r.normal(size=shape) * 10.0 ** r.integers(-3, 6, shape)
    a = np.where(r.uniform(size=shape) < .1, r.choice([0, 1, -1, np.inf, -np.inf, 16777217], shape), a)
    if ty == "native":
        a = a.astype(np.float32) if TYPES[dt] == "f4" else a
    return a


def layout(a, k):
    if a.ndim >= 2 and k % 4 == 1:
        return np.asfortranarray(a)
    if a.ndim >= 1 and k % 4 == 2:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if a.ndim >= 2 and k % 4 == 3:
        return np.ascontiguousarray(a.swapaxes(0, 1)).swapaxes(0, 1)
    return a


SHAPES = [(4,), (2, 3), (3, 2), (1,), (2, 2, 2), (0,), (5, 1), (1, 6), (3, 1, 2), (2, 0, 3)]


def els(a):
    return arr(np.asarray(a, dtype=object).ravel() if False else np.ravel(a, order="C"))


def hist(rec, n, case):
    r = rng("d06", n)
    pr = pyrng("d06", n)
    dt = pr.choice(list(TYPES))
    evs, size = [], {}
    rec.begin({"hist": case, "dtype": dt})
    arrs = {k: layout(data(r, pr.choice(SHAPES), pr.choice(["native", "f8"]), dt), n + i) for i, k in enumerate("xyz")}
    fn = {f: f"{f}{n}.bin" for f in "ab"}
    count = {}
    for st in case:
        a, f = arrs[st["x"]], fn[st["f"]]

        def put():
            before = os.path.getsize(f) if st["mode"] == "ab" and os.path.exists(f) else 0
            if st["mode"] == "wb" and n % 2:
                rio.np2bytefile(a, f, dt)
            else:
                rio.np2bytefile(a, f, dt, mode=st["mode"])
            return {"size": os.path.getsize(f) - before}
        evs.append(event("write", put, f=f, mode=st["mode"], els=els(a), width=np.dtype(dt).itemsize))
        count[f] = (count.get(f, 0) if st["mode"] == "ab" else 0) + a.size
        for g in count:
            m = count[g]
            shapes = [(-1,), (m,)] + [s for s in ((-1, 2), (2, -1), (-1, 3), (3, 2, -1), (m + 1,), (1, m), (m, 1))]
            for s in [shapes[0], pr.choice(shapes[1:])]:
                def rd():
                    with open(g, "rb") as h:
                        b = rio.bytefile2np(h, s, dt)
                    c = b.astype(np.float32).astype(float) if TYPES[dt] == "f4" else b
                    return {"rsh": shp(b), "rty": b.dtype.str, "r": els(b), "again": bool(np.array_equal(c, b))}
                evs.append(event("read", rd, f=g, sh=list(s), ty=TYPES[dt], want=np.dtype(dt).str))
    rec.chain(evs)


def bytes_(rec, n):
    r = rng("d06b", n)
    pr = pyrng("d06b", n)
    dt = pr.choice(list(TYPES))
    sh = pr.choice(SHAPES)
    a = layout(data(r, sh, pr.choice(["native", "f8"]), dt), n)

    def go():
        b = rio.np2bytes(a, dt) if dt != "<f" or n % 2 else rio.np2bytes(a)
        c = rio.bytes2np(b, sh, dt) if dt != "<f" or n % 2 else rio.bytes2np(b, sh)
        with open("pos.bin", "wb") as f:
            f.write(b"skip" + b)
        with open("pos.bin", "rb") as f:
            f.read(4)
            d = rio.bytefile2np(f, sh, dt)
        again = c.astype(np.float32) if TYPES[dt] == "f4" else c
        return {"rsh": shp(c), "r": els(c), "again": bool(np.array_equal(again, c)),
                "rest": bool(np.array_equal(c, d) and d.shape == c.shape)}
    rec.call("bytes", go, sh=list(sh), ty=TYPES[dt], els=els(a), dtype=dt)


def load(rec, n, arg, content):
    r = rng("d06l", n)
    pr = pyrng("d06l", n)
    rows, cols = pr.randint(1, 6), pr.randint(1, 5)
    a = np.round(r.normal(size=(rows, cols)) * 10.0 ** r.integers(-3, 4), 6)
    kw = {}
    sep = " "
    want = a
    lines = None
    if content == "table":
        if n % 3 == 1:
            sep, kw = ",", {"delimiter": ","}
        elif n % 3 == 2:
            sep = "\t"
        lines = [sep.join(repr(float(v)) for v in row) for row in a]
        if n % 4 == 1:
            lines = ["# a comment"] + lines + ["# end"]
        if n % 4 == 2:
            lines = [ln + "   # trailing" for ln in lines] + ["", ""]
        if n % 5 == 1:
            kw["ndmin"] = 2
        if n % 5 == 2 and rows > 1:
            kw["skiprows"] = 1
            want = a[1:] if n % 4 != 1 else a
        if n % 5 == 3:
            kw["usecols"] = (cols - 1,)
            want = a[:, -1:]
        want = want if kw.get("ndmin") else np.squeeze(want)
    elif content == "words":
        lines = ["this is", "not a table"]
    elif content == "ragged":
        lines = ["1 2 3", "4 5"]
    elif content == "mixed":
        lines = ["1 2 3", "4 five 6"]
    elif content == "partial":
        lines = ["1 2 3", "4 5 -"]
    raw = "\n".join(lines).encode() if lines is not None else bytes(range(128, 256)) + b"\n\xff\xfe 1 2"
    f = f"t{n}.txt"
    with open(f, "wb") as h:
        h.write(raw)
    if arg == "missing":
        p = pr.choice(["nosuch.txt", b"nosuch.txt", "", ".", "dir/x.txt"])
    elif arg == "other":
        p = pr.choice([[1, 2], None, 3, np.zeros(3), pathlib.Path(f), (f,), {"a": 1}, 2.5])
    elif arg == "bytes":
        p = f.encode()
    elif arg == "abs":
        p = os.path.abspath(f)
    else:
        p = f

    def go():
        x = rio.load_txt(p, **kw)
        return {"rsh": shp(x), "r": els(x)}
    rec.call("load", go, arg=arg, content=content, wsh=shp(want), w=els(want), path=repr(p))
    os.remove(f)


def outcome(fn):
    try:
        return "", fn()
    except Exception as ex:
        return type(ex).__name__, None


def looks(f):
    def stream():
        with open(f, "rb") as h:
            return rio.hdr2carray("", stdin=h)
    o = {}
    o["gray"], g = outcome(lambda: rio.hdr2array(f))
    o["color"], c = outcome(lambda: rio.hdr2carray(f))
    o["stream"], s = outcome(stream)
    o["vol"], _ = outcome(lambda: imagetools.hdr2vol(f))
    o["hdr"], _ = outcome(lambda: rio.hdr_header(f))
    o["vm"], _ = outcome(lambda: imagetools.hdr2vm(f))
    x, y = outcome(lambda: rio.is_hdr(f))
    o["ishdr"] = y if x == "" else x
    return o, g, c, s


def picture(n):
    r = rng("d06p", n)
    sh = [(3, 2, 2), (3, 9, 10), (2, 3), (3, 12, 8), (8, 1), (3, 1, 1)][n % 6]
    a = r.uniform(1, 9, sh)
    return a, ["VIEW= -vta -vh 180 -vv 180"] + (["x=1"] if n % 2 else [])


def cuts(rec, n, step):
    a, hd = picture(n)
    p = f"whole{n}.hdr"
    rio.array2hdr(a, p, header=hd)
    raw = open(p, "rb").read()
    h = raw.index(b"\n\n") + 2
    m = [h, raw.index(b"\n", h) + 1, len(raw)]
    ref = rio.hdr2carray(p)
    pts = sorted(set(range(0, len(raw) + 1, step)) | {0, 9, 10, 11, h - 1, h, m[1] - 1, m[1], m[1] + 1, m[2] - 1, m[2]})
    for i in pts:
        if i > len(raw) or not rec.mine():
            continue
        f = f"cut{n}_{i}.hdr"
        with open(f, "wb") as o:
            o.write(raw[:i])

        def go():
            o, g, c, s = looks(f)
            same = c is not None and s is not None and np.array_equal(c, ref) and np.array_equal(s, ref) \
                and g.shape == ref.shape[1:]
            return {"same": bool(same), **o}
        rec.call("cut", go, n=i, m=m, pic=n)
        os.remove(f)


def bads(rec):
    a, hd = picture(1)
    rio.array2hdr(a, "g.hdr", header=hd)
    g = open("g.hdr", "rb").read()
    h = g.index(b"\n\n") + 2
    r = g.index(b"\n", h) + 1
    B = {"words": (b"hello world\n", "OSError", False),
         "html": (b"<html>\n\n<body>\n", "", False),
         "png": (b"\x89PNG\r\n\x1a\n" + bytes(60), "OSError", False),
         "bytes": (bytes(range(256)) * 4, "OSError", False),
         "zeros": (bytes(500), "OSError", False),
         "lower": (b"#?radiance\n", "OSError", False),
         "spaced": (b" #?RADIANCE\n", "OSError", False),
         "bom": (b"\xef\xbb\xbf#?RADIANCE\n", "OSError", False),
         "rgbe": (b"#?RGBE\n", "OSError", False),
         "sigonly": (b"#?RADIANCE", "OSError", True),
         "sigmore": (b"#?RADIANCE2 etc\n", "OSError", True),
         "sigbin": (b"#?RADIANCE" + bytes(range(256)), "OSError", True),
         "size": (g[:h] + b"-Y x +X y\n" + g[r:], None, True),
         "bigger": (g[:h] + b"-Y 40 +X 9\n" + g[r:], "", True),
         "nosize": (g[:h] + g[r:], None, True),
         "format": (g.replace(b"32-bit_rle_rgbe", b"ascii_or_such"), "", True)}
    for k, (raw, whdr, wis) in B.items():
        if not rec.mine():
            continue
        with open("bad.x", "wb") as f:
            f.write(raw)

        def go():
            o, _, _, _ = looks("bad.x")
            return {**o, **({"whdr": whdr} if whdr is not None else {"whdr": "", "hdr": o["hdr"], "vm": ""})}
        rec.call("bad", go, what=k, wis=wis)
    if rec.mine():
        def go():
            o, _, _, _ = looks("nosuch.hdr")
            return {**o, "ishdr": o["ishdr"] == "FileNotFoundError"}
        rec.call("bad", go, what="missing", wis=True, whdr="FileNotFoundError")


def main():
    rec = Rec()
    for n, c in enumerate(rec.cases):
        hist(rec, n * 8 + rec.shard, c)
    for n in range(4000 if THOROUGH else 400):
        if rec.mine():
            bytes_(rec, n)
    n = 0
    for _ in range(10 if THOROUGH else 1):
        for arg in ("path", "bytes", "abs", "missing", "other"):
            for content in ("table",) * 20 + ("words", "ragged", "mixed", "partial", "binary"):
                n += 1
                if rec.mine():
                    load(rec, n, arg, content)
    for n in range(6):
        cuts(rec, n, 1 if THOROUGH else 4 if n < 3 else 12)
    bads(rec)
    rec.end()


if __name__ == "__main__":
    main()
