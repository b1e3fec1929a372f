"""C03: pictures written and read"""
import os
import subprocess
import sys

import numpy as np
from base import Rec, rng, f32a, arr, fx, THOROUGH

try:
    from raytools import io as rio
except Exception:
    print("DRIVER-IMPORT", file=sys.stderr)
    raise

N = [0]


def name():
    N[0] += 1
    return f"p{N[0]}.hdr"


LAY = ["f4", "f8", "F", "be", "slice", "view", "int"]


def layout(a, kind):
    """the same values (in binary32) in another memory layout or type"""
    if kind == "f4":
        return a.astype(np.float32)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "be":
        return a.astype(">f8")
    if kind == "slice":
        b = np.zeros(tuple(2 * s for s in a.shape))
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if kind == "view":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if kind == "int":
        return np.round(a).astype(np.int64)
    return a


def values(r, shape, style):
    if style == "wide":
        return 10.0 ** r.uniform(-6, 6, shape)
    if style == "unit":
        return r.uniform(0, 1, shape)
    if style == "ramp":
        return np.arange(np.prod(shape)).reshape(shape) + 1.0
    if style == "sparse":
        return np.where(r.uniform(size=shape) < .3, r.uniform(0, 1000, shape), 0)
    if style == "runs":
        return np.round(r.uniform(0, 2, shape))
    if style == "pow2":
        return 2.0 ** r.integers(-10, 20, shape) * r.choice([1, 255 / 256, 257 / 256, 1 - 2.0 ** -24], shape)
    if style == "extreme":
        return 10.0 ** r.uniform(-15, 15, shape)
    if style == "const":
        return np.full(shape, 3.7)
    return np.zeros(shape)


STYLES = ["wide", "unit", "ramp", "sparse", "runs", "pow2", "extreme", "const", "zero"]


def f4(a):
    return np.asarray(a).astype(np.float32)


def color(rec, x, y, style, lay, func):
    r = rng("d03", x, y, STYLES.index(style))
    a = layout(values(r, (3, x, y), style), lay)

    def go():
        p = name()
        ret = getattr(rio, func)(a, p)
        b = rio.hdr2carray(p)
        q = name()
        rio.carray2hdr(b, q)
        b2 = rio.hdr2carray(q)
        with open(p, "rb") as f:
            s = rio.hdr2carray("", stdin=f)
        return {"ret": ret == p, "r": f32a(b), "r2": f32a(b2), "rs": f32a(s)}
    rec.call("color", go, x=x, y=y, style=style, lay=lay, func=func, w=f32a(f4(a)))


def gray(rec, x, y, style, lay):
    r = rng("d03g", x, y, STYLES.index(style))
    a = layout(values(r, (x, y), style), lay)

    def go():
        p = name()
        ret = rio.array2hdr(a, p)
        b = rio.hdr2array(p)
        c = rio.hdr2carray(p)
        q = name()
        rio.array2hdr(b, q)
        b2 = rio.hdr2array(q)
        with open(p, "rb") as f:
            s = rio.hdr2array("", stdin=f)
        return {"ret": ret == p, "r": f32a(b), "rc": f32a(c), "r2": f32a(b2), "rs": f32a(s)}
    rec.call("gray", go, x=x, y=y, style=style, lay=lay, w=f32a(f4(a)))


def weight(rec, x, y, style):
    r = rng("d03w", x, y)
    a = values(r, (3, x, y), style)
    wt = r.uniform(0, 1, 3)

    def go():
        p = name()
        rio.carray2hdr(a, p)
        g, v = rio.hdr2array(p), rio.hdr2array(p, vlambda=tuple(wt))
        with open(p, "rb") as f:
            s = rio.hdr2array("", stdin=f, vlambda=list(wt))
        return {"sv": bool(np.array_equal(s, v)), "r": f32a(rio.hdr2carray(p)), "g": f32a(g), "v": f32a(f4(v))}
    rec.call("weight", go, x=x, y=y, style=style, wt=arr(wt))


CODE = """
import sys, numpy as np
from raytools import io
a = np.load(sys.argv[1])
h = None if sys.argv[2] == "0" else ["made=test"]
getattr(io, sys.argv[3])(a, None, h)
"""


def same(rec, x, y, hdr, func):
    """written to standard output, and with header lines"""
    r = rng("d03s", x, y)
    a = values(r, (x, y) if func == "array2hdr" else (3, x, y), "wide")

    def go():
        p = name()
        getattr(rio, func)(a, p)
        ref = rio.hdr2carray(p)
        np.save("a.npy", a)
        q = name()
        with open(q, "wb") as f:
            subprocess.run([sys.executable, "-c", CODE, "a.npy", hdr, func], stdout=f, check=True, timeout=100)
        p3 = name()
        getattr(rio, func)(a, p3, ["made=test", "VIEW= -vta -vh 180 -vv 180"], clean=hdr == "1")
        h = rio.hdr2carray(p, header=True)
        h2 = rio.hdr2array(p, header=True)
        h3 = rio.hdr2array(p, header=True, vlambda=(.2, .3, .5))
        ok = (np.array_equal(ref, rio.hdr2carray(q)) and np.array_equal(ref, rio.hdr2carray(p3))
              and np.array_equal(h[0], ref) and np.array_equal(h2[0], rio.hdr2array(p))
              and np.array_equal(h3[0], rio.hdr2array(p, vlambda=(.2, .3, .5)))
              and h[1] == h2[1] == h3[1] == rio.hdr_header(p))
        return {"same": bool(ok)}
    rec.call("same", go, x=x, y=y, hdr=hdr, func=func)


def large(rec, x, y, tx, ty, hdr):
    """a picture too large for any buffer is one made of small ones"""
    r = rng("d03l", x, y)
    a = values(r, (3, x, y), "wide")

    def go():
        p, q, g, h = name(), name(), name(), name()
        lines = [f"made={i}" for i in range(40)] if hdr == "1" else None
        rio.carray2hdr(a, p)
        rio.array2hdr(a[1], g)
        rio.carray2hdr(np.tile(a, (1, tx, ty)), q, lines)
        rio.array2hdr(np.tile(a[1], (tx, ty)), h, lines)
        ok = (np.array_equal(np.tile(rio.hdr2carray(p), (1, tx, ty)), rio.hdr2carray(q))
              and np.array_equal(np.tile(rio.hdr2array(g), (tx, ty)), rio.hdr2array(h)))
        with open(q, "rb") as f:
            ok = ok and np.array_equal(rio.hdr2carray("", stdin=f), rio.hdr2carray(q))
        return {"same": bool(ok)}
    rec.call("same", go, x=x * tx, y=y * ty, hdr=hdr, func="tiles")


def exposure(rec, x, y, style, ex):
    """pictures whose header gives exposures read as the values before exposure"""
    r = rng("d03e", x, y)
    a = values(r, (3, x, y), style)
    wt = r.uniform(0, 1, 3)

    def go():
        p, q = name(), name()
        rio.carray2hdr(a, p)
        rio.carray2hdr(a, q, ["A=1"] + [f"EXPOSURE={i}" for i in ex] + ["B=2"])
        with open(q, "rb") as f:
            s = rio.hdr2carray("", stdin=f)
        return {"r": f32a(rio.hdr2carray(p)), "rg": f32a(rio.hdr2array(p)), "e": f32a(rio.hdr2carray(q)), "es": f32a(s),
                "g": f32a(rio.hdr2array(q)), "v": f32a(f4(rio.hdr2array(q, vlambda=tuple(wt))))}
    rec.call("expo", go, x=x, y=y, style=style, wt=arr(wt), ex=[fx(i) for i in ex])


def luminance(rec, n):
    """RGB values and RGBE bytes, in the integer types bytes come in"""
    r = rng("d03l", n)
    m = int(r.integers(1, 9))
    rgb = 10. ** r.uniform(-3, 4, (m, 3))
    rgb[r.random((m, 3)) < .1] = 0
    by = np.hstack((r.integers(0, 256, (m, 3)), r.integers(112, 151, (m, 1))))
    by[r.random((m, 4)) < .08] = 0
    by[by[:, 3] == 0] = 0
    by = by.astype([np.uint8, int, np.uint8, np.int32, np.uint16, np.uint32][n % 6])
    wt = tuple(r.uniform(0, 1, 3)) if n % 2 else ()
    kw = {"vlambda": wt} if wt else {}

    def go():
        return {"rad": arr(rio.rgb2rad(rgb, **kw)), "lum": arr(rio.rgb2lum(rgb, **kw)), "lume": arr(rio.rgbe2lum(by))}
    rec.call("lum", go, rgb=arr(rgb), rgbe=by.tolist(), wt=arr(wt) if wt else [], dt=str(by.dtype))


def main():
    rec = Rec()
    shapes = [(c["x"], c["y"]) for c in rec.cases]
    for i, (x, y) in enumerate(shapes):
        k = x * 7 + y
        color(rec, x, y, STYLES[k % 9], LAY[k % 7], "carray2hdr")
        color(rec, x, y, STYLES[(k + 4) % 9], LAY[(k + 3) % 7], "array2hdr")
        gray(rec, x, y, STYLES[(k + 2) % 9], LAY[(k + 5) % 7])
        weight(rec, x, y, ["wide", "unit", "ramp"][k % 3])
    big = [(8, 8), (9, 2), (2, 9), (8, 1), (1, 8), (130, 2), (3, 40), (16, 7), (7, 16), (12, 12),
           (33, 5), (5, 33), (1, 130), (257, 1)]
    if THOROUGH:
        r = rng("d03shapes")
        big += [tuple(int(i) for i in r.integers(1, 40, 2)) for _ in range(60)]
    for x, y in big:
        for j, st in enumerate(STYLES if THOROUGH else STYLES[:7:2] + STYLES[7:8]):
            if rec.mine():
                color(rec, x, y, st, LAY[(x + y + j) % 7], ["carray2hdr", "array2hdr"][j % 2])
            if rec.mine():
                gray(rec, x, y, st, LAY[(x + 2 * y + j) % 7])
        if rec.mine():
            weight(rec, x, y, "wide")
    for n, ex in enumerate([(4,), (.25, 2), (10,), (1,), (.5, .5, 3), ()]):
        if rec.mine():
            exposure(rec, 3 + n, 7 - n, ["wide", "unit", "ramp"][n % 3], ex)
    for n in range(90 if THOROUGH else 24):
        if rec.mine():
            luminance(rec, n)
    for n, (x, y, tx, ty) in enumerate(((7, 9, 50, 30), (3, 40, 300, 2), (1, 1, 640, 480), (11, 5, 2, 300))):
        if rec.mine():
            large(rec, x, y, tx, ty, "01"[n % 2])
    for x, y in ((5, 3), (9, 12), (20, 4)):
        for hdr in "01":
            for func in ("array2hdr", "carray2hdr"):
                if rec.mine():
                    same(rec, x, y, hdr, func)
    rec.end()


if __name__ == "__main__":
    main()
