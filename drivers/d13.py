"""C13: reprojecting images."""
import numpy as np

from base import *
from d10 import make
from raytools import io, imagetools as it
from raytools.mapper import ViewMapper


def image(r, w, h, ch):
    a = r.integers(1, 60, (ch, w, h)).astype(float)
    if r.random() < .2:
        a[:] = a[:, :1, :1]
    return a if ch == 3 else a[0]


def pix(a):
    return arr(a if a.ndim == 3 else a[None])


CNT = [0]


def fname():
    CNT[0] += 1
    return f"im{CNT[0]}.hdr"


def both(rec, k, r, im, array_fn, hdr_fn, suffix, header=(), extra=None, **inp):
    """the array function, or the same through files"""
    if im.ndim == 3 and r.random() < .35:
        def go():
            f = fname()
            io.carray2hdr(im, f, list(header))
            src = io.hdr2carray(f)
            before = open(f, "rb").read()
            if r.random() < .3:
                w = hdr_fn(f, outf="given.hdr")
                wn = "given.hdr"
            else:
                w = hdr_fn(f)
                # nothing to name the result after: any name but the input's
                wn = f[:-4] + suffix + ".hdr" if suffix or w == f else w
            if open(f, "rb").read() != before:
                raise RuntimeError("the input changed")
            return {"im": pix(src), "out": pix(io.hdr2carray(w)), "name": w, "wname": wn, **(extra(None, w) if extra else {})}
        rec.call(k, go, rt=fx(.006), **inp)
    else:
        def go():
            im0 = im.copy()
            o = array_fn(im)
            x = extra(o, None) if extra else {}
            if isinstance(o, tuple):
                o = o[0]
            if not np.array_equal(im, im0):
                raise RuntimeError("the input changed")
            return {"im": pix(im), "out": pix(o), "name": "", "wname": "", **x}
        rec.call(k, go, rt=[0], **inp)


def rot(rec, r, ang):
    n = int(r.integers(3, 8))
    im = image(r, n, n, int(r.choice([1, 3])))
    a = float(ang) * float(r.choice([1, 1, -1]))
    if r.random() < .2:
        a += float(r.uniform(-40, 40))
    kind = r.random()
    if kind < .35:
        cen = None
    elif kind < .75:
        cen = tuple(float(i) for i in r.integers(1, n, 2))
    else:
        cen = tuple(float(i) for i in np.round(n / 2 + r.uniform(-.3, .3, 4) * n, 2))
    if cen is not None and r.random() < .6:
        cen = tuple(int(i) for i in cen)
    first = bool(r.random() < .6)
    nearest = bool(r.random() < .5)
    fill = [None, None, 0.0, -7.0][int(r.integers(0, 4))]
    kw = {}
    if fill is not None:
        kw["fill_value"] = fill
    if nearest:
        kw["nearest"] = True
    if not first:
        kw["rotate_first"] = False
    if im.ndim == 3 and fill is not None:
        hf = None
    hkw = {i: j for i, j in kw.items() if i != "fill_value"}
    suf = ""
    if first and a != 0:
        suf += f"_r{int(a):02d}"
    if cen is not None:
        suf += f"_{cen[0]}-{cen[1]}"
    if not first and a != 0:
        suf += f"_r{int(a):02d}"
    inp = dict(ang=fx(a), center=arr(cen) if cen is not None else [], first=first, nearest=nearest,
               fill=[] if fill is None else [fx(fill)], kf="rotate-first-order")
    if fill is not None:
        im = im if im.ndim == 2 else im
        def go():
            return {"im": pix(im), "out": pix(it.array_rotate(im, a, cen, **kw)), "name": "", "wname": ""}
        rec.call("rot", go, rt=[0], **inp)
    else:
        both(rec, "rot", r, im, lambda i: it.array_rotate(i, a, cen, **kw),
             lambda f, **k: it.hdr_rotate(f, rotate=a, center=cen, **hkw, **k), suf, **inp)


def main():
    rec = Rec()
    for rep in range(120 if THOROUGH else 6):
        for n, c in enumerate(rec.cases):
            rot(rec, rng(13, rep, n, rec.shard), c["ang"])
    for n in range(600 if THOROUGH else 48):
        if not rec.mine():
            continue
        r = rng(131, n)
        full = bool(n % 2)
        s = int(r.integers(2, 9))
        im = image(r, s * (2 if full else 1), s, int(r.choice([1, 3])))
        both(rec, "toang", r, im, it.array_uv2ang, it.hdr_uv2ang, "_ang", full=full)
    for n in range(600 if THOROUGH else 48):
        if not rec.mine():
            continue
        r = rng(132, n)
        va = int(r.choice([360, 180, 180, 120, 60]))
        full = va == 360
        s = int(r.integers(2, 9))
        im = image(r, s * (2 if full else 1), s, int(r.choice([1, 3])))
        t = 180 if full else va
        d = r.normal(size=3)
        vm = make(ViewMapper, d, va, r, (0, 0, 0))
        usev = bool(r.random() < .7)
        giv = not (va in (360, 180) and r.random() < .4)
        hdr = [vm.header()] if giv else []

        def hf(f, **k):
            return it.hdr_ang2uv(f, **k) if usev else it.hdr_ang2uv(f, useview=False, **k)
        if not usev and va not in (180, 360):
            usev = True
        both(rec, "touv", r, im, (lambda i: it.array_ang2uv(i, vm)) if giv else it.array_ang2uv, hf, "_uv", header=hdr,
             full=full, va=fx(t))
    for n in range(400 if THOROUGH else 40):
        if not rec.mine():
            continue
        r = rng(133, n)
        va = int(r.choice([180, 180, 120, 60]))
        s = int(r.integers(3, 9))
        im = image(r, s, s, int(r.choice([1, 3])))
        rev = bool(n % 2)
        nearest = bool(r.random() < .5)
        inhdr = r.random() < .5 or va != 180
        vm = ViewMapper(r.normal(size=3), va)
        name = "vts" if rev else "vta"
        kw = {"nearest": True} if nearest else {}
        if rev:
            kw["reverse"] = True
        over = bool(r.random() < .3)
        hdr = [ViewMapper((0, 1, 0), 100).header() if over else vm.header()] if inhdr else []

        def extra(o, f):
            if f is None:
                v = o[1]
                ok = v is None or v.viewangle == va and v.name == name
            else:
                v = it.hdr2vm(f)
                ok = v is not None and v.viewangle == va and np.allclose(v.dxyz, (0, 1, 0))
            return {"ovm": "" if ok else "wrong view"}
        both(rec, "solid", r, im, lambda i: it.array_solid2ang(i, viewangle=va, **kw) if r.random() < .8
             else (it.array_solid2ang(i, viewangle=va, returnvm=False, **kw), None),
             lambda f, **k: it.hdr_solid2ang(f, viewangle=va if over else None, **kw, **k), "_2" + name, header=hdr, extra=extra,
             va=fx(va), reverse=rev, nearest=nearest)
    for n in range(400 if THOROUGH else 40):
        if not rec.mine():
            continue
        r = rng(134, n)
        v1, v2 = (int(i) for i in r.choice([180, 150, 90, 40], 2))
        d1 = r.normal(size=3)
        d2 = d1 + r.normal(size=3) * r.choice([0, .1, .5])
        a, b = make(ViewMapper, d1, v1, r, (0, 0, 0)), make(ViewMapper, d2, v2, r, (0, 0, 0))
        s = int(r.integers(3, 8))
        im = image(r, s, s, int(r.choice([1, 3])))
        nearest = bool(r.random() < .5)

        def go():
            return {"im": pix(im), "out": pix(a.transform_to(im, b, nearest=nearest) if nearest else a.transform_to(im, b))}
        rec.call("trans", go, rt=[0], d1=arr(d1), d2=arr(d2), v1=fx(v1), v2=fx(v2), nearest=nearest, kf="transform-direction")
    for n in range(100 if THOROUGH else 24):
        if not rec.mine():
            continue
        r = rng(135, n)
        va = int(r.choice([360, 180, 120, 60]))
        full = va == 360
        s = int(r.integers(2, 8))
        im = image(r, s * (2 if full else 1), s, 3)
        d = r.normal(size=3)
        vm = ViewMapper(d, va)
        given = bool(r.random() < .4)
        color = bool(n % 2)
        vl = [None, (.2, .3, .5)][int(r.integers(0, 2))]

        def go():
            f = fname()
            io.carray2hdr(im, f, [] if given else [vm.header()])
            kw = {"vm": vm} if given else {}
            if color:
                kw["color"] = True
            elif vl:
                kw["vlambda"] = vl
            v, o, l = it.hdr2vol(f, **kw)
            src = io.hdr2carray(f) if color else (io.hdr2array(f, vlambda=vl) if vl else io.hdr2array(f))
            return {"im": pix(src), "v": arr(v), "o": arr(o), "wo": arr([vm.pixel2omega(np.array([[i + .5, j + .5]]), s)[0] for i in range(s) for j in range(s)]), "l": arr(l if color else l[:, None])}
        rec.call("vol", go, d=arr(d), va=fx(180 if full else va), full=full)
    rec.end()


if __name__ == "__main__":
    main()
