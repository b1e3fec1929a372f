"""C14: the view of an image or view file."""
import os

import numpy as np

from base import *
from raytools import io, imagetools as it
from raytools.mapper import ViewMapper

NAMES = ["a.hdr", "b c.hdr", "X 7.hdr", "p:q.hdr", "sub.dir/v.hdr", "Y+X.hdr", "noext"]


def num(x):
    return [fx(i) for i in x]


def option_line(r, kind, va, d, p, order):
    """a view as option string, in any order of options"""
    up = "0 1 0" if d is not None and abs(d[0]) + abs(d[1]) < 1e-9 else "0 0 1"
    o = [f"-vh {va}", f"-vv {va}", f"-vu {up}"]
    if d is not None:
        o.append("-vd " + " ".join(repr(float(i)) for i in d))
    if p is not None:
        o.append("-vp " + " ".join(repr(float(i)) for i in p))
    if r.random() < .3:
        o += ["-vs 0", "-vl 0", "-vo 0", "-va 0"]
    o = [o[i] for i in (r.permutation(len(o)) if order else range(len(o)))]
    t = {"view": "VIEW= -vta ", "rvu": "rvu -vta ", "other": ["VIEW= -vtv ", "rvu -vtv ", "VIEW= -vth "][int(r.integers(0, 3))]}[kind]
    return t + " ".join(o)


def build(rec, n, c):
    r = rng(14, n, rec.shard)
    s = int(r.integers(1, 5))
    x, y = {"square": (s, s), "wide": (2 * s, s), "tall": (s, 2 * s)}[c["shape"]]
    if c["shape"] == "tall" and r.random() < .5:
        y = 3 * s + 1
    lines, texts = [], []
    for ln in c["lines"]:
        if ln["kind"] == "text":
            t = ["rpict -av 0 0 0 -vf view.vf", "CAPDATE= 2020:01:01 10:00:00", "pcomb -e lo=li(1)", "hdr_rotate rotate:30 center:None",
                 "SOFTWARE= rvu 5", "EXPOSURE= 1.5"][int(r.integers(0, 6))]
            lines.append({"kind": "text", "va": [0], "d": [], "p": []})
            texts.append(t)
            continue
        wide = c["shape"] == "wide"
        va = [180, 90, 60, 20][int(r.integers(0, 4))] if wide else [180, 150, 60.5, 20][int(r.integers(0, 4))]
        if c["shape"] == "square" and r.random() < .1:
            va = 360
        d = r.normal(size=3) * 10.0 ** r.integers(-2, 3) if r.random() < .7 else np.array([(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -1, 0), (-3, 4, 0)][int(r.integers(0, 5))], float)
        p = r.normal(size=3) * 10
        own = ln["kind"] == "view" and ln["d"] and ln["p"] and r.random() < .6 and va <= 180
        if own:
            vm = ViewMapper(d, 360 if wide and va == 180 else va)
            texts.append(vm.header([float(i) for i in p]))
        else:
            texts.append(option_line(r, ln["kind"], va, d if ln["d"] else None, p if ln["p"] else None, r.random() < .5))
        lines.append({"kind": ln["kind"], "va": fx(va), "d": arr(d) if ln["d"] else [], "p": arr(p) if ln["p"] else []})
    f = NAMES[int(r.integers(0, len(NAMES)))]
    os.makedirs("sub.dir", exist_ok=True)
    how = r.random()
    hops = int(r.integers(0, 3))
    vpt = bool(r.random() < .7)

    def go():
        if how < .5:
            with open(f, "wb") as o:
                h = "#?RADIANCE\n" + "".join(t + "\n" for t in texts) + f"FORMAT=32-bit_rle_rgbe\n\n-Y {y} +X {x}\n"
                o.write(h.encode() + bytes([10, 20, 30, 128]) * (x * y))
        else:
            im = np.full((3, x, y), .5)
            io.carray2hdr(im, f, list(texts))
            for _ in range(hops):
                im, h = io.hdr2carray(f, header=True)
                io.carray2hdr(im, f, h)
        out = {"size": list(it.img_size(f)), "pt": []}
        if vpt:
            vm, pt = it.hdr2vm(f, vpt=True)
            out["pt"] = [] if pt is None else arr(pt)
        else:
            vm = it.hdr2vm(f)
        out["none"] = vm is None
        if vm is not None:
            out.update(vd=arr(vm.dxyz), va=fx(vm.viewangle), full=bool(vm.aspect == 2))
        return out
    rec.call("read", go, lines=lines, x=x, y=y, vpt=vpt, txt=texts, file=f)
    if c["shape"] != "square":
        return
    vl = [t for ln, t in zip(c["lines"], texts) if not (ln["kind"] in ("view", "rvu") and not ln["d"])]
    ll = [b for ln, b in zip(c["lines"], lines) if not (ln["kind"] in ("view", "rvu") and not ln["d"])]
    if r.random() < .5:
        vl = [t.replace("VIEW= ", "rvu ") if r.random() < .5 else t for t in vl]

    def vf():
        with open("v.vf", "w") as o:
            o.write("\n".join(vl) + ("\n" if r.random() < .7 else ""))
        vm = it.vf_to_vm("v.vf")
        return {"vd": arr(vm.dxyz), "va": fx(vm.viewangle), "full": bool(vm.aspect == 2)}
    rec.call("file", vf, lines=ll, txt=vl)


def main():
    rec = Rec()
    for rep in range(12 if THOROUGH else 2):
        for n, c in enumerate(rec.cases):
            build(rec, rep * 100000 + n, c)
    if rec.shard == 0:
        for f, want, txt in (("nothere.hdr", "FileNotFoundError", None), ("no/such/dir.hdr", "FileNotFoundError", None), ("bad.hdr", "OSError", "not an image\n"),
                             ("empty.hdr", "OSError", ""), ("short.hdr", "OSError", "VIEW= -vta -vh 180\n"), ("nothere.vf", "FileNotFoundError", None)):
            if txt is not None:
                open(f, "w").write(txt)
            rec.call("missing", lambda: {"none": (it.vf_to_vm if f.endswith(".vf") else it.hdr2vm)(f) is None}, file=f, want=want)
    rec.end()


if __name__ == "__main__":
    main()
