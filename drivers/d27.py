"""C27: the command line."""
import hashlib
import os
import shutil
import subprocess
import sys

import numpy as np

from base import *
from raytools import imagetools as it, io
from raytools.evaluate import hvsgsm
from raytools.cli import main

rec = Rec()
HERE = os.getcwd()


def cli(args, real=False):
    """run the command in a child; returns (status, stdout bytes, stderr text)"""
    o, e = os.path.join(HERE, "cli.out"), os.path.join(HERE, "cli.err")
    with open(o, "wb") as fo, open(e, "wb") as fe:
        if real:
            rc = subprocess.call([sys.executable, "-c", "from raytools.cli import main; main()"] + args, stdout=fo, stderr=fe,
                                 stdin=subprocess.DEVNULL)
        else:
            pid = os.fork()
            if pid == 0:
                rc = 9
                try:
                    os.dup2(fo.fileno(), 1)
                    os.dup2(fe.fileno(), 2)
                    main(args=list(args), prog_name="raytools")
                    rc = 0
                except SystemExit as ex:
                    rc = ex.code if isinstance(ex.code, int) else int(ex.code is not None)
                except BaseException:
                    rc = 1
                finally:
                    try:
                        sys.stdout.flush()
                        sys.stderr.flush()
                    finally:
                        os._exit(rc)
            rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    out, err = open(o, "rb").read(), open(e, "rb").read().decode("utf-8", "replace")
    return rc, out, err


def dig(b):
    return hashlib.sha1(b).hexdigest()[:16]


def pixdig(f):
    try:
        a = io.hdr2carray(f)
        return f"{a.shape[1]}x{a.shape[2]} " + dig(np.ascontiguousarray(a).tobytes())
    except Exception:
        return "none"


def header(f):
    """what the header says, without how and when the file was written"""
    return [h.strip() for h in io.hdr_header(f) if not h.strip().startswith(("pvalue", "CAPDATE", "GMT", "FORMAT", "SOFTWARE"))
            and not h.endswith(":")]


def listing():
    out = []
    for d, _, fs in os.walk("."):
        for f in fs:
            p = os.path.normpath(os.path.join(d, f))
            out.append(("./" + p) if p.startswith("e") else p)
    return sorted(out)


def disk():
    return [[f, dig(open(f, "rb").read()), pixdig(f)] for f in listing()]


def image(r, name):
    n = int(r.integers(6, 11))
    a = 10. ** r.normal(0, 1, (3, n, n))
    v = int(r.choice([0, 1, 2, 2]))
    hd = [[], ["VIEW= -vta -vv 180 -vh 180 -vd 0.6 0.64 -0.48 -vu 0 0 1"], ["VIEW= -vta -vv 120 -vh 120 -vd 0 1 0 -vu 0 0 1", "EXTRA=1"]][v]
    io.carray2hdr(a, name, hd)


def want(c, f):
    """(pixels, last view) of the library's answer"""
    a = io.hdr2carray(f)
    vm = it.hdr2vm(f)
    hd = io.hdr_header(f)
    view = ([""] + [h.strip()[5:].strip() for h in hd if h.strip().startswith("VIEW=")])[-1]
    if c["cmd"] == "project":
        b = it.array_uv2ang(a) if c["toang"] else it.array_ang2uv(a, vm if c["useview"] else None)
    elif c["cmd"] == "align":
        b = it.array_rotate(a, c["rot"] * 1., c["center"] or None, c["first"], nearest=c["nearest"])
    elif c["cmd"] == "solid2ang":
        va = c["va"] or (vm.viewangle if vm is not None else 180)
        b, vmo = it.array_solid2ang(a, c["nearest"], c["reverse"], va)
        view = vmo.header().split("=", 1)[1].strip()
    else:
        b = a
    t = os.path.join(HERE, "want.hdr")
    io.carray2hdr(b, t)
    return pixdig(t), plain(view)


def argv(c, files, r):
    names = [f[0] + f[1] for f in files]
    o = []
    if c["cmd"] == "project":
        o.append("--uv2ang" if c["toang"] else "--ang2uv")
        o.append("--useview" if c["useview"] else "--no-useview")
        o.append("--stdout" if c["stdout"] else "--no-stdout")
        drop = {"--ang2uv", "--useview", "--no-stdout"}
    elif c["cmd"] == "align":
        o.append("--rotate-first" if c["first"] else "--center-first")
        o.append("--nearest" if c["nearest"] else "--no-nearest")
        o.append("--stdout" if c["stdout"] else "--no-stdout")
        drop = {"--rotate-first", "--no-nearest", "--no-stdout"}
        if c["turned"] or r.random() < .3:
            o += ["-rotate", str(c["rot"])]
        if c["center"]:
            o += ["-center", " ".join(str(i) for i in c["center"])]
    elif c["cmd"] == "solid2ang":
        o.append("--reverse" if c["reverse"] else "--forward")
        o.append("--nearest" if c["nearest"] else "--no-nearest")
        o.append("--stdout" if c["stdout"] else "--no-stdout")
        drop = {"--forward", "--no-nearest", "--stdout"}
        if c["va"]:
            o += ["-viewangle", str(c["va"])]
    else:
        drop = set()
    if r.random() < .5:                 # leave the defaults unsaid
        o = [i for i in o if i not in drop]
    pre = [[], ["-n", "1"], ["-n", "3"]][int(r.integers(3))]
    arg = [" ".join(names)]
    return pre + [c["cmd"]] + (arg + o if r.random() < .5 else o + arg)


def plain(v):
    """a view with its numbers as numbers"""
    out = []
    for w in v.split():
        try:
            out.append(f"{float(w):.9g}")
        except ValueError:
            out.append(w)
    return " ".join(out)


def last_view(f):
    return plain(([""] + [h.strip()[5:].strip() for h in io.hdr_header(f) if h.strip().startswith("VIEW=")])[-1])


def do_image(case, i):
    r = rng(271, rec.shard, i)
    d = os.path.join(HERE, f"w{i}")
    os.makedirs(os.path.join(d, "sub.d"))
    os.chdir(d)
    evs = []
    try:
        for f in ("a.hdr", "b.pic", "sub.d/c", "./e"):
            image(r, f)
        evs.append({"k": "disk", "exc": "", "disk": disk()})
        for h in case["h"]:
            c, files = h["c"], h["files"]
            args = argv(c, files, r)

            def go():
                ws = [want(c, f[0] + f[1]) for f in files]
                src = [header(f[0] + f[1]) for f in files]
                rc, out, err = cli(args, r.random() < .06)
                op, oh, ov = "", [], ""
                if out:
                    t = os.path.join(HERE, "stdout.hdr")
                    with open(t, "wb") as fo:
                        fo.write(out)
                    op = pixdig(t)
                    if op != "none":
                        oh, ov = header(t), last_view(t)
                err = err.split("Exception ignored in")[0]      # the interpreter's own trouble closing a pool
                lines = [ln.strip() for ln in err.replace("\r", "\n").splitlines()]
                wrote = [ln.split(": ", 1)[1] for ln in lines if ln.startswith("Wrote: ")]
                if "Wrote the Following image files:" in lines:
                    wrote += [ln for ln in lines[lines.index("Wrote the Following image files:") + 1:] if ln]
                dk = disk()
                return dict(rc=rc, disk=dk, wrote=wrote, out=op, outview=ov, outclean=(oh == src[0]) if oh else True,
                            want=[w[0] for w in ws], wantview=[w[1] for w in ws], src=src,
                            view=[[x[0], last_view(x[0]) if x[2] != "none" else ""] for x in dk],
                            err=err[-600:])
            ev = event("image", go, c=c, files=files, args=args)
            evs.append(ev)
            if ev["exc"] or ev["rc"]:
                break
        if r.random() < .25:
            names = ["a.hdr", "gone.hdr"]
            r.shuffle(names)
            cmd = str(r.choice(["project", "align", "solid2ang", "metric"]))

            def miss():
                rc, out, err = cli([cmd, " ".join(names)])
                return dict(rc=rc, disk=disk(), silent=len(out) == 0)
            evs.append(event("missing", miss))
    finally:
        os.chdir(HERE)
        shutil.rmtree(d)
    rec.chain(evs)


STEMS = ["i1.hdr", "./i2.pic", "sub.d/i3"]


def do_metric(case, i):
    r = rng(272, rec.shard, i)
    d = os.path.join(HERE, f"w{i}")
    os.makedirs(os.path.join(d, "sub.d"))
    os.chdir(d)
    try:
        # the glare sensation scores take one view for all images
        close = r.uniform(2.5, 6) if r.random() < .4 else 0
        for j, f in enumerate(STEMS):
            n = int(r.integers(8, 12))
            a = 10. ** r.normal(-1.5 if r.random() < .2 else .3, .6, (n, n))
            hd = []
            if close:
                # pixels smaller than the sun, some of which show a part of it
                hd = [f"VIEW= -vta -vv {close:.4f} -vh {close:.4f} -vd 0.6 0.64 -0.48 -vu 0 0 1"]
                k, v = int(r.integers(1, 4)), 10. ** r.uniform(3, 4.5)
                y, x = r.integers(2, n - 2, 2)
                a[y, x:x + k] = v * 10. ** r.uniform(-.9, 0, a[y, x:x + k].shape)
                a[y, x] = v
            else:
                a[tuple(r.integers(2, n - 2, 2))] = 10. ** r.uniform(2.5, 4.5)
                if r.random() < .5:
                    hd = ["VIEW= -vta -vv 180 -vh 180 -vd 0.6 0.64 -0.48 -vu 0 0 1"]
            if r.random() < .5:
                b = a * r.uniform(.5, 1.5, (3, 1, 1))
                if r.random() < .4:
                    hd.append("LuminanceRGB= 0.25 0.6 0.15")
                io.carray2hdr(b, f, hd)
            else:
                io.array2hdr(a, f, hd)
        ms, imgs = case["ms"], [STEMS[j - 1] for j in case["imgs"]]
        o, kw, cap = [], dict(peakn=True, peaka=6.7967e-05, peakt=1e5, peakr=4., threshold=2000., scale=179., blursun=False,
                              lowlight=False, lumrgb=None), None

        def opt(p, *w):
            if r.random() < p:
                o.extend(w)
                return True
            return False
        for nm, v in (("peaka", 1e-3), ("peakt", 2e4), ("peakr", 2.), ("threshold", 5.), ("threshold", 900.), ("scale", 100.)):
            if opt(.25, "-" + nm, str(v)):
                kw[nm] = v
        if opt(.2, "-lumrgb", ".2 .7 .1"):
            kw["lumrgb"] = [.2, .7, .1]
        if opt(.25, "--no-peakn"):
            kw["peakn"] = False
        if opt(.25, "--blursun"):
            kw["blursun"] = True
        if opt(.25, "--lowlight"):
            kw["lowlight"] = True
        opt(.3, "--no-parallel")
        pre = [[], ["-n", "1"], ["-n", "2"]][int(r.integers(3))]
        args = pre + ["metric", " ".join(imgs), "-metrics", " ".join(ms)] + o

        def go():
            wt, sc = {}, {}
            for f in set(imgs):
                plain, ms2 = {}, [m for m in ms if m not in ("gss", "gssnb")]
                vals = [fx(x) for x in it.imgmetric(f, list(ms2), **kw)] if ms2 else []
                for m in ms2:
                    w = 3 if m == "irradiance" else 1
                    plain[m], vals = vals[:w], vals[w:]
                if "gss" in ms:
                    plain["gss"] = [fx(hvsgsm.gss_compute([f])[0])]
                if "gssnb" in ms:
                    plain["gssnb"] = [fx(hvsgsm.gss_compute([f], psf=False, adaptmove=False, directmove=False)[0])]
                wt[f] = plain
            before = disk()
            rc, out, err = cli(args, r.random() < .08)
            rows = [ln.split("\t") for ln in out.decode("utf-8", "replace").splitlines()]
            return dict(rc=rc, header=rows[0] if rows else [], rows=[[x[0], [fx(float(v)) for v in x[1:]]] for x in rows[1:]],
                        digits=[[len(v) for v in x[1:]] for x in rows[1:]], want=[wt[f] for f in imgs], same=disk() == before,
                        **({"err": err[-400:]} if rc else {}))
        rec.chain([event("metric", go, ms=ms, imgs=imgs, args=args)])
    finally:
        os.chdir(HERE)
        shutil.rmtree(d)


def do_smooth(i):
    r = rng(273, rec.shard, i)
    d = os.path.join(HERE, f"s{i}")
    os.makedirs(d)
    os.chdir(d)
    try:
        n, cols = int(r.integers(3, 9)), int(r.integers(1, 5))
        data = np.round(r.normal(3, 2, (n, cols)), 4)
        np.savetxt("d.txt", data, fmt="%.4f")
        one = cols == 1
        x = 0 if one else int(r.integers(cols))
        others = [j for j in range(cols) if j != x]
        ny = 0 if one else int(r.integers(0, len(others) + 1))
        ys = [int(j) for j in r.permutation(others)[:ny]]
        args = ["smooth", "d.txt"]
        if x or r.random() < .5:
            args += ["-x", str(x)]
        if ys:
            args += ["-y", " ".join(map(str, ys))]
        sig = sf = None
        if r.random() < .5:
            sig = round(float(r.uniform(.5, 2)), 3)
            args += ["-sigma", str(sig)]
        if r.random() < .5:
            sf = round(float(r.uniform(.8, 1.5)), 2)
            args += ["-sf", str(sf)]
        if r.random() < .5:
            xo, cnt = [], int(r.integers(2, 6))
            args += ["-x_out", str(cnt)]
        else:
            xo, cnt = [round(float(v), 3) for v in r.uniform(0, 6, int(r.integers(2, 5)))], 0
            args += ["-x_out", " ".join(map(str, xo))]

        def go():
            rc, out, err = cli(args)
            rows = [[fx(float(v)) for v in ln.split()] for ln in out.decode().splitlines()]
            return dict(rc=rc, rows=rows, **({"err": err[-400:]} if rc else {}))
        rec.call("smooth", go, xs=arr(data[:, x]), ys=[arr(data[:, j]) for j in ys], sigma=[] if sig is None else [fx(sig)],
                 sf=fx(1. if sf is None else sf), xout=[fx(v) for v in xo], count=cnt, args=args)
    finally:
        os.chdir(HERE)
        shutil.rmtree(d)


for i, case in enumerate(rec.cases):
    rec.begin({"k": case["t"], "case": case})
    (do_image if case["t"] == "image" else do_metric)(case, i)
for i in range(40 if THOROUGH else 8):
    do_smooth(i)
rec.end()
