"""C30: metrics of image files."""
import hashlib
import os

import numpy as np

from base import *
from raytools import imagetools as it
from raytools import io
from raytools.evaluate import ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper

USUAL = (0.26507413, 0.67011463, 0.06481124)
GREY = [m for m in MetricSet.allmetrics]


def view_of(kind, r):
    d = r.normal(size=3)
    d = d / np.linalg.norm(d)
    if kind in ("none", "hemi"):
        d = np.array([0., 1, 0])
    if kind == "full" or r.random() < .2:
        d = np.array([[0, 1, 0], [1, 0, 0], [-.6, .8, 0], [0, -1, 0], [0, 0, 1]][int(r.integers(5))], float)
    va = 180. if kind != "narrow" else float(np.round(r.uniform(20, 170), 2))
    if kind in ("none", "hemi"):
        d = np.array([0., 1, 0])
    return [float(np.round(i, 6)) for i in d], va


def header(kind, d, va, r):
    if kind == "none":
        return []
    s = "VIEW= -vta -vv {1} -vh {1} -vd {0[0]} {0[1]} {0[2]} -vp 0 0 0 -vu 0 0 1".format(d, va)
    h = [s]
    if r.random() < .3:
        h.insert(0, "VIEW= -vta -vv 77 -vh 77 -vd 0 0 -1 -vu 0 1 0")
    if r.random() < .2:
        h.insert(0, "rvu -vta -vv 33 -vh 33 -vd 0 0 -1 -vu 0 1 0")
    return h


def picture(n, w, dark, r):
    a = 10. ** r.normal(.5, .7, (w, n))
    for _ in range(int(r.integers(0, 4))):
        i, j = r.integers(1, w - 1), r.integers(1, n - 1)
        a[i:i + int(r.integers(1, 3)), j] = 10. ** r.uniform(2, 5.5)
    if r.random() < .2:
        a[r.random((w, n)) < .3] = 0
    if dark:
        x, y = np.mgrid[0:w, 0:n] + .5
        a[np.hypot(x / n - .5, y / n - .5) > .5 - 1.2 / n] = 0
    return a


def metrics_of(f, vm, w, color, ms, peak, scale, pk, opts):
    ar = io.hdr2carray(f) if color else io.hdr2array(f, vlambda=w)
    n = ar.shape[-1]
    v = vm.pixelrays(n).reshape(-1, 3)
    o = np.tile(vm.pixel2omega(vm.pixels(n), n).ravel(), vm.aspect)
    l = ar.reshape(3, -1).T if color else ar.ravel()
    w = (.265, .67, .065) if w is None else w
    if peak:
        if color:
            pk = {**pk, "vlambda": w}
        v, o, l = it.normalize_peak(v, o, l, scale, **pk)
    if color:
        return ColorMetricSet(v, o, l, vm, ms, scale=scale, vlambda=w, **opts)()
    return MetricSet(v, o, l, vm, ms, scale=scale, **opts)()


def one(rec, c, i):
    r = rng(30, rec.shard, i)
    n = int(r.integers(5, 10))
    full = c["view"] == "full"
    d, va = view_of(c["view"], r)
    dark = (not full) and bool(r.random() < .4)
    a = picture(n, 2 * n if full else n, dark, r)
    hd = header(c["view"], d, va, r)
    hw = {"none": [], "usual": list(USUAL) if r.random() < .5 else [round(x + r.uniform(-8e-4, 8e-4), 6) for x in USUAL],
          "odd": [[.25, .6, .15], [round(USUAL[0] + .002, 4), USUAL[1], USUAL[2]], [.2126, .7152, .0722], [47.4, 119.9, 11.6], [0, 1, 0]][int(r.integers(5))],
          "short": [[.3, .7], [], [.1, .2, .3, .4]][int(r.integers(3))]}[c["hdr"]]
    if c["hdr"] != "none":
        hd.append("LuminanceRGB= " + " ".join(map(str, hw)))
    given = [[.2, .7, .1], [.2126, .7152, .0722], list(USUAL), [0., 0, 1], [50., 100, 10]][int(r.integers(5))] if c["given"] else []
    f = f"p{i}.hdr"
    if r.random() < .7:
        io.carray2hdr(a * r.uniform(.4, 1.6, (3, 1, 1)) * r.uniform(.7, 1.3, (3, *a.shape)), f, hd)
    else:
        io.array2hdr(a, f, hd)
    # some of the other metrics
    pool = [m for m in GREY if m not in c["ms"]]
    ms = list(c["ms"])
    for m in r.permutation(pool)[:int(r.integers(0, 6))]:
        ms.insert(int(r.integers(0, len(ms) + 1)), str(m))
    peak = c["peak"] != "no"
    pk, opts, kw = {}, {}, {}
    if c["peak"] == "options" or (not peak and r.random() < .3):
        for k, v in (("peaka", 1e-3), ("peakt", 2e4), ("peakr", 2.), ("peakrad", 8.), ("peakc", .5), ("blurtol", .3), ("blursun", True), ("keepzeros", True)):
            if r.random() < .4:
                pk[k] = v
    scale = float(r.choice([179, 179, 1, 100]))
    if scale != 179 or r.random() < .3:
        kw["scale"] = scale
    for k, v in (("threshold", float(r.choice([5., 900., 3.]))), ("lowlight", True)):
        if r.random() < .4:
            opts[k] = v
    if given:
        kw["lumrgb"] = given if r.random() < .5 else (tuple(given) if r.random() < .5 else np.array(given))
    elif r.random() < .3:
        kw["lumrgb"] = None
    if peak or r.random() < .5:
        kw["peakn"] = peak
    color = "irradiance" in ms
    va = 360. if full else va
    vms = {"own": ViewMapper(d, va), "hemisphere": ViewMapper((0, 1, 0), 180)}

    def go():
        dig = hashlib.sha256(open(f, "rb").read()).hexdigest()
        got = it.imgmetric(f, list(ms) if r.random() < .5 else tuple(ms), **kw, **opts, **pk)
        same = dig == hashlib.sha256(open(f, "rb").read()).hexdigest()
        want = {}
        for wk, w in (("given", given), ("header", hw), ("default", None)):
            ok = w is None or len(w) == 3
            want[wk] = {}
            for vk, vm in vms.items():
                if vk == "hemisphere" and full:
                    want[wk][vk] = dict(pixels=[], consolidated=[])
                    continue
                want[wk][vk] = {p: arr(flat(metrics_of(f, vm, w, color, ms, p == "consolidated", scale, pk, opts))) if ok else []
                                for p in ("pixels", "consolidated")}
        om, rgb = [], []
        if dark:
            vm = vms["hemisphere" if c["view"] == "none" else "own"]
            om = arr(vm.pixel2omega(vm.pixels(n), n))
            rgb = arr(io.hdr2carray(f))
        return dict(got=arr(flat(got)), want=want, same=same, om=om, rgb=rgb)
    rec.call("img", go, ms=ms, view=c["view"], hdr=[fx(float(x)) for x in hw], given=[fx(float(x)) for x in given], peak=peak, scale=fx(scale), dark=dark,
             d=arr(np.array(d)), va=fx(va), opts=repr((kw, opts, pk)))
    os.remove(f)


def flat(m):
    return np.concatenate([np.ravel(x) for x in m]) if len(m) else np.zeros(0)


def main():
    rec = Rec()
    for i, c in enumerate(rec.cases):
        one(rec, c, i)
    rec.end()


if __name__ == "__main__":
    main()
