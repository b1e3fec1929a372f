"""C22: stages of the glare sensation model."""
import numpy as np

from base import *
from raytools import io
from raytools.evaluate import hvsgsm
from raytools.evaluate.hvsgsm import GSS
from raytools.mapper import ViewMapper


def sq(a, n):
    a = np.asarray(a, float)
    if a.shape != (n, n):
        raise ValueError(f"shape {a.shape}")
    return arr(a)


def eye(rec, c, r):
    age = float(c["age"] + r.uniform(-4, 4))
    pig = float(c["pig"] / 1000 * r.uniform(.9, 1.1))
    lux = 10 ** ((c["ev"] - 100) / 10 + r.uniform(-.3, .3))
    ad = 10 ** ((c["ad"] - 100) / 10)
    ev = np.array([lux, lux * 1.3, 174., 1600 * r.uniform(.5, 2)])
    f = float(r.uniform(15, 24))
    con = float(r.choice([.8, .9, .5]))
    l = 10. ** np.append(r.uniform(-3, 6, 3), r.uniform(-9, -3))
    p = float(r.uniform(1.4, 8.5))
    area = float(r.uniform(2, 55))
    eg = float(ad)
    phi = np.concatenate(([0., np.pi / 2], 10. ** r.uniform(-4, 0, 4), -10. ** r.uniform(-3, 0, 1)))

    def go():
        kw = {}
        g = GSS(None, age, f, pigmentation=pig)
        if con != .8 or r.random() < .5:
            g.contrast = con
        pa, pd = g.pupil(ev)
        b, k = g.psf_coef(p)
        er = g.retinal_irradiance(l, area)
        ea = g.local_eye_adaptation(er, eg)
        return dict(pa=arr(pa), pd=arr(pd), b=arr(b), c=arr(k), er=arr(er), ea=arr(ea),
                    fb=[arr(hvsgsm.f_b(i, j, phi)) for i, j in zip(b, k)],
                    lb=[arr(hvsgsm.l_b(i, j, phi)) for i, j in zip(b, k)],
                    vm=arr(g.cone_response(er, ea)), v1=arr(g.cone_response(er, eg)))
    rec.call("eye", go, age=fx(age), pig=fx(pig), ev=arr(ev), f=fx(f), con=fx(con), l=arr(l), p=fx(p),
             area=fx(area), eg=fx(eg), phi=arr(phi))


class settings:
    """the coefficients of the model, as shipped or others"""

    def __init__(self, r):
        d = dict(emin=.009, emax=.12, fr_a=22, fr_b=.25, fr_k=.67, norm=4)
        o = dict(emin=r.uniform(.004, .03), emax=r.uniform(.05, .4), fr_a=r.uniform(5, 40), fr_b=r.uniform(.05, .6),
                 fr_k=r.uniform(0, 1), norm=int(r.choice([2, 3, 5, 8])))
        self.new = {k: o[k] for k in d if r.random() < .25}
        self.all = {**d, **self.new}
        self.rec = {k.replace("_", ""): v if k == "norm" else fx(float(v)) for k, v in self.all.items()}

    def set(self, g):
        for k, v in self.new.items():
            setattr(g, k, v)


def picture(kind, n, r):
    lv = 10. ** r.uniform(-1, 1.5)
    if kind == "noise":
        return lv * 10. ** r.normal(0, .7, (n, n))
    if kind == "point":
        a = np.full((n, n), lv * .01)
        i, j = r.integers(n // 3, n - n // 3, 2)
        a[i, j] = lv * 10. ** r.uniform(1, 4)
        return a
    a = lv * np.linspace(.5, 1.5, n)[:, None] * np.linspace(1, 1.2, n)
    for _ in range(2):
        i, j = r.integers(0, n - 1, 2)
        a[i:i + 2, j:j + 2] = lv * 10. ** r.uniform(.5, 3)
    return a


def run(rec, c, r, k):
    n, va = c["n"], float(c["va"])
    if va < 180:
        va = float(va * r.uniform(.9, 1.1))
    img = picture(c["img"], n, r)
    name = f"i{k}.hdr"
    io.array2hdr(img, name)
    img = io.hdr2array(name)
    w = r.choice([1, 3, 5, 7, 9]) if r.random() < .8 else r.choice([2, 4, 6])
    if va < 3 and n < 12 and c["sw"][0] and r.random() < .1:
        w = int(r.choice([37, 75, 77]))
    fw = float(min((w - r.uniform(.1, .9)) * va / n, 60))
    kw = dict(age=float(r.uniform(15, 85)), f=float(r.uniform(15, 20)), pigmentation=float(r.uniform(.05, .17)),
              fwidth=fw, scale=float(r.choice([179, 1, 683])))
    sw = c["sw"]
    d = r.normal(size=3)
    d = (0, 1, 0) if r.random() < .4 else tuple(d / np.linalg.norm(d))
    ev = 0. if r.random() < .6 else float(10. ** r.uniform(0, 5))
    con = float(r.choice([.8, .9]))
    cf = settings(r)
    px = [[int(i) + 1 for i in np.unravel_index(img.argmax(), img.shape)], [n // 2 + 1, n // 2 + 1], [1, n // 2]]
    px += [[int(i) + 1 for i in r.integers(0, n, 2)] for _ in range(4)]
    lmax = float(img.max() * kw["scale"])

    def go():
        g = GSS(ViewMapper(d, va), psf=sw[0], adaptmove=sw[1], directmove=sw[2], raw=c["raw"], **kw)
        if con != .8:
            g.contrast = con
        cf.set(g)
        g.lum = name
        e = None if ev == 0 else ev
        eg, pa, pd = g.adapt(e) if e is not None or r.random() < .5 else g.adapt()
        if r.random() < .5:
            ret, st = g.glare_response(g.lum, eg, pa, pd, return_arrays=True)
        else:
            ret = g.glare_response(g.lum, eg, pa, pd)
            st = g.glare_response(g.lum, eg, pa, pd, True)[1]
        saved = []
        if r.random() < .3:
            score = g.compute(f"o{k}.hdr", ev_eye=e)
            saved = io.hdr2carray(f"o{k}.hdr")
            saved = [sq(saved[0], n), sq(saved[1], n)]
        else:
            score = g.compute(ev_eye=e)
        has = [x in st for x in ("02_psf", "03_adapt_eye_movement", "04_direct_eye_movement")]
        z = [[]]
        o = lambda x: sq(st[x], n) if x in st else z
        return dict(lum=sq(g.lum, n), eg=fx(eg), pupa=fx(pa), pupd=fx(pd), has=has, er=o("01_retinal_irrad"),
                    psf=o("02_psf"), am=o("03_adapt_eye_movement"), dm=o("04_direct_eye_movement"),
                    ea=o("05_local_adaptation"), vvm=o("06_response_ratio"), lin=o("07_response_lin"),
                    log=[sq(i, n) for i in st["08_response_log"]], ret=[sq(i, n) for i in ret], s=sq(g.sigma_c, n), om=sq(g.omega, n), ct=sq(g.ctheta, n),
                    ecc=fx(g.ecc), score=fx(score), saved=saved)
    rec.call("run", go, n=n, va=fx(va), sw=sw, raw=c["raw"], img=arr(img), image=c["img"], px=px, ev=fx(ev), con=fx(con),
             age=fx(kw["age"]), f=fx(kw["f"]), pig=fx(kw["pigmentation"]), fw=fx(fw), scale=fx(kw["scale"]), lmax=fx(lmax), **cf.rec)


def ecc(rec, n, va, r):
    cf = settings(r)

    def go():
        g = GSS(ViewMapper((0, 1, 0) if r.random() < .5 else (.6, 0, .8), va))
        cf.set(g)
        io.array2hdr(np.ones((n, n)), "u.hdr")
        g.lum = "u.hdr"
        return dict(s=sq(g.sigma_c, n))
    rec.call("ecc", go, n=n, va=va, **cf.rec)


def blurs(g, a, eg):
    return dict(psf=g.apply_psf(a, 4.), am=g.apply_eye_movement_1(a), dm=g.apply_eye_movement_2(a, eg))


def uni(rec, k, r):
    n = int(r.integers(4, 20))
    va = float(r.choice([2, 5, 30, 170, 180]) * (1 if r.random() < .3 else r.uniform(.9, 1)))
    w = int(r.integers(1, 12))
    if va < 6 and r.random() < .4:
        # a kernel many times the size of the image
        w = int(r.integers(3, 12) * n)
    fw = float(min((w - r.uniform(.1, .9)) * va / n, 60))
    u = float(10. ** r.uniform(-3, 4))
    eg = float(10. ** r.uniform(-2, 3))
    age = float(r.uniform(20, 80))
    cf = settings(r)

    def model(n):
        g = GSS(ViewMapper((0, 1, 0), va), fwidth=fw, age=age)
        cf.set(g)
        io.array2hdr(np.ones((n, n)), f"u{k}.hdr")
        g.lum = f"u{k}.hdr"
        return g

    def go():
        g = model(n)
        d = blurs(g, np.full((n, n), u), eg)
        return dict(lin=sq(g.field_response(np.full((n, n), u)), n), **{i: sq(j, n) for i, j in d.items()})
    rec.call("uni", go, u=fx(u), **cf.rec)
    m = n + (n + 1) % 2
    a = np.zeros((m, m))
    a[m // 2, m // 2] = u
    if m > 10:
        a[m // 2 - 1:m // 2 + 2, m // 2 - 1:m // 2 + 2] = u

    def go():
        return {i: sq(j, m) for i, j in blurs(model(m), a, eg).items()}
    rec.call("patch", go, a=arr(a), age=fx(age), fw=fx(fw), roomy=bool(m // 2 - 1 > fw * m / va / 2 + 2))


def main():
    rec = Rec()
    for k, c in enumerate(rec.cases):
        r = rng(22, rec.shard, k)
        if c["t"] == "eye":
            eye(rec, c, r)
        else:
            run(rec, c, r, k)
    r = rng(221, rec.shard)
    for k in range(40 if THOROUGH else 6):
        uni(rec, k, r)
    for n in (9, 16, 21) if THOROUGH else (9, 13):
        for va in (180, 60, 5):
            if rec.mine():
                ecc(rec, n, va, r)
    rec.end()


main()
