"""C28: calls leave what the caller owns alone."""
import copy
import hashlib
import os
import random
import sys

import numpy as np

from base import *
from raytools import imagetools as it, io, translate as tr
from raytools.evaluate import MetricSet, ColorMetricSet, PositionIndex, hvsgsm, retina
from raytools.evaluate.basemetricset import BaseMetricSet
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper
from raytools.mapper.angularmixin import AngularMixin
from raytools.utility import pool_call

rec = Rec()
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)


# --------------------------------------------------------------- a caller's things
def content(o, h):
    if isinstance(o, np.ndarray):
        h.update(repr((o.dtype.str, o.shape)).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(repr((type(o).__name__, len(o))).encode())
        for i in o:
            content(i, h)
    elif isinstance(o, dict):
        content(sorted(o.items()), h)
    elif isinstance(o, Mapper):
        content([o.header() if hasattr(o, "viewangle") else o.header(), np.asarray(o.dxyz), o.aspect, np.asarray(o.bbox), float(o.area),
                 o.name, getattr(o, "viewangle", 0.), list(np.ravel(o.origin))], h)
    elif isinstance(o, (float, np.floating)):
        h.update(float(o).hex().encode())
    elif isinstance(o, File):
        h.update(open(o.name, "rb").read())
    else:
        h.update(repr(o).encode())


class File:
    def __init__(self, name):
        self.name = name


def dig(o):
    h = hashlib.sha1()
    content(o, h)
    return h.hexdigest()[:14]


def settings():
    return dig([np.geterr(), os.getcwd(), np.random.get_state(), random.getstate(), dict(os.environ), np.get_printoptions(),
                sys.getrecursionlimit(), str(np.geterrcall())])


def lay_out(a, lay):
    """(buffer, the caller's window into it)"""
    if lay == "own" or (a.ndim == 0 and lay != "readonly"):
        b = np.array(a)
        return b, b
    if lay == "slice":
        b = np.zeros(tuple(i + 4 for i in a.shape), a.dtype)
        v = b[tuple(slice(2, -2) for _ in a.shape)]
    elif lay == "stride":
        b = np.zeros(tuple(i * 2 for i in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    elif lay == "fortran":
        b = np.zeros(a.shape[::-1], a.dtype)
        v = b.T
    elif lay == "reversed":
        b = np.zeros(a.shape, a.dtype)
        v = b[tuple(slice(None, None, -1) for _ in a.shape)]
    else:
        b = np.array(a)
        b.flags.writeable = False
        return b, b[...]
    v[...] = a
    return b, v


class Own:
    """the arrays and objects of one caller"""

    def __init__(self, r, lay):
        n = int(r.integers(5, 9))
        u = tr.norm(r.normal(size=(n, 3)))
        front = tr.norm(np.stack((r.uniform(-.6, .6, 40), r.uniform(.5, 1, 40), r.uniform(-.6, .6, 40))).T)
        a = dict(
            W=u * r.uniform(.5, 3, (n, 1)), U=u, V1=r.normal(size=3), U1=u[0].copy(), I3=np.array([[1, 0, 0], [0, 2, 0], [3, -1, 4], [0, 0, -5]]),
            R3=r.normal(size=(3, n, 3)), UV=r.uniform(0, 1, (n, 2)) * [2, 1], UV1=r.uniform(0, 1, (n, 2)), XY=r.uniform(-.7, .7, (n, 2)),
            VXY=r.uniform(.2, .8, (n, 2)), TP=r.uniform(-4, 8, (n, 2)), AA=np.stack((r.uniform(-89, 89, n), r.uniform(-179, 179, n))).T,
            BN=r.integers(0, 32, n), PXY=r.integers(1, 7, (n, 2)) + .5, TH=r.uniform(0, 3, n), CH=r.uniform(0, 2, n), IDX=r.integers(0, 32, n),
            S2=r.uniform(0, 9, (4, 6)), S3=r.uniform(0, 9, (2, 4, 6)), D=r.integers(0, 9, n).astype(float), WT=r.uniform(.1, 2, n),
            Q=np.array([.1, .5, .9]), X=np.sort(r.uniform(0, 9, 12)), XU=r.permutation(r.uniform(0, 9, 12)), Y=r.normal(size=12),
            Y2=r.normal(size=(2, 12)), XR=r.uniform(1, 8, 5), SG=np.array(1.5), NV=tr.norm(r.normal(size=(2, 3))), RY=tr.norm(r.normal(size=(4, 3))),
            V=front, O=r.uniform(.001, .1, 40), L=10. ** r.normal(1, 1, 40), LC=10. ** r.normal(1, 1, (40, 3)), LB=10. ** r.normal(3, 1.5, 40),
            LBC=10. ** r.normal(3, 1.5, (40, 3)), VB=tr.norm(front * .01 + [0, 1, 0]), OB=np.full(40, 2e-6),
            MV=tr.norm(r.normal(size=(260, 3))), MO=r.uniform(.02, .07, 260), ML=10. ** r.normal(1, 1, 260),
            IMG=10. ** r.normal(0, 1, (8, 8)), CIMG=10. ** r.normal(0, 1, (3, 8, 8)), FULL=10. ** r.normal(0, 1, (16, 8)),
            CFULL=10. ** r.normal(0, 1, (3, 16, 8)), GLUM=10. ** r.normal(1, 1, (8, 8)), GLOW=10. ** r.normal(-4, 1, (8, 8)), GRG=r.uniform(-1, 1, (2, 8, 8)), PIX=r.integers(0, 8, (n, 2)), CEN=np.array([3, 5]),
            CEN4=np.array([3, 5, 4, 2]), LRGB=np.array([.25, .6, .15]), RGB=r.uniform(0, 9, (n, 3)),
            RGBE=r.integers(0, 256, (n, 4)).astype(np.uint8), DEG=r.uniform(0, 89, n), MI=r.integers(0, 4, n), OM=r.uniform(1e-6, 1e-3, n),
            LM=10. ** r.uniform(3, 8, n), BYTES=r.normal(size=(4, 3)), TK=r.normal(size=(4, 5, 3)), TI=np.array([2, 0, 1]), BB=np.array([[0., 0.], [2., 1.]]))
        self.buf, self.win = {}, {}
        for k, x in a.items():
            self.buf[k], self.win[k] = lay_out(x, lay)
        self.lay = lay
        o = dict(VM=ViewMapper(r.normal(size=3), 180), VM60=ViewMapper((0, 1, 0), 60), VMF=ViewMapper((0, 1, 0), 360), VMY=ViewMapper((0, 1, 0), 180),
                 SV=SolidViewMapper((0, 1, 0), 180), MP=Mapper((0, 0, 1), (2, 1), ((0, 0), (2, 1))),
                 METS=["illum", "dgp", "ugr", "maxlum"], CMETS=["illum", "irradiance"], HD=["VIEW= -vta -vh 180 -vv 180", "EXPOSURE=2", "EXPOSURE=2"],
                 ITEMS=["EXPOSURE", "View"], CH=[1., None, .5], ANY=[1, 2.5, (3, 4)], SL=[0, 2, 3])
        del o["CH"]
        o["CHN"] = [1., None, .5]
        self.buf.update(o)
        self.win.update(o)
        io.array2hdr(a["IMG"], "f.hdr", ["VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vu 0 0 1"])
        io.carray2hdr(a["CIMG"], "c.hdr", ["VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vu 0 0 1", "EXTRA= x"])
        np.savetxt("t.txt", a["S2"])
        for k, f in (("F", "f.hdr"), ("C", "c.hdr"), ("T", "t.txt")):
            self.buf[k] = self.win[k] = File(f)

    def mem(self):
        return {k: dig(v) for k, v in self.buf.items()}

    def write(self, args, r):
        """the caller turns the contents of its arrays around"""
        for k in args:
            w = self.win[k]
            if isinstance(w, np.ndarray) and w.ndim and k not in ("BB", "Q", "X", "LRGB"):
                ro = not self.buf[k].flags.writeable
                if ro:
                    self.buf[k].flags.writeable = True
                    b = self.buf[k]
                    b[...] = np.roll(b, 1, b.ndim - 1 if k in ("S2", "IMG") else 0).copy()
                    b.flags.writeable = False
                else:
                    w[...] = np.roll(w, 1, 0).copy()


def close(a, b):
    """the same but for the last digits (memory alignment may change the order of sums)"""
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(close(i, j) for i, j in zip(a, b))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)) if a.dtype.kind in "fiu" else bool(np.all(a == b))
    if isinstance(a, (float, np.floating)):
        return a == b or bool(np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
    return dig(a) == dig(b)


def fresh(own, args, fn, res):
    """a second caller with things of its own that hold the same"""
    mine = []
    for a in args:
        w = own.win[a]
        mine.append(lay_out(np.array(w), own.lay)[1] if isinstance(w, np.ndarray) else copy.deepcopy(w))
    return bool(close(fn(*mine), res))


# ------------------------------------------------------------------- the catalogue
CAT = []


def F(name, args, fn, fixed=True):
    CAT.append((name, args.split(), fn, fixed))


for nm in ("uv2xy", "uv2xyz"):
    F(nm, "UV", getattr(tr, nm))
F("uv2xy1", "UV1", tr.uv2xy)
F("norm", "W", tr.norm)
F("norm1", "V1", tr.norm1)
F("normi", "I3", tr.norm)
F("xyz2uv", "W", lambda w: tr.xyz2uv(w, normalize=True))
F("xyz2uvf", "U", lambda w: tr.xyz2uv(w, flipu=True))
F("xyz2uva", "U", lambda w: tr.xyz2uv(w, axes=(1, 2, 0)))
F("xyz2skybin", "W", lambda w: tr.xyz2skybin(w, 6, 0, True))
F("xyz2skybint", "V1", lambda w: tr.xyz2skybin(w, 6, .3, True))
F("skybin2xyz", "BN", lambda b: tr.skybin2xyz(b, 6))
F("xyz2xy", "W", tr.xyz2xy)
F("xyz2xyf", "W", lambda w: tr.xyz2xy(w, (2, 0, 1), True))
F("tpnorm", "TP", tr.tpnorm)
F("tp2xyz", "TP", tr.tp2xyz)
F("tp2xyzn", "TP", lambda a: tr.tp2xyz(a, False))
F("xyz2tp", "W", tr.xyz2tp)
F("aa2xyz", "AA", tr.aa2xyz)
F("xyz2aa", "W", tr.xyz2aa)
F("chord2theta", "CH", tr.chord2theta)
F("theta2chord", "TH", tr.theta2chord)
for nm in ("ctheta", "radians", "degrees"):
    F(nm, "U1 U", getattr(tr, nm))
F("uv2ij", "UV", lambda a: tr.uv2ij(a, 4))
F("uv2ij1", "UV1", lambda a: tr.uv2ij(a, 4, 1))
F("uv2bin", "UV", lambda a: tr.uv2bin(a, 4))
F("bin2uv", "BN", lambda a: tr.bin2uv(a, 4))
F("resample up", "S2", lambda a: tr.resample(a, (8, 12)))
F("resample up plain", "S2", lambda a: tr.resample(a, (8, 12), gauss=False))
F("resample down", "S2", lambda a: tr.resample(a, (2, 3)))
F("resample same", "S2", lambda a: tr.resample(a, radius=1.))
F("resample box", "S2", lambda a: tr.resample(a, gauss=False, radius=2))
F("resample 3", "S3", lambda a: tr.resample(a, (2, 8, 12)))
F("resample none", "S2", lambda a: tr.resample(a))
F("weighted_quantile", "D WT Q", lambda d, w, q: tr.weighted_quantile(d, w, q, .3))
F("weighted_quantile0", "D", tr.weighted_quantile)
F("weighted_median", "D WT", tr.weighted_median)
F("smooth", "X Y", lambda x, y: tr.non_uniform_gaussian_filter(x, y))
F("smooth2", "XU Y2 XR SG", lambda x, y, r, s: tr.non_uniform_gaussian_filter(x, y, r, s, 1.5, None))
F("smooth3", "XU Y SG", lambda x, y, s: tr.non_uniform_gaussian_filter(x, y, None, s, .5, 3, "median"))
F("smooth4", "XU Y Q XR", lambda x, y, q, r: tr.non_uniform_gaussian_filter(x, y, r, 1., 1., None, q))
F("rmtx_elem", "SG", lambda s: tr.rmtx_elem(s, 1))
F("rotate_elem", "W SG", lambda w, s: tr.rotate_elem(w, s, 0))
F("rmtx_yp", "W", tr.rmtx_yp)
F("rmtx_yp1", "V1", tr.rmtx_yp)
F("rmtx_ypi", "I3", tr.rmtx_yp)
F("cull", "U", lambda u: tr.cull_vectors(u, .7))
F("reflect", "RY NV", tr.reflect)
F("reflectm", "RY NV", lambda a, b: tr.reflect(a, b, True))
F("simple_take", "TK TI", lambda a, i: tr.simple_take(a, slice(0, 3, 2), None, i))
F("simple_take2", "TK TI SL", lambda a, i, s: tr.simple_take(a, i, s, axes=(2, 1)))
for v in ("VM", "VM60", "VMF", "SV", "MP"):
    for nm, args in (("view2world", "W"), ("world2view", "W"), ("xyz2uv", "U"), ("uv2xyz", "UV1"), ("xyz2vxy", "U"), ("vxy2xyz", "VXY"),
                     ("in_view", "U"), ("pixel2omega", "PXY"), ("ctheta", "U"), ("radians", "U"), ("degrees", "U")):
        if v == "MP" and nm in ("ctheta", "radians", "degrees"):
            continue
        if nm == "pixel2omega":
            F(v + " " + nm, v + " " + args, lambda m, a: m.pixel2omega(a, 8))
        else:
            F(v + " " + nm, v + " " + args, lambda m, a, nm=nm: getattr(m, nm)(a))
    F(v + " ray2pixel", v + " U", lambda m, a: m.ray2pixel(a, 8))
    F(v + " ray2pixelf", v + " U", lambda m, a: m.ray2pixel(a, 8, integer=False))
    F(v + " pixel2ray", v + " PXY", lambda m, a: m.pixel2ray(a, 8))
    F(v + " idx2uv", v + " IDX", lambda m, a: m.idx2uv(a, (8, 4), jitter=False))
    F(v + " idx2uv jitter", v + " IDX", lambda m, a: m.idx2uv(a, (8, 4)), False)
    F(v + " uv2idx", v + " UV1", lambda m, a: m.uv2idx(a, (4, 4)))
    F(v + " stack", v + " UV1", lambda m, a: m.uv2xyz(a, stackorigin=True))
    F(v + " stackv", v + " VXY", lambda m, a: m.vxy2xyz(a, stackorigin=True))
    F(v + " pixels", v, lambda m: (m.pixels(6), m.pixelrays(6), m.framesize(6)))
    F(v + " header", v, lambda m: m.header())
    F(v + " init_img", v, lambda m: m.init_img(6))
    F(v + " paint", v + " U", lambda m, a: m.add_vecs_to_img(np.zeros(m.framesize(6) if m.aspect != 2 or m.name == "mapper" else (12, 6)), a))
    F(v + " paintc", v + " U CHN", lambda m, a, c: m.add_vecs_to_img(np.zeros((3, 12, 6) if getattr(m, "viewangle", 0) == 360 else (3,) + tuple(m.framesize(6))), a,
                                                                      [1., 1., 1.] if isinstance(m, Mapper) and not hasattr(m, "viewangle") else c, 1))
for v in ("VM", "VMF"):
    F(v + " solid", v + " U VXY PXY", lambda m, u, x, p: (m.solid_xyz2vxy(u), m.solid_vxy2xyz(x), m.solid_ray2pixel(u, 8), m.solid_pixel2ray(p, 8)))
F("Mapper of", "V1 BB", lambda v, b: Mapper(v, (2, 1), b))
F("ViewMapper of", "V1", lambda v: ViewMapper(v, 90))
F("SolidViewMapper of", "V1", lambda v: SolidViewMapper(v, 90))
F("transform", "VM60 VMY IMG", lambda a, b, i: a.transform_to(i, b))
F("transformc", "SV VMY CIMG", lambda a, b, i: a.transform_to(i, b, nearest=True))
F("plot", "VM60 U", lambda m, u: m.plot(u, "plot.hdr", 8) and None)
# images
F("array_uv2ang", "IMG", it.array_uv2ang)
F("array_uv2angc", "CFULL", it.array_uv2ang)
F("array_ang2uv", "IMG", it.array_ang2uv)
F("array_ang2uvv", "CIMG VM60", it.array_ang2uv)
F("array_ang2uvf", "FULL", it.array_ang2uv)
F("array_rotate", "IMG CEN", lambda a, c: it.array_rotate(a, 30., c))
F("array_rotate4", "CIMG CEN4", lambda a, c: it.array_rotate(a, -10., c, rotate_first=False))
F("array_rotate0", "IMG", lambda a: it.array_rotate(a, 0))
F("array_solid2ang", "IMG", it.array_solid2ang)
F("array_solid2angc", "CIMG", lambda a: it.array_solid2ang(a, True, True, 120))
F("hdr_uv2ang", "C", lambda f: it.hdr_uv2ang(f.name, "o.hdr"))
F("hdr_ang2uv", "C", lambda f: it.hdr_ang2uv(f.name, outf="o.hdr"))
F("hdr_rotate", "C CEN", lambda f, c: it.hdr_rotate(f.name, "o.hdr", 20, c))
F("hdr_solid2ang", "C", lambda f: it.hdr_solid2ang(f.name, "o.hdr"))
F("hdr2vol", "F VMY", lambda f, m: it.hdr2vol(f.name, m))
F("hdr2volc", "C", lambda f: it.hdr2vol(f.name, color=True))
F("hdr2vm", "F", lambda f: it.hdr2vm(f.name, True))
F("imgmetric", "F METS", lambda f, m: it.imgmetric(f.name, m, peakn=True))
F("imgmetricc", "C CMETS LRGB", lambda f, m, r: it.imgmetric(f.name, m, peakn=True, lumrgb=r))
F("find_peak", "VB OB LB", it.find_peak)
F("find_peak2", "V O LB", lambda v, o, l: it.find_peak(v, o, l, findsecondary=True, peakt=1e4))
F("gather", "V O LB", lambda v, o, l: it.gather_strays(np.hstack((v, o[:, None], l[:, None])), 1e3, .9))
for i, kw in enumerate((dict(), dict(keepzeros=True), dict(returnparts=True), dict(findsecondary=True), dict(blursun=True, peakc=2.), dict(peakt=1e12),
                        dict(returnall=False), dict(keepzeros=True, returnparts=True))):
    F(f"normalize{i}", "VB OB LB", lambda v, o, l, kw=kw: it.normalize_peak(v, o, l, **kw))
    if "findsecondary" not in kw:
        F(f"normalizec{i}", "VB OB LBC LRGB", lambda v, o, l, c, kw=kw: it.normalize_peak(v, o, l, vlambda=c, **kw))
F("normalizeV", "V O LB", lambda v, o, l: it.normalize_peak(v, o, l, peakt=1e4))
# metrics
MS = [m for m in MetricSet.allmetrics]
for i, kw in enumerate((dict(), dict(scale=1.), dict(guth=False), dict(threshold=5.), dict(omega_as_view_area=True), dict(lowlight=True))):
    for v in ("VMY", "VM60", "VMF"):
        if v == "VMF" and i:
            continue
        F(f"MetricSet{i} {v}", f"V O L {v}", lambda a, o, l, m, kw=kw: MetricSet(a, o, l, m, **kw)(MS))
        F(f"Color{i} {v}", f"V O LC {v} LRGB", lambda a, o, l, m, c, kw=kw: ColorMetricSet(a, o, l, m, vlambda=c, **kw)(["illum", "irradiance", "dgp", "ugr"]))
for v, kw in (("VMY", {}), ("VMF", {}), ("VMF", {"omega_as_view_area": False}), ("VM60", {})):
    F(f"MetricSet many {v}", f"MV MO ML {v}", lambda a, o, l, m, kw=kw: MetricSet(a, o, l, m, **kw)(["illum", "avglum", "density", "dgp"]))
    F(f"Base many {v}", f"MV MO ML {v}", lambda a, o, l, m: BaseMetricSet(a, o, l, m, omega_as_view_area=False)(["illum", "avglum", "density"]))
F("MetricSetB", "V O LB VM60 METS", lambda a, o, l, m, ms: MetricSet(a, o, l, m, ms)())
F("MetricSetW", "V O L VMY METS", lambda a, o, l, m, ms: MetricSet(a * 1., o, l, m, ms, warn=True)())
F("Base", "V O L VM60", lambda a, o, l, m: BaseMetricSet(a, o, l, m)(BaseMetricSet.allmetrics))
F("check", "METS", lambda m: (MetricSet.check_metrics(m), MetricSet.check_safe2sum(m)))
F("positions", "VM V", lambda m, v: PositionIndex().positions(m, v))
F("positionsk", "VM V", lambda m, v: PositionIndex(False).positions(m, v))
F("positions_vec", "V1 V", lambda a, v: PositionIndex().positions_vec(a, v))
# the eye
F("hpsf", "TH", retina.hpsf)
F("inv_hpsf", "WT", lambda w: retina.inv_hpsf(w / 3))
F("blur_sun", "OM LM", retina.blur_sun)
F("on_meridian", "DEG MI", retina.rgcf_density_on_meridian)
F("rgc on_meridian", "DEG MI", retina.rgc_density_on_meridian)
F("density_xy", "XY", lambda x: retina.rgcf_density_xy(x * 90))
F("density_xy1", "XY", retina.rgcf_density_xy)
F("binocular", "XY", retina.binocular_density)
F("rgcf", "XY", retina.rgcf_density)
F("rgc", "XY", retina.rgc_density)


def gss(m, f):
    g = hvsgsm.GSS(m)
    g.lum = f.name
    return g


F("GSS", "VMY F", lambda m, f: float(gss(m, f).compute()))
F("GSS2", "VM60 F", lambda m, f: float(gss(m, f).compute(ev_eye=300.)))
F("GSS save", "VM60 F", lambda m, f: (float(gss(m, f).compute(save="g.hdr")), io.hdr2carray("g.hdr")))
F("GSS response", "VMY F GLUM", lambda m, f, a: gss(m, f).glare_response(a, 1., 10., 3., True))
F("GSS stages", "VMY F GLOW", lambda m, f, a: [(g.retinal_irradiance(a, 10.), g.apply_psf(a, 3.), g.apply_eye_movement_1(a), g.apply_eye_movement_2(a, 1e-3),
                                                g.local_eye_adaptation(a, 1e-3), g.cone_response(a, a * 2), g.field_response(a),
                                                g.normalized_field_response(a)) for g in [gss(m, f)]])
F("GSS sum", "VMY F GRG", lambda m, f, a: float(gss(m, f).gss(a)))
F("gss_compute", "F ANY", lambda f, a: hvsgsm.gss_compute([f.name, f.name], [300., None]))
F("cone_response", "LM WT", hvsgsm.GSS.cone_response)
F("l_b", "TH", lambda t: (hvsgsm.l_b(1.3, .2, t), hvsgsm.f_b(1.3, .2, t)))
# files
F("np2bytes", "BYTES", io.np2bytes)
F("np2bytefile", "BYTES", lambda b: io.np2bytefile(b, "o.bin"))
F("array2hdr", "IMG HD", lambda a, h: (io.array2hdr(a, "o.hdr", h), io.hdr2array("o.hdr"), io.hdr_header("o.hdr"))[1:])
F("carray2hdr", "CIMG HD", lambda a, h: (io.carray2hdr(a, "o.hdr", h, True), io.hdr2carray("o.hdr"), io.hdr_header("o.hdr"))[1:])
F("hdr2array", "F LRGB", lambda f, c: (io.hdr2array(f.name), io.hdr2array(f.name, vlambda=c)))
F("hdr2carray", "C", lambda f: io.hdr2carray(f.name, header=True))
F("hdr_header", "F", lambda f: (io.hdr_header(f.name), io.hdr_header(f.name, clean=True)))
F("hdr_items", "F ITEMS", lambda f, i: io.hdr_header(f.name, items=i))
F("header_items", "HD ITEMS", io.header_items)
F("clean_header", "HD", io.clean_header)
F("CleanHeader", "HD", lambda h: io.CleanHeader(h, 2, " ", 40).header)
F("is_hdr", "F", lambda f: io.is_hdr(f.name))
F("rgb2rad", "RGB LRGB", io.rgb2rad)
F("rgb2lum", "RGB LRGB", io.rgb2lum)
F("rgbe2lum", "RGBE", io.rgbe2lum)
F("load_txt", "T", lambda f: io.load_txt(f.name))
F("pool_call", "ANY", lambda a: pool_call(str, a, expandarg=False, workers="t", pbar=False))
F("get_nproc", "SL", lambda a: (io.get_nproc(3), io.get_nproc()))

# calls that fail: wrong shapes, missing files
BAD = [("W UV", lambda w, u: tr.rotate_elem(u, 10)), ("VM VXY", lambda m, x: m.vxy2xyz(x[:, :1])), ("VM U", lambda m, u: m.xyz2vxy(u[:, :2])),
       ("VMF W", lambda m, u: m.xyz2uv(u.T)), ("UV", lambda u: tr.uv2xyz(u[:, :1])), ("UV", lambda u: tr.uv2xy(u.astype(str))),
       ("V O L VMY", lambda v, o, l, m: MetricSet(v, o[:3], l, m)(MS)), ("V O L VMY", lambda v, o, l, m: MetricSet(v, o, l, m, ["nosuch"])),
       ("V O LC VMY", lambda v, o, l, m: MetricSet(v, o, l, m)(["dgp", "illum", "ugr"])), ("V O L VM60", lambda v, o, l, m: MetricSet(v, o, l[:-1], m)(MS)),
       ("VB OB LB", lambda v, o, l: it.normalize_peak(v, o[:4], l)), ("VB OB LBC", lambda v, o, l: it.normalize_peak(v, o, l, vlambda=(1, 2))),
       ("SV VXY", lambda m, x: m.vxy2xyz(x.astype(object))), ("VM VXY", lambda m, x: m.vxy2xyz(x.astype(complex) + .3j)),
       ("X Y", lambda x, y: tr.non_uniform_gaussian_filter(x, y[:-2])), ("D WT", lambda d, w: tr.weighted_quantile(d, w[:-1])),
       ("CIMG", lambda a: it.array_rotate(a[:2], 10)), ("IMG", lambda a: io.array2hdr(a, "no.d/x.hdr")), ("F", lambda f: it.imgmetric("gone.hdr", ["illum"])),
       ("F", lambda f: io.hdr2array("gone.hdr")), ("T", lambda f: io.hdr2array("t.txt")), ("F GLUM", lambda f, a: gss(ViewMapper(viewangle=180), f).glare_response(a[:, :3], 1., 10., 3.)),
       ("XY", lambda x: retina.rgcf_density(x[:, :1])), ("TK", lambda a: tr.simple_take(a, [0], [99])), ("SL", lambda s: io.set_nproc("2")),
       ("F CEN", lambda f, c: it.hdr_rotate(f.name, "o.hdr", 20, c[:1]))]
ERRS = {"default": dict(divide="warn", over="warn", under="ignore", invalid="warn"), "quiet": dict(divide="ignore", over="warn", under="warn", invalid="ignore"),
        "strict": dict(divide="raise", over="raise", under="ignore", invalid="raise")}


def history(case, ent, r):
    own = Own(r, case["lay"])
    np.seterr(**ERRS["default"])
    strict = False

    def user(what):
        return {"k": "user", "exc": "", "what": what, "mem": own.mem(), "set": settings()}
    evs = [user("start")]
    other = [e for e in CAT if set(e[1]) & set(ent[1])]
    for step in case["h"]:
        if step[0] == "write":
            own.write(ent[1], r)
            evs.append(user("write"))
        elif step[0] == "set":
            np.seterr(**ERRS[step[1]])
            strict = step[1] == "strict"
            evs.append(user("set"))
        elif step[1] == "bad":
            args, fn = BAD[int(r.integers(len(BAD)))]
            args = args.split()
            e = event("bad", lambda: (fn(*[own.win[a] for a in args]), {})[1], args=args)
            evs.append({**e, "mem": own.mem(), "set": settings()})
        else:
            f, args, fn, fixed = ent if step[1] == "same" else other[int(r.integers(len(other)))]

            def go():
                res = fn(*[own.win[a] for a in args])
                d = dig(res)
                return dict(res=d, fresh=not fixed or fresh(own, args, fn, res), kept=dig(res) == d)
            e = event("call", go, f=f, args=args, fixed=fixed, strict=strict, lay=case["lay"])
            evs.append({"res": "", **e, "mem": own.mem(), "set": settings()})
    np.seterr(**ERRS["default"])
    rec.chain(evs)


import warnings
warnings.simplefilter("ignore")
K = 24 if THOROUGH else 4
for j, ent in enumerate(CAT):
    if j % rec.nshards != rec.shard:
        continue
    for i in range(K):
        r = rng(28, j, i)
        case = rec.cases[int(r.integers(len(rec.cases)))]
        # the function itself is called
        if ["call", "same"] not in case["h"]:
            case = {"lay": case["lay"], "h": [["call", "same"]] + case["h"][1:]}
        rec.begin({"k": "call", "f": ent[0], "case": case})
        history(case, ent, r)
rec.end()
