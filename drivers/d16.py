"""C16: histories of metric sets; reference values from processes of their own."""
import gc
import json
import os
import warnings

import numpy as np

from base import *
from d10 import unit
from raytools.mapper import ViewMapper
from raytools.evaluate import BaseMetricSet, MetricSet, ColorMetricSet

CLS = {"base": BaseMetricSet, "met": MetricSet, "col": ColorMetricSet}
PLAIN = ["illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "density", "avgraylum", "pwavglum", "maxlum"]
MORE = ["ugp", "dgp", "tasklum", "backlum", "dgp_t1", "log_gc", "dgp_t2", "ugr", "threshold", "pwsl2", "view_area",
        "backlum_true", "srcillum", "srcarea"]
NAMES = {"base": PLAIN, "met": PLAIN + MORE, "col": PLAIN + MORE + ["irradiance"]}
DEF = {"base": ["illum", "avglum", "loggcr"], "met": ["illum", "avglum", "loggcr", "ugp", "dgp"], "col": ["illum", "irradiance"]}


VARIANTS = range(5, 13)


def data(dt):
    """ray set dt: view, rays, settings; set 4 has the settings of set 1 and one ray less; sets 5.. are set 1 but for
    one thing"""
    r = np.random.default_rng([SEED, 16, 1 if dt > 3 else dt])
    n = 30 if dt < 3 or dt > 4 else 140
    d = unit(r.normal(size=3))
    w = unit(r.normal(size=(n, 3)) * .6 + d)
    w = w[np.arccos(np.clip(w @ d, -1, 1)) < 1.4]
    o = r.uniform(.01, .06, len(w))
    if dt == 3:
        o = o / o.sum() * 2 * np.pi
    rgb = 10. ** r.uniform(0, 1.2, (len(w), 3))
    rgb[:3] *= 3000
    if dt == 4:
        w, o, rgb = w[:-1], o[:-1], rgb[:-1]
    kw = [dict(), dict(scale=2.), dict(threshold=.02, lowlight=True, scale=1.)][1 if dt > 3 else dt % 3]
    kw = dict(kw)
    if dt == 5:        # other directions, but for the first and last
        k = len(w) - 2
        w[1:-1] = unit(r.normal(size=(k, 3)) * .3 + d)
    elif dt == 6:
        o[1:-1] = r.permutation(o[1:-1])
    elif dt == 7:
        rgb[1:-1] = r.permutation(rgb[1:-1])
    elif dt == 8:
        d = unit(d + unit(r.normal(size=3)) * .1)
    elif dt == 9:
        kw["guth"] = False
    elif dt == 10:
        kw["scale"] = 3.
    elif dt == 11:
        kw["threshold"] = 4.
    elif dt == 12:
        kw.update(threshold=4., tradius=50.)
    return ViewMapper(d, 180), w, o, rgb, kw


def build(cn, dt, **more):
    vm, w, o, rgb, kw = data(dt)
    if cn == "base":
        kw = {k: v for k, v in kw.items() if k in ("scale", "guth")}
    lum = rgb if cn == "col" else rgb @ np.array((.265, .670, .065))
    return CLS[cn](w, o, lum, vm, **kw, **more)


def alone(cn, dt, name):
    """the value as a process of its own computes it"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = arr(np.atleast_1d(getattr(build(cn, dt), name)))
            os.write(wr, json.dumps(v).encode())
        except BaseException:
            os.write(wr, b"[]")
        os._exit(0)
    os.close(wr)
    out = b""
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        out += b
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(out)


class Hist:
    def __init__(self, r):
        self.r = r
        self.evs = []
        self.sets = {}

    def new(self, s, dt, cn, dm=None):
        more = {"warn": True} if self.r.random() < .2 else {}
        if dm is not None:
            more["metricset"] = dm
        self.sets.pop(s, None)

        def f():
            self.sets[s] = (build(cn, dt, **more), cn)
            return {}
        self.evs.append(event("new", f, s=s, key=f"{cn}/{dt}", dm=DEF[cn] if dm is None else dm))

    def call(self, s, ms):
        m, cn = self.sets[s]

        def f():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return {"v": arr(m() if ms is None else m(ms))}
        self.evs.append(event("call", f, s=s, ms=ms or [], dflt=ms is None))

    def read(self, s, name):
        m, cn = self.sets[s]

        def f():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return {"v": arr(np.atleast_1d(getattr(m, name)))}
        self.evs.append(event("read", f, s=s, ms=[name], dflt=False))

    def bad(self, s):
        m, cn = self.sets[s]
        ms = [["nosuch"], ["illum", "nosuch"], ["gss"], ["illum", "Illum"], ["irradiance"] if cn != "col" else ["x"],
              ["dgp", "irr"] if cn == "base" else ["dgp", "dgpp"],
              # attributes that are no metrics
              ["omega"], ["illum", "vec"], ["scale"], ["pos_idx", "illum"]][int(self.r.integers(0, 10))]
        f = (lambda: m(ms) is None or {}) if self.r.random() < .7 else (lambda: build(cn, 2, metricset=ms) is None or {})
        self.evs.append(event("bad", f, s=s, ms=ms))

    def drop(self, s):
        self.sets.pop(s, None)
        if self.r.random() < .5:
            gc.collect()
        self.evs.append({"k": "drop", "exc": "", "s": s})


def main():
    rec = Rec()
    if rec.shard == 0:
        ref = {f"{cn}/{dt}": {n: alone(cn, dt, n) for n in NAMES[cn]} for cn in CLS for dt in (1, 2, 3, 4, *VARIANTS)}
        rec.chain([{"k": "ref", "exc": "", "ref": ref}])
    # the histories of the model
    for n, c in enumerate(rec.cases):
        r = rng(16, n, rec.shard)
        h = Hist(r)
        rec.begin({"k": "history", "h": c["h"]})
        mode = int(r.integers(0, 3))
        cn = ["met", "col", "met"][mode]
        names = {i: i for i in range(9)}
        if r.random() < .7:            # ray sets that are alike
            names.update(zip((1, 2, 3), r.permutation([1, *r.choice(VARIANTS, 2, replace=False)]).tolist()))
        for op, s, dt, ms in c["h"]:
            dt = names[dt]
            if op == "new":
                h.new(s, dt, cn if mode < 2 or s == 1 else "col")
            elif op == "call":
                if len(ms) == 1 and r.random() < .6:
                    h.read(s, ms[0])
                else:
                    h.call(s, ms)
            else:
                h.bad(s)
        rec.chain(h.evs)
    # long ones
    for n in range(400 if THOROUGH else 40):
        if not rec.mine():
            continue
        r = rng(161, n)
        h = Hist(r)
        rec.begin({"k": "long", "n": n})
        pool = [1, 2, 3, 4] if r.random() < .4 else [1, 4, *VARIANTS]
        one = str(r.choice(list(CLS))) if r.random() < .6 else None
        for _ in range(int(r.integers(5, 60))):
            s = int(r.integers(1, 4))
            op = r.random()
            if s not in h.sets or op < .1:
                cn = one or str(r.choice(list(CLS)))
                dm = [str(i) for i in r.choice(NAMES[cn], int(r.integers(1, 5)))] if r.random() < .4 else None
                h.new(s, int(r.choice(pool)), cn, dm)
            elif op < .15:
                h.drop(s)
            elif op < .2:
                h.bad(s)
            elif op < .3:
                h.call(s, None)
            elif op < .6:
                h.read(s, str(r.choice(NAMES[h.sets[s][1]])))
            else:
                h.call(s, [str(i) for i in r.choice(NAMES[h.sets[s][1]], int(r.integers(1, 9)))])
        rec.chain(h.evs)
    # lists of names: known ones, safe ones
    for n in range(1200 if THOROUGH else 240):
        if not rec.mine():
            continue
        r = rng(162, n)
        cn = list(CLS)[n % 3]
        pool = NAMES[cn] + ["srcarea"] * (cn != "base")
        m = r.random()
        if m < .5:
            pool = ["illum", "avglum", "density", "pwsl2", "srcillum", "irradiance"]
        ms = [str(i) for i in r.choice(pool, int(r.integers(0, 5)))]
        if r.random() < .3:
            ms.insert(int(r.integers(0, len(ms) + 1)), str(r.choice(["nosuch", "Illum", "irradiance", "", "rays"])))
        if r.random() < .3:
            ms.append(str(r.choice(pool)))

        def names():
            obj = CLS[cn] if n % 2 else build(cn, 2)
            arg = [list, tuple][int(r.integers(0, 2))](ms)
            good = list(obj.check_metrics(arg))
            try:
                raised = "" if list(obj.check_metrics(arg, True)) == good else "other"
            except Exception as ex:
                raised = exc_of(ex)
            return {"good": good, "raised": raised, "safe": bool(obj.check_safe2sum(arg))}
        rec.call("names", names, cls=cn, ms=ms)
    rec.end()


if __name__ == "__main__":
    main()
