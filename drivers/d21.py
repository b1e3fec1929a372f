"""C21: histories of a glare sensation model, lists of images."""
import os
import shutil

import numpy as np

from base import *
from raytools import io
from raytools.evaluate import hvsgsm
from raytools.evaluate.hvsgsm import GSS
from raytools.mapper import ViewMapper

rec = Rec()
r0 = rng(21, 0)
AGES = (40, 67)
EVS = [None] + [float(i) for i in 10. ** r0.uniform(.5, 4, 4)]
D = (.6, -.48, .64)


def images(seed):
    r = rng(211, seed)
    for i, n in ((1, 8), (2, 8), (3, 11)):
        a = 10. ** r.normal(.5, .7, (n, n))
        a[tuple(r.integers(1, n - 1, 2))] = 10. ** r.uniform(2, 4)
        hd = ("VIEW= -vta -vv 100 -vh 100 -vd 1 0 0 -vu 0 0 1",) if i == 2 else ()
        io.array2hdr(a, f"i{i}.hdr", hd)
    os.makedirs("in.d", exist_ok=True)
    for i in (1, 2, 3):
        shutil.copy(f"i{i}.hdr", "in.d")
    with open("v2.vf", "w") as f:
        f.write(f"rvu -vta -vp 0 0 0 -vd {D[0]} {D[1]} {D[2]} -vu 0 0 1 -vh 1 -vv 1\n")


def view(i):
    return (ViewMapper(viewangle=180), ViewMapper(D, 1), ViewMapper((1, 0, 0), 100))[i - 1]


def other_view(g, i, r):
    """another way to say the same view"""
    if i == 3 and r.random() < .5:
        return "i2.hdr"
    if i == 1 and r.random() < .5:
        return "i3.hdr"
    if r.random() < .3:
        # directions do not matter
        return ViewMapper((0, 0, -1), (180, 1, 100)[i - 1])
    return view(i)


def answer(g, ev):
    s = g.compute() if ev is None else g.compute(ev_eye=ev)
    eg, pa, pd = g.adapt(ev)
    return dict(score=fx(s), ecc=fx(g.ecc), sum=fx(g.glare_response(g.lum, eg, pa, pd).sum()))


def fresh(v, i, a, ev):
    g = GSS(view(v), age=AGES[a])
    g.lum = f"i{i}.hdr"
    return answer(g, ev)


def refs():
    return [[[[fresh(v, i, a, ev) for ev in (EVS if a == 0 else EVS[:2])] for a in (0, 1)] for i in (1, 2, 3)] for v in (1, 2, 3)]


def history(c, ref, r):
    rec.begin(c)
    evs = [dict(k="ref", exc="", ref=ref)]
    box = {}
    first = {"none": lambda: GSS() if r.random() < .5 else GSS(None), "view": lambda: GSS(view(2)), "file": lambda: GSS("v2.vf"),
             "image": lambda: GSS("i2.hdr"), "plain": lambda: GSS("i1.hdr")}[c["made"]]

    def make():
        box["g"] = first()
        return {}
    evs.append(event("make", make, by=c["made"]))
    for w, i in c["h"] if not evs[-1]["exc"] else ():
        g = box["g"]

        def do():
            if w == "lum":
                g.lum = f"i{i}.hdr"
            elif w == "vm":
                g.vm = other_view(g, i, r)
            elif w == "age":
                g.age = AGES[i - 1]
            else:
                ev = EVS[i]
                if r.random() < .4:
                    d = answer(g, ev)
                    return dict(score=d["score"], ecc=d["ecc"], sum=[d["sum"]])
                if g.lum is None and r.random() < .4:
                    g.adapt(ev) if r.random() < .5 else g.glare_response(np.ones((8, 8)), 1., 10., 3.)
                return dict(score=fx(g.compute(ev_eye=ev)), ecc=fx(g.ecc), sum=[])
            return {}
        evs.append(event(w, do, i=i))
    rec.chain(evs)


def batch(c, ref, r, k):
    rec.begin(c)
    n = len(c["list"])
    save = bool(r.random() < .5)
    outd = [None, f"out{k}", f"out{k}"][int(r.integers(0, 3))]
    sub = ["", "in.d/", "./"][int(r.integers(0, 3))]
    files = [sub + f"i{i}.hdr" for i in c["list"]]
    cap = int(r.choice([1, 2, 3]))
    suf = ["_rg.hdr", "_x.hdr"][int(r.integers(0, 2))]

    def go():
        if r.random() < .7:
            io.set_nproc(cap)
        kw = {}
        if save or r.random() < .3:
            kw["save"] = save
        if outd is not None:
            kw["outdir"] = outd
        if suf != "_rg.hdr":
            kw["suffix"] = suf
        if c["given"]:
            kw["illums"] = EVS[1:n + 1] if r.random() < .5 else np.array(EVS[1:n + 1])
        if r.random() < .3:
            kw["age"] = AGES[0]
        before = set(os.listdir("."))
        try:
            sc = hvsgsm.gss_compute(files, **kw)
        finally:
            io.unset_nproc()
        saved = []
        last = {i: p for p, i in enumerate(c["list"])}
        names = set()
        # images listed twice with differing illuminances share one file
        for i in last:
            f = (outd + "/" if outd else sub) + f"i{i}" + suf
            names.add(f)
            d = dict(of=i, there=os.path.exists(f), sum=fx(0))
            if d["there"]:
                d["sum"] = fx(io.hdr2carray(f)[0:2].sum())
                os.remove(f)
            if not (c["given"] and c["list"].count(i) > 1):
                saved.append(d)
        left = (set(os.listdir(".")) - before - {outd}) | (set(os.listdir("in.d")) - {"i1.hdr", "i2.hdr", "i3.hdr"})
        if outd and os.path.isdir(outd):
            left |= set(os.listdir(outd))
        return dict(scores=[fx(i) for i in sc], saved=saved, extra=len(left))
    e = event("batch", go, list=c["list"], given=c["given"], save=save)
    for x in e.get("saved", ()):
        x["ev"] = c["list"].index(x["of"]) + 1 if c["given"] else 0
    rec.chain([dict(k="ref", exc="", ref=ref), e])


images(rec.shard)
ref = refs()
for k, c in enumerate(rec.cases):
    r = rng(212, rec.shard, k)
    if c["t"] == "hist":
        history(c, ref, r)
    else:
        batch(c, ref, r, k)
rec.end()
