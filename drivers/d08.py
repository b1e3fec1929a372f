"""C08: bins, cells, sky patches."""
import itertools
import subprocess

import numpy as np

from base import *
from raytools import translate
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper


def cal(side, exp, n, data, out):
    exp = exp.replace("\n", "")
    p = subprocess.run(["rcalc", f"-id{n}", "-od", "-f", "rayinit.cal", "-e", f"side={side}",
                        *itertools.chain(*(("-e", x) for x in (out[0], exp, out[1])))],
                       input=np.asarray(data, "<f8").tobytes(), capture_output=True)
    if p.returncode:
        raise RuntimeError(p.stderr.decode())
    return np.frombuffer(p.stdout, "<f8")


def pts(r, side, n, aspect):
    """points inside, on lattice edges, next to them, on the outer edges"""
    p = np.stack((r.random(n) * aspect, r.random(n)), 1)
    m = r.integers(0, 6, n)
    k = m == 1
    p[k] = np.floor(p[k] * side) / side
    k = m == 2
    p[k] = np.floor(p[k] * side) / side + r.choice([-1, 1], (k.sum(), 2)) * 10.0 ** r.integers(-13, -3, (k.sum(), 2))
    k = m == 3
    p[k, 1] = r.integers(0, 2, k.sum())
    k = m == 4
    p[k, 0] = r.integers(0, aspect + 1, k.sum())
    return np.clip(p, 0, (aspect, 1))


def dirs(r, n):
    d = r.normal(size=(n, 3))
    k = r.random(n) < .3
    d[k] = np.array(list(itertools.product((-1, 0, 1), repeat=3)))[r.integers(0, 27, k.sum())]
    d[np.all(d == 0, 1)] = (0, 0, 1)
    k = r.random(n) < .15
    d[k, 2] *= 1e-4
    k = r.random(n) < .15
    d[k, :2] *= 1e-4
    k = (r.random(n) < .15) & (np.abs(d[:, :2]).max(1) > 1e-3)
    d[k, 2] = r.choice([1e-17, 1e-15, 1e-18], k.sum())
    return d / np.linalg.norm(d, axis=1)[:, None]


def idx(rec, n):
    r = rng(88, n)
    m = int(r.integers(1, 20))
    kind = n % 4
    jr = float(r.choice([0, .25, .5, 1.0]))
    if kind == 0:
        vm, sh = ViewMapper(viewangle=360, jitterrate=jr), (2 * m, m)
        den = (m, m)
    elif kind == 1:
        vm, sh = ViewMapper((1, 0, .5), viewangle=90, jitterrate=jr), (m, m)
        den = (m, m)
    elif kind == 2:
        vm, sh = SolidViewMapper(jitterrate=jr), (m, m)
        den = (m, m)
    else:
        sh = (int(r.integers(1, 20)), m)
        vm, den = Mapper(jitterrate=jr), sh
    ix = r.integers(0, sh[0] * sh[1], 12)
    jit = bool(r.integers(0, 2))
    kw = {} if jit and n % 2 else {"jitter": jit}

    def go():
        uv = vm.idx2uv(ix, sh, **kw)
        return {"uv": arr(uv), "back": ints(vm.uv2idx(uv, sh))}
    rec.call("idx", go, idx=ints(ix), sh=list(sh), den=list(den), jit=fx(jr if jit else 0), kind=kind)


def main():
    rec = Rec()
    sides = {}
    for s, b in rec.cases:
        sides.setdefault(s, []).append(b)
    jobs = []
    for s, bs in sorted(sides.items()):
        jobs += [(s, np.array(bs[i:i + 30])) for i in range(0, len(bs), 30)]
    for n in range(60 if THOROUGH else 6):
        r = rng(8, n, rec.shard)
        s = int(r.choice([8, 10, 16, 18, 32, 33, 49, 64, 100, 128, 255, 256, 1000]))
        jobs.append((s, r.integers(0, 2 * s * s, 30)))
    for n, (s, bs) in enumerate(jobs):
        r = rng(80, n, rec.shard)
        off = float(r.choice([0, .1, .25, .5, .75, .9, .999])) if n % 3 else None
        kw = {} if off is None else {"offset": off}
        o = .5 if off is None else off

        def b2u():
            p = translate.bin2uv(bs, s, **kw)
            return {"uv": arr(p), "back": ints(translate.uv2bin(p, s))}
        rec.call("b2u", b2u, side=s, off=fx(o), bins=ints(bs), inside=bool(o > 0 or s in (1, 2, 4, 8, 16, 32, 64, 128, 256)))
        for aspect in (1, 2):
            p = pts(r, s, 30, aspect)
            if n % 5 == 0:
                p = p[0]
            q = np.atleast_2d(p)

            def ij():
                x = translate.uv2ij(p, s, aspect) if aspect == 1 or n % 2 else translate.uv2ij(p, s)
                return {"ij": ints(x), "bin": ints(translate.uv2bin(p, s)) if aspect == 2 else []}
            rec.call("ij", ij, uv=arr(q), side=s, aspect=aspect)

        def sky():
            d = translate.skybin2xyz(bs, s)
            return {"xyz": arr(d), "back": ints(translate.xyz2skybin(d, s))}
        rec.call("sky", sky, side=s, bins=ints(bs))
        d = dirs(r, 24)
        nm = bool(r.integers(0, 2))
        if nm:
            d = d * 10 ** r.uniform(-2, 2, (24, 1))
        rec.call("dir", lambda: {"bin": ints(translate.xyz2skybin(d, s, normalize=nm))}, xyz=arr(d), side=s, norm=nm)
        for _ in range(3):
            d1 = dirs(r, 1)[0]
            if r.random() < .8:
                d1[2] = abs(d1[2])
            tol = float(r.choice([.1, .3, .51, .8, 1.0]))
            rec.call("tol", lambda: {"bin": ints(translate.xyz2skybin(d1, s, tol=tol))}, xyz=arr(d1), side=s, tol=fx(tol))
        if n % 2 == 0:
            d = dirs(r, 24)
            rec.call("calbin", lambda: {"bin": ints(cal(s, translate.scbinscal, 3, d, ("Dx=$1;Dy=$2;Dz=$3", "$1=bin")).astype(int))},
                     xyz=arr(d), side=s)
            sb = bs[bs < s * s]
            if len(sb):
                rec.call("calxyz", lambda: {"xyz": arr(cal(s, translate.scxyzcal, 1, sb, ("bin=$1", "$1=Dx;$2=Dy;$3=Dz")).reshape(-1, 3))},
                         bins=ints(sb), side=s)
    for n in range(200 if THOROUGH else 60):
        if rec.mine():
            idx(rec, n)
    rec.end()


if __name__ == "__main__":
    main()
