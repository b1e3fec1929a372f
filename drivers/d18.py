"""C18: position index."""
import numpy as np

from base import *
from d10 import unit, make
from raytools.mapper import ViewMapper, SolidViewMapper
from raytools.evaluate.positionindex import PositionIndex


def main():
    rec = Rec()
    for rep in range(40 if THOROUGH else 8):
        for n, c in enumerate(rec.cases):
            r = rng(18, rep, n, rec.shard)
            d = np.array(c["d"], float)
            if rep % 2:
                d = d + r.normal(size=3) * .3
            va = float(r.choice([180, 180, 60, 120, 360, 179]))
            cls = SolidViewMapper if va <= 180 and rep % 4 == 3 else ViewMapper
            vm = make(cls, d, va, r, (0, 0, 0))
            # frame of the view, the relative position of the source
            z = unit(d)
            up = np.array((0, 1., 0)) if np.hypot(z[0], z[1]) < 1e-8 else np.array((0, 0, 1.))
            x = unit(np.cross(z, up))
            y = np.cross(x, z)
            m = int(r.choice([1, 2, 7, 20]))
            s = np.pi * r.random(m)
            t = 2 * np.pi * r.random(m)
            k = r.random(m) < .3
            t[k] = np.pi / 4 * r.integers(0, 8, k.sum())
            k = r.random(m) < .3
            s[k] = np.pi / 12 * r.integers(0, 13, k.sum())
            k = r.random(m) < .3
            s[k] = r.random(k.sum()) * np.pi / 2
            k = r.random(m) < .1
            s[k] = 10. ** r.integers(-9, -1, k.sum())
            k = r.random(m) < .15
            t[k] = np.pi / 2 * r.choice([1, 3], k.sum()) + r.choice([-1, 1], k.sum()) * 10. ** r.integers(-6, -1, k.sum())
            w = ((np.sin(s) * np.sin(t))[:, None] * x + (np.sin(s) * np.cos(t))[:, None] * y + np.cos(s)[:, None] * z)
            w2 = ((-np.sin(s) * np.sin(t))[:, None] * x + (np.sin(s) * np.cos(t))[:, None] * y + np.cos(s)[:, None] * z)
            if rep % 3 == 1:
                w = w * np.exp(r.normal(size=(m, 1)))
                if r.random() < .5:
                    w[0] = w2[0] = z * 2
            g = bool(r.random() < .65)
            pi = PositionIndex() if g and r.random() < .5 else PositionIndex(g)
            vec = rep % 4 == 1
            if r.random() < .3:
                pi.positions(vm, r.normal(size=(3, 3)))

            def pos(w):
                if vec:
                    return pi.positions_vec(d, w) if r.random() < .5 else pi.positions_vec(tuple(d), w, (0, 0, 1))
                return pi.positions(vm, w)

            def inv():
                p = pos(w)
                return {"p": arr(p), "nd": p.ndim}
            rec.call("pos", inv, d=arr(d), w=arr(w), g=g)
            ok = np.abs(np.cos(s)) > 1e-6
            if not g:
                ok &= np.sin(s) > 1e-6
            if np.any(ok):
                rec.call("mirror", lambda: {"p": arr(pos(w[ok])), "q": arr(pos(w2[ok]))}, d=arr(d))
            if g:
                rec.call("axis", lambda: {"p": arr(np.concatenate((pos(z[None]), pos(np.vstack((d, z, z * 3))))))}, d=arr(d))
    rec.end()


if __name__ == "__main__":
    main()
