"""C04: header lines and file names"""
import os
import shutil
import sys

import numpy as np
from base import Rec, pyrng, rng, event

try:
    from raytools import io as rio, imagetools
    from raytools.evaluate import hvsgsm
except Exception:
    print("DRIVER-IMPORT", file=sys.stderr)
    raise

LINES = ['plain=1', 'CAPDATE= 2020:01:02 03:04:05', 'say "hello world"', "it's 'quoted'", 'back\\slash \\n \\t \\\\',
         'dollar $HOME $(echo no) `echo no`', 'star * ? [a-z] {a,b} ~', 'pipe | cat > f < g & ; done # c',
         'percent %s %d %% %n', 'tab\tin\tside', '  two spaces first', 'trailing space ', '-a -d -dash', '--',
         'unicode \u00e9\u00df\u4e2d\u2603', 'EXPOSURE=2.5', 'VIEW= -vta -vh 180 -vv 180', 'a' * 600, 'w ' * 400 + 'end',
         'a=b=c==d', 'file.hdr:', '\tinner:', 'pfilt -1 -e 2 "x y"', 'made with RADIANCE', 'see #?RADIANCE inside',
         'key=', '= value', '!command', '\\', '"', "'", '%', '-', '0', 'a\\"b', '$', '\\$x', "'\"'", 'x\\',
         '"unbalanced', "un'balanced", '(paren) [br] {cu}', 'pvalue -h', 'getinfo -a x', 'cannot open', 'bad header!x',
         '\t\tdeep', 'caret ^ tilde ~', 'line, with, commas', 'eq = spaced', '<tag>&amp;', '@home', '...', '... more',
         'clasp_tmp_1', 'LuminanceRGB= 0.265 0.67 0.065', '+Y 3 +X 4', '-Y 3 +X 4', '\u00a1hola!', '\u03b1\u03b2\u03b3=1']
ALPHA = ''.join(chr(i) for i in range(32, 127)) + '\t"\'\\$`;|&<>*?[]{}()#!~% =:-\u00e9\u4e2d'
NAMES = ['my image.hdr', "it's.hdr", 'a"b.hdr', 'x$HOME.hdr', 'a;b.hdr', 'a&b.hdr', 'a|b.hdr', 'back\\slash.hdr',
         'st*r.hdr', 'q?.hdr', 'br[1].hdr', 'par(1).hdr', '!x.hdr', 'a:b.hdr', 'hash#1.hdr', 'per%cent.hdr', '~t.hdr',
         'u\u00e9\u4e2d.hdr', 'a=b.hdr', 'two  sp.hdr', ' lead.hdr', 'trail.hdr ', 'a`b`.hdr', "a'b\"c.hdr", 'noext',
         'd.o.t.s.hdr', './-dash.hdr', 'sub dir/im age.hdr', 'tab\tname.hdr', 'a,b+c@d.hdr', '{x}.hdr', '$(x).hdr',
         'VIEW= -vta.hdr', 'X 3.hdr', 'long' * 40 + '.hdr', 'cannot.hdr', '<in>.hdr', '../w/up.hdr']


def random_line(r):
    while True:
        s = ''.join(r.choice(ALPHA) for _ in range(r.randint(1, 40)))
        if s.strip() and not s.lstrip().startswith(("#?", "FORMAT=")) and s.strip() not in ("cannot open",):
            return s


def usable(s):
    return s not in ('cannot open', 'bad header!x')


def concrete(r):
    return r.choice([x for x in LINES if usable(x)]) if r.random() < .7 else random_line(r)


def hist(rec, n, case):
    r = pyrng("d04", n)
    lines = {i: concrete(r) for i in "12"}
    fn = {f: f"{f}{n}.hdr" for f in "ab"}
    if r.random() < .3:
        fn["a"] = f"{n} " + os.path.basename(r.choice(NAMES))
        fn["a"] = fn["a"].replace("/", "")
    expo = {}
    ar = {f: rng("d04a", n, i).uniform(.1, 5, (3, 3, 2) if (n + i) % 3 else (3, 2)) for i, f in enumerate("ab")}
    evs = []
    rec.begin({"hist": case, "lines": lines, "names": fn})
    live = []

    def put(f, ls):
        a = ar[f]
        # a picture that says it was exposed holds the values after exposure
        expo[f] = 1
        for x in ls:
            if x.startswith("EXPOSURE="):
                expo[f] *= float(x[9:])
        return getattr(rio, "array2hdr" if (n % 2 or a.ndim == 2) else "carray2hdr")(a, fn[f], header=ls)

    for st in case:
        f, g = st["f"], st["g"]
        ls = [lines[i] for i in st["ls"]]
        if st["op"] == "write":
            e = event("write", lambda: {"ret": put(f, ls)}, f=fn[f], given=ls)
        else:
            h = []
            try:
                h = rio.hdr_header(fn[g])
            except Exception:
                pass
            e = event("derive", lambda: {"ret": put(f, list(h) + ls)}, f=fn[f], g=fn[g], given=list(h) + ls, **{"from": h})
        evs.append(e)
        if f not in live:
            live.append(f)
        for x in live:
            def rd():
                h = rio.hdr_header(fn[x])
                i1, o = rio.hdr2array(fn[x], header=True)
                i2, oc = rio.hdr2carray(fn[x], header=True)
                a = ar[x] if ar[x].ndim == 3 else np.stack([ar[x]] * 3)
                px = i2.shape == a.shape and np.allclose(i2 * expo[x], a, atol=.02 * a.max()) and i1.shape == a.shape[1:]
                return {"h": h, "o": o, "oc": oc, "px": bool(px)}
            evs.append(event("read", rd, f=fn[x]))
    rec.chain(evs)


def one(rec, line, k):
    """a single line, alone and among others, written and read"""
    evs = []
    rec.begin({"line": line})
    f = f"one{k}.hdr"
    ls = [line] if k % 2 else ["first=1", line, "last=2"]
    evs.append(event("write", lambda: {"ret": rio.carray2hdr(np.ones((3, 2, 2)), f, header=ls)}, f=f, given=ls))

    def rd():
        h = rio.hdr_header(f)
        i1, o = rio.hdr2array(f, header=True)
        i2, oc = rio.hdr2carray(f, header=True)
        ex = float(line[9:]) if line.startswith("EXPOSURE=") else 1
        return {"h": h, "o": o, "oc": oc, "px": bool(np.allclose(i2 * ex, 1, atol=.01))}
    evs.append(event("read", rd, f=f))
    rec.chain(evs)


def look(f):
    """everything the library reads from a picture file, as text"""
    out = []
    out.append(repr(imagetools.img_size(f)))
    out.append(repr(rio.is_hdr(f)))
    a = rio.hdr2array(f)
    c = rio.hdr2carray(f)
    out.append(repr((a.shape, a.sum(), c.shape, c.tolist())))
    out.append(repr(rio.hdr_header(f)[1:]))
    out.append(repr(rio.hdr_header(f, items=["exposure", "view"])))
    vm, vp = imagetools.hdr2vm(f, vpt=True)
    out.append(repr((vm.dxyz.tolist(), vm.viewangle, vp)))
    v, o, lum = imagetools.hdr2vol(f, color=True)
    out.append(repr((v.sum(0).tolist(), o.sum(), lum.sum())))
    out.append(repr(imagetools.imgmetric(f, ["illum", "avglum"]).tolist()))
    g = hvsgsm.GSS(f)
    out.append(repr((float(np.sum(g.lum)), g.vm.dxyz.tolist())))
    return out


def made(f, tag):
    """pictures made from a picture, read back under the name they were given"""
    out = []
    for fn, kw in ((imagetools.hdr_ang2uv, {}), (imagetools.hdr_uv2ang, {}), (imagetools.hdr_solid2ang, {}),
                   (imagetools.hdr_rotate, {"rotate": 90})):
        g = os.path.join(os.path.dirname(f), tag + os.path.basename(f))
        r = fn(f, outf=g, **kw)
        out.append(repr((r == g, rio.hdr2carray(g).tolist())))
        os.remove(g)
    return out


def named(rec, k, name):
    r = rng("d04n", k)
    a = r.uniform(.5, 20, (3, 6, 6))
    hd = ["EXPOSURE=2.0", "VIEW= -vta -vd 1 0 0 -vh 180 -vv 180 -vp 1 2 3"]
    plain = f"plain{k}.hdr"
    d = f"d{k}"
    os.makedirs(os.path.join(d, "w", os.path.dirname(name)), exist_ok=True)
    cwd = os.getcwd()

    def go():
        os.chdir(os.path.join(d, "w"))
        try:
            rio.carray2hdr(a, plain, header=hd)
            rio.carray2hdr(a, name, header=hd)
            same = os.path.isfile(name)
            return {"plain": ["True"] + look(plain) + made(plain, "m_"),
                    "nasty": [repr(same)] + look(name) + made(name, "m_")}
        finally:
            os.chdir(cwd)
    rec.call("name", go, name=name)
    shutil.rmtree(os.path.join(cwd, d), ignore_errors=True)


def main():
    rec = Rec()
    for n, c in enumerate(rec.cases):
        hist(rec, n * 8 + rec.shard, c)
    for k, ln in enumerate(LINES):
        if rec.mine() and usable(ln):
            one(rec, ln, k)
    for k, nm in enumerate(NAMES):
        if rec.mine():
            named(rec, k, nm)
    rec.end()


if __name__ == "__main__":
    main()
