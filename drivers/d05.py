"""C05: header cleaning and lookup"""
import sys

import numpy as np
from base import Rec, pyrng, THOROUGH

try:
    from raytools import io as rio, imagetools
except Exception:
    print("DRIVER-IMPORT", file=sys.stderr)
    raise

NOISE = ["pvalue -r -b -h -H -df -o -y 2 +x 3", "FORMAT=32-bit_rle_rgbe", "pvalue -h", "FORMAT=32-bit_rle_xyze"]


def tok(d, t, k="", s="", v=""):
    return dict(d=d, t=t, k=k, s=s, v=v, vl=v.lstrip())


def render(ls, r, plain=False):
    """the text of a header; where the meaning is the same the text varies"""
    out = []
    for ln in ls:
        ind = "\t" * ln["d"]
        if not plain and r.random() < .3:
            ind = "    " * ln["d"] if r.random() < .5 else ind + " " * r.choice([0, 1, 2])
        if ln["t"] == "file":
            tx = ln["k"] + ":"
            if ln["k"] == "<stdin>":
                tx = r.choice(["/tmp/clasp_tmp_a1", "clasp_tmp", "./x/clasp_tmp99", "<stdin>"]) + ":"
            elif not plain and r.random() < .3:
                tx = r.choice(["dir/", "/a/b c/", "./"]) + tx
        elif ln["t"] == "noise":
            tx = r.choice(NOISE)
        elif ln["t"] == "view":
            tx = "VIEW=" + ln["v"]
        else:
            v = ln["v"]
            while "<stdin>" in v:
                v = v.replace("<stdin>", r.choice(["/tmp/clasp_tmp_b2", "clasp_tmpQ", "<in>"]), 1)
            v = v.replace("<in>", "<stdin>")
            s = ln["s"]
            if s == " " and not plain and r.random() < .3:
                s = r.choice(["  ", "\t"])
            tx = ln["k"] + s + v
        if not plain and r.random() < .2:
            tx += r.choice([" ", "\t", "  "])
        out.append(ind + tx)
    return out


def clean(rec, ls, salt, text=None):
    r = pyrng("d05", salt)
    text = text or render(ls, r)

    def go():
        out = rio.clean_header(list(text))
        return {"out": out, "out2": rio.clean_header(list(out)),
                "out3": rio.CleanHeader("\n".join(text)).header}
    rec.call("clean", go, ls=ls, text=text)


KEYS = ["SOFTWARE", "CAPDATE", "GAMMA", "EXPOSURE", "COLORCORR", "PRIMARIES", "LuminanceRGB", "lower", "Mixed-Case", "x_1", "a b"]
VALS = ["1", "2.5", " RADIANCE 5.4", "2020:01:02 03:04:05", "0.265 0.67 0.065", "", " spaced  out ", "\u00e9\u4e2d", "a=b", "-1e-05",
        "'quoted \"text\"'"]
CMDS = ["pfilt", "rpict", "oconv", "pcomb", "getinfo", "a"]
ARGS = ["-1 -e 2", "-vta -vh 180 scene.oct", "<stdin> -o out.hdr", "x <stdin> <stdin>", "-e 'ro=ri(1)'", "", "in.rad"]
NAMES = ["f1.hdr", "second.hdr", "noext", "<stdin>", "with space.hdr", "f1.hdr"]
VIEWS = [" -vta -vd 0 1 0 -vh 180 -vv 180", " -vtv -vp 1 2 3", " -vth", "-vta -vh 90 -vv 90"]


def random_header(r, n, wrapfree):
    ls, sec, prev = [], -1, None
    for _ in range(n):
        d = r.randint(0, sec + 1) if r.random() < .5 else sec + 1
        d = min(d, 5)
        c = r.random()
        if c < .22:
            ls.append(tok(d, "file", r.choice(NAMES)))
            sec = d
            continue
        if c < .3:
            ls.append(tok(d, "view", v=r.choice(VIEWS)))
            continue
        if c < .38:
            ls.append(tok(d, "noise"))
            continue
        while True:
            if r.random() < .6:
                t = tok(d, "item", r.choice(KEYS), "=", r.choice(VALS).rstrip())
                if t["k"] in ("EXPOSURE", "COLORCORR"):
                    t["v"] = r.choice(["2", "0.5"]) if t["k"] == "EXPOSURE" else " 1 2 1"
                    t["vl"] = t["v"].lstrip()
            else:
                a = r.choice(ARGS)
                t = tok(d, "item", r.choice(CMDS), " " if a else "", a)
                if "=" in a:
                    k, v = (t["k"] + " " + a).split("=", 1)
                    t = tok(d, "item", k, "=", v)
            same = prev is not None and t["k"] == prev["k"] and (t["s"], t["v"]) != (prev["s"], prev["v"])
            if not (wrapfree and same):
                break
        if (t["k"] + t["s"] + t["v"]).endswith(":"):
            continue
        ls.append(t)
        prev = t
        if d <= sec:
            sec = d - 1
    return ls


def look(rec, ls, salt):
    r = pyrng("d05l", salt)
    text = render(ls, r, plain=True)
    keys = []
    for t in ls:
        if t["t"] == "item" and t["k"].lower() not in keys:
            keys.append(t["k"].lower())
    keys += ["view", "nothere"]
    r.shuffle(keys)
    keys = keys[:r.randint(1, len(keys))]
    ask = [r.choice([k, k.upper(), k.title()]) for k in keys]
    # the value the specification finds may be a joined one
    vals = {t["v"] for t in ls}
    low = sorted({(t["k"], t["k"].lower()) for t in ls} | {("VIEW", "view")})
    strip = sorted((v, v.strip()) for v in vals)
    rec.call("look", lambda: {"r": rio.header_items(list(text), list(ask))}, ls=ls, keys=keys, ask=ask,
             low=[list(x) for x in low], strip=[list(x) for x in strip])


def wrap(rec, salt):
    r = pyrng("d05w", salt)
    word = lambda: ''.join(r.choice("abcdefgh0123456789.,'\"()$") for _ in range(r.randint(1, 12)))  # noqa
    text = ["f.hdr:"]
    want = []
    vals = []
    for i in range(r.randint(1, 4)):
        n = r.choice([3, 10, 40, 120])
        ws = [word() for _ in range(n)]
        if r.random() < .6:
            text.append("\tKEY%d=" % i + r.choice(["", " "]) + " ".join(ws))
            want.append("key%d" % i)
            vals.append(" ".join(ws))
        else:
            text.append("\tcmd%d " % i + " ".join(ws))
            want.append("cmd%d" % i)
            vals.append(" ".join(ws))
        text.append("\tsep%d= x" % i)
    width = r.choice([150, 150, 80, 200])

    def go():
        out = rio.CleanHeader(list(text), headerwidth=width).header
        out2 = rio.CleanHeader(list(out), headerwidth=width).header
        got = rio.header_items(out, want) + rio.header_items(text, want)
        return {"longest": max(len(o) for o in out), "out": out, "out2": out2, "got": got}
    rec.call("wrap", go, text=text, width=width, want=vals + vals)


def infile(rec, ls, salt):
    r = pyrng("d05f", salt)
    text = render(ls, r, plain=True)
    # the input picture: its own header is never top level
    ls = [t for t in ls]

    def go():
        p, q = f"i{salt}.hdr", f"o{salt}.hdr"
        a = np.round(rng_(salt).uniform(1, 99, (3, 4, 4)))
        rio.carray2hdr(a, p, header=text)
        b, h = rio.hdr2carray(p, header=True)
        rio.carray2hdr(b, q, header=h, clean=True)
        c = rio.hdr2carray(q)
        rio.carray2hdr(a, "x.hdr", header=text, clean=True)
        return {"h": rio.hdr_header("x.hdr"), "hc": rio.hdr_header(p, clean=True), "want": rio.clean_header(h),
                "px": bool(np.all(np.abs(b - c) <= .01 * np.max(b, axis=0)))}
    rec.call("file", go, ls=ls, text=text)


def rng_(salt):
    return np.random.default_rng(abs(hash(salt)) % 2 ** 31)


def main():
    rec = Rec()
    for n, c in enumerate(rec.cases):
        clean(rec, c, ("g", n * 8 + rec.shard))
    k = 40 if THOROUGH else 6
    for n in range(100 * k):
        if rec.mine():
            r = pyrng("d05r", n)
            clean(rec, random_header(r, r.randint(1, 24), n % 3 > 0), ("r", n))
    for n in range(40 * k):
        if rec.mine():
            r = pyrng("d05k", n)
            look(rec, random_header(r, r.randint(1, 14), True), n)
    for n in range(30 * k):
        if rec.mine():
            wrap(rec, n)
    for n in range(10 * k):
        if rec.mine():
            r = pyrng("d05i", n)
            infile(rec, random_header(r, r.randint(1, 16), True), n)
    rec.end()


if __name__ == "__main__":
    main()
