"""C29: the search path."""
import json
import os
import subprocess
import sys

from base import *
import raytools

rec = Rec()
HERE = os.path.dirname(raytools.__file__)


def path():
    return os.environ["RAYPATH"].split(os.pathsep)


def rest():
    return ({k: v for k, v in os.environ.items() if k != "RAYPATH"}, os.getcwd(), list(sys.path))


def user(first):
    if first:
        os.environ["RAYPATH"] = os.pathsep.join(first)
    else:
        os.environ.pop("RAYPATH", None)
    return {"k": "user", "exc": "", "path": first}


def call(b, s):
    def go():
        before = rest()
        if s == "cal" and pyrng(s, b[1], rec.n).random() < .5:
            raytools.set_raypath(b[0] + "/" + b[1])
        elif s == "cal":
            raytools.set_raypath(basefile=b[0] + "/" + b[1], subd="cal")
        else:
            raytools.set_raypath(b[0] + "/" + b[1], None if s == "-" else s)
        return dict(path=path(), same=before == rest())
    return event("call", go, base=b, subd=s)


def imported(first, prog, what):
    def go():
        env = {k: v for k, v in os.environ.items() if k != "RAYPATH"}
        if first:
            env["RAYPATH"] = os.pathsep.join(first)
        prog2 = ("import os, sys, json\nb = {k: v for k, v in os.environ.items() if k != 'RAYPATH'}\nc = os.getcwd()\n" + prog
                 + "\na = {k: v for k, v in os.environ.items() if k != 'RAYPATH'}\n"
                 "print(json.dumps([os.environ['RAYPATH'].split(os.pathsep), a == b and c == os.getcwd()]))")
        out = json.loads(subprocess.run([sys.executable, "-c", prog2], env=env, capture_output=True, text=True, check=True).stdout)
        return dict(path=out[0], same=out[1])
    rec.begin({"k": "import", "what": what, "first": first})
    rec.chain([{"k": "user", "exc": "", "path": first},
               event("import", go, base=[HERE, "__init__.py"], subd="cal", what=what)])


for i, c in enumerate(rec.cases):
    rec.begin({"k": "case", **c})
    rec.n += 1
    evs = [user(c["first"])]
    for b, s in c["h"]:
        evs.append(call(b, s))
    # once more
    b, s = c["h"][-1]
    evs.append(call(b, s))
    if i % 3 == 0:
        evs.append(event("call", lambda: (raytools.set_raypath(), dict(path=path(), same=True))[1], base=[HERE, "__init__.py"], subd="cal"))
    rec.chain(evs)
firsts = [c["first"] for c in rec.cases[:: max(1, len(rec.cases) // (12 if THOROUGH else 3))]]
for first in [[]] + firsts:
    imported(first, "import raytools", "import")
imported(["/a", HERE + "/cal", "/a", "."], "import raytools\nimport importlib\nimportlib.reload(raytools)", "import twice")
imported(["/lib"], "from raytools import io, translate, imagetools\nfrom raytools.mapper import ViewMapper", "import parts")
rec.end()
