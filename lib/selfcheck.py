"""the Java overrides agree with the TLA+ definitions of spec/Big.tla"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt

CFG = "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANT Rows = %s\n"
n = sys.argv[1] if len(sys.argv) > 1 else "3"


def rows(r):
    if not r.ok:
        print(r.out[-4000:])
        sys.exit(2)
    o = r.out
    return sorted(x.split("Finished")[0].strip() for x in
                  " ".join(o[o.find("<<"):].split()).split('<< "ROW"')[1:])


a = rows(vt.tlc("BigCheck", cfgtext=CFG % n))
b = rows(vt.tlc("BigCheck", cfgtext=CFG % n, pure=True, timeout=1500))
if a != b or len(a) != int(n):
    print("override mismatch", len(a), len(b))
    sys.exit(2)
if int(n) < 40 and not vt.tlc("BigCheck", cfgtext=CFG % "40").ok:
    sys.exit(2)
print("selfcheck ok: overrides match the definitions on", n, "rows")
