#!/usr/bin/env python3
"""python3 check.py C01 : decide one property (VERIF_TIER=quick|thorough)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
import vt  # noqa: E402


def main(pid):
    ck = vt.Check(pid)
    try:
        importlib.import_module(pid.lower()).run(ck)
    except vt.CheckError as ex:
        if ck.failures:      # a definite violation was found before the trouble
            print(ex, file=sys.stderr)
            return ck.finish()
        print("CHECK-ERROR", pid, ex, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ck.finish()


if __name__ == "__main__":
    if "--thorough" in sys.argv:
        sys.argv.remove("--thorough")
        os.environ["VERIF_TIER"] = "thorough"
    sys.exit(main(sys.argv[1]))
