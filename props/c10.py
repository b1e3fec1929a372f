import random


def run(ck):
    if ck.thorough:
        cases = ck.generate("View", minstates=20000, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS R = 2 Angles = {10, 30, 60, 90, 137, 180, 360} G = 6\n"
                            "INVARIANTS FrameSound SameAsYp Opening PosBack Equiangular Whole UvBack UvMid Emit\n"
                            "CHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("View", minstates=7000)
    chains = ck.drive("d10.py", cases, shards=8, timeout=850)
    ck.judge("ViewTrace", chains)
