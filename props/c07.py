def run(ck):
    cases = ck.generate("SC", minstates=2000)
    if ck.thorough:
        ck.model("SC", cfgtext=open_cfg().replace("N = 24", "N = 72").replace("391", "391, 17"), minstates=15000)
    chains = ck.drive("d07.py", cases, shards=8, timeout=850)
    ck.judge("SCTrace", chains)


def open_cfg():
    import os
    from vt import SPEC
    with open(os.path.join(SPEC, "SC.cfg")) as f:
        return f.read().replace(" Emit", "")
