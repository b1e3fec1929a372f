def run(ck):
    if ck.thorough:
        cases = ck.generate("Views", minstates=300, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            'CONSTANTS Kinds = {"view", "rvu", "other", "text"} MaxLines = 3 Shapes = {"square", "wide", "tall"}\n'
                            "INVARIANTS NoneIff Emit\nPROPERTIES Step\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Views", minstates=300)
    chains = ck.drive("d14.py", cases, shards=8, timeout=850)
    ck.judge("ViewsTrace", chains, timeout=850)
