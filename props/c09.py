def run(ck):
    if ck.thorough:
        cases = ck.generate("Ang", minstates=10000, cfgtext="SPECIFICATION Spec\nCONSTANTS R = 4 Step = 15\n"
                            "INVARIANTS TpBack TpRange AaBack AaTp RotSound ChordSound YpSound FishSound Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Ang", minstates=3000, cfgtext="SPECIFICATION Spec\nCONSTANTS R = 2 Step = 15\n"
                            "INVARIANTS TpBack TpRange AaBack AaTp RotSound ChordSound YpSound FishSound Emit\nCHECK_DEADLOCK FALSE\n")
    # every shard sees all lattice directions
    chains = ck.drive("d09.py", cases * 1, shards=8, timeout=850)
    ck.judge("AngTrace", chains)
