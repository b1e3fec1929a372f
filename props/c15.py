THOROUGH = ("SPECIFICATION Spec\nCONSTANTS Cells = {1, 2, 3, 4, 5, 6} Lums = {1, 2, 3, 4}\n"
            "INVARIANTS Order Parts Bounds Scales Glare Emit\nCHECK_DEADLOCK FALSE\n")


def run(ck, driver="d15.py"):
    cases = ck.generate("Metrics", minstates=2000)
    if ck.thorough:
        ck.model("Metrics", cfgtext=THOROUGH.replace("4, 5, 6} Lums = {1, 2, 3, 4}", "6} Lums = {1, 2, 3, 4}").replace("Emit", ""),
                 minstates=5000, timeout=850)
    chains = ck.drive(driver, cases, shards=8, timeout=850)
    ck.judge("MetTrace", chains, timeout=850)
