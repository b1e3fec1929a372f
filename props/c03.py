def run(ck):
    cases = ck.generate("HdrM", minstates=100000)
    chains = ck.drive("d03.py", cases, shards=8)
    ck.judge("HdrTrace", chains)
