import c15


def run(ck):
    c15.run(ck, "d17.py")
