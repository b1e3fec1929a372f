"""Driver side: encode values for TLC, record chains of events."""
import json
import os
import random
import sys
import traceback
from fractions import Fraction

import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
S20 = 10 ** 20


def big(n):
    """an integer as a tuple of Big.tla"""
    n = int(n)
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def fx(x):
    """a real as a fixed-point number of Fx.tla"""
    x = float(x)
    if x != x:
        return [2]
    if x in (float("inf"), float("-inf")):
        return [3] if x > 0 else [-3]
    if x == 0.0:
        return [0]
    n, d = x.as_integer_ratio()
    q, r = divmod(n * S20, d)
    if 2 * r >= d:
        q += 1
    return big(q)


def arr(a):
    """numpy array (or scalar) of reals -> nested lists of fixed-point numbers"""
    a = np.asarray(a)
    if a.ndim == 0:
        return fx(a)
    return [arr(i) for i in a]


def ints(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return int(a)
    return [ints(i) for i in a]


def shp(a):
    return [int(i) for i in np.shape(a)]


def exc_of(ex):
    return type(ex).__name__


class Rec:
    def __init__(self):
        self.cases = json.load(open(sys.argv[1]))
        self.out = open(sys.argv[2], "w")
        self.shard = int(sys.argv[3])
        self.nshards = int(sys.argv[4])
        self.n = 0

    def mine(self):
        """round-robin distribution of self-generated cases over the shards"""
        self.n += 1
        return (self.n - 1) % self.nshards == self.shard

    def begin(self, what):
        self.out.write(json.dumps(["B", what]) + "\n")
        self.out.flush()

    def chain(self, evs):
        self.out.write(json.dumps(["C", evs]) + "\n")
        self.out.flush()

    def call(self, k, fn, **inp):
        """one single-event chain: inp plus what fn returns (a dict), or exc"""
        self.begin({"k": k, **inp})
        self.chain([event(k, fn, **inp)])

    def end(self):
        self.out.write('["END"]\n')
        self.out.close()


def event(k, fn, **inp):
    e = {"k": k, "exc": ""}
    e.update(inp)
    try:
        e.update(fn())
    except Exception as ex:          # the specification decides whether it may
        e["exc"] = exc_of(ex)
        e["msg"] = str(ex)[:300]
        if os.environ.get("VT_DEBUG"):
            traceback.print_exc()
    return e


def rng(*salt):
    return np.random.default_rng([SEED] + [abs(hash(s)) % (2 ** 31) if not isinstance(s, int) else s for s in salt])


def pyrng(*salt):
    return random.Random(repr((SEED,) + salt))


def f32(x):
    """a binary32 value as [n, k], value n * 2^k with n odd (or [0, 0])"""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return [-7, 7]
    n, d = x.as_integer_ratio()
    if n == 0:
        return [0, 0]
    k = -(d.bit_length() - 1)
    while n % 2 == 0:
        n //= 2
        k += 1
    if abs(n) >= 2 ** 30:
        return [-7, 8]
    return [n, k]


def f32a(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return f32(a)
    return [f32a(i) for i in a]
