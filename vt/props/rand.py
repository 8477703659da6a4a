"""P20: random composite programs."""
import random
from ..check import Comb
from ..gen import program, Opts


def composite(tier, rng):
    n = 1200 if tier == "quick" else 12000
    out = []
    for i in range(n):
        r = random.Random(rng.getrandbits(64))
        src, top, ins, t, f = program(r, f"{i}", depth=r.choice([2, 3, 3, 4, 4, 5]))
        out.append(Comb(f"prog{i}", src, top, ins, t, f))
    return out
