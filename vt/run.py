"""python3-vt -m vt.run <property>"""
import os
import random
import sys

from . import check


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
        os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rng = random.Random(seed)
    from .props import REGISTRY

    REGISTRY[prop](tier, rng)


main()
