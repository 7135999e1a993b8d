import numpy as np

import vlib
from checks import twin, twins
from checks.common import Background, drive

run = twin.run


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(twins.design, V, scratch)
    rng = np.random.default_rng([vlib.seed(), 19])
    S = twins.scripts(V, scratch, length=7 if thor else 6)
    S2 = twins.scripts(V, scratch, kinds='{"call"}', length=9)
    sc = [twins.c19(rng, i, S) for i in range(4000 if thor else 260)] + [twins.c19_objects(rng, i, S2) for i in range(1500 if thor else 150)]
    drive(V, twins.finish("C19", sc), scratch, "TwinTrace", total=3000, vtimeout=3000)
    bg.join()
