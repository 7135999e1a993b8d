import numpy as np

import vlib
from checks import twin, twins
from checks.common import Background, drive

KEEP_LOGGING = True
run = twin.run


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(twins.design, V, scratch)
    rng = np.random.default_rng([vlib.seed(), 20])
    drive(V, twins.finish("C20", [twins.c20(rng, i) for i in range(2500 if thor else 180)]), scratch, "TwinTrace", total=3000, vtimeout=3000)
    bg.join()
