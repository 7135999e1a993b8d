import numpy as np

import vlib
from checks import twin, twins
from checks.common import Background, drive

run = twin.run


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(twins.design, V, scratch)
    rng = np.random.default_rng([vlib.seed(), 24])
    drive(V, twins.finish("C24", [twins.c24(rng, i) for i in range(3000 if thor else 260)]), scratch, "TwinTrace", total=3000, vtimeout=3000)
    bg.join()
