import numpy as np

import vlib
from checks import topo
from checks.common import Background, drive

run = topo.run


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(topo.design, V, scratch)
    rng = np.random.default_rng([vlib.seed(), 4])
    drive(V, topo.c04(rng, 8000 if thor else 700), scratch, "TopologyTrace", total=3000, vtimeout=3000)
    bg.join()
