import numpy as np

import vlib
from checks import hist, topo
from checks.common import Background, drive


def run(sc):
    return topo.run(sc) if sc.get("kind") == "topo" else hist.run(sc)


G = dict(opts=("gen",), kinds=["noise", "hash", "plateau", "raw"])
MIX = [dict(G, top="ring", n=7), dict(G, top="random", n=8), dict(G, top="pyramid", n=9, d=2), dict(G, top="vn", n=10),
       dict(opts=("lb",), n=6), dict(G, top="ring"), dict(G, top="star"), dict(opts=("lb", "bin"), kinds=["noise", "hash"])]


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(topo.design, V, scratch)
    hist.check(V, scratch, "C05", MIX, gens=(), designs=("nbh",), quick=480)
    rng = np.random.default_rng([vlib.seed(), 5])
    drive(V, topo.c05(rng, 4000 if thor else 300), scratch, "TopologyTrace", total=3000, vtimeout=3000)
    bg.join()
