import numpy as np

import vlib
from checks import hist, twin, twins
from checks.common import Background, drive


def run(sc):
    return twin.run(sc) if sc.get("kind") == "twin" else hist.run(sc)


def again(c, rng):
    """Many runs and resets of one optimiser."""
    ops = []
    for _ in range(int(rng.integers(2, 6))):
        if ops and rng.random() < 0.4:
            ops.append(["reset", {"seed": int(rng.integers(1 << 30))}])
        ops.append(["run", int(rng.integers(1, 5)), {}])
    ops.append(["reset", {"seed": int(rng.integers(1 << 30))}])
    c["ops"] = ops


MIX = [dict(), dict(post=again), dict(post=again, init=True), dict(post=again, bounded=True, clamp=True)]


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(twins.design, V, scratch)
    hist.check(V, scratch, "C14", MIX, gens=(), designs=("runs",), quick=240, thorough=3000)
    rng = np.random.default_rng([vlib.seed(), 14])
    drive(V, twins.finish("C14", [twins.c14(rng, i) for i in range(3000 if thor else 240)]), scratch, "TwinTrace", total=3000, vtimeout=3000)
    bg.join()
