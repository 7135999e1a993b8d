import numpy as np

from checks import hist
from checks.hist import run  # noqa: F401


def patient(c, rng):
    """Windows longer than the usual run, and plateaus of about their length."""
    it = 70
    c["ftol"], c["ftol_iter"] = [1, 1024], int(rng.choice([6, 9, 14, 17, 22, 33, 48]))
    drop = np.zeros(it + 3, dtype=int)
    drop[rng.integers(0, 25, size=3)] = 80
    c["objective"] = dict(kind="stairs", seed=int(rng.integers(1 << 30)), drop=[int(v) for v in drop])
    c["ops"] = [["run", it, {}], ["run", int(rng.integers(10, it)), {}]]


K = ["stairs", "plateau", "hash", "noise", "quad", "penal"]
MIX = [dict(tol=True, kinds=K, iters=12), dict(tol=True, kinds=["stairs"], iters=25, n=3), dict(tol=True, kinds=K, opts=("gen", "lb", "bin")),
       dict(tol=True, post=patient, n=2, d=1), dict(tol=False), dict(tol=True, kinds=["stairs", "plateau"], iters=6)]


def check(V, scratch):
    hist.check(V, scratch, "C12", MIX, gens=("window1", "window2", "window3", "window0", "windowS", "windowS2", "costs"), designs=("window", "one"))
