from checks import hist
from checks.hist import run  # noqa: F401

MIX = [dict(), dict(), dict(opts=("lb", "gen", "bin")), dict(kinds=["noise", "nanpart", "penal", "hash"]), dict(kinds=["plateau", "hash", "stairs"], init=True)]


def check(V, scratch):
    hist.check(V, scratch, "C02", MIX, gens=("costs", "deep", "signs", "three"), designs=("one", "runs", "nbh"))
