from checks import hist
from checks.hist import run  # noqa: F401

MIX = [dict(), dict(), dict(kinds=["noise", "nanpart", "penal", "hash"]), dict(tol=True, kinds=["plateau", "hash", "stairs"]), dict(bounded=True)]


def check(V, scratch):
    hist.check(V, scratch, "C11", MIX, gens=("costs", "deep", "signs", "three"), designs=("one", "runs"))
