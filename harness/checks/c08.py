from checks import c09, hist
from checks.common import Background, drive


def run(sc):
    return c09.run(sc) if sc.get("kind") in ("direct", "op") else hist.run(sc)


def wild(c, rng):
    c["options"].update(c1=float(rng.integers(0, 60)), c2=float(rng.integers(0, 60)), w=float(rng.uniform(-3, 6)))


VH = ["unmodified", "invert", "zero", "adjust"]
MIX = [dict(clamp=True), dict(clamp=True, post=wild)] + \
      [dict(clamp=True, bounded=True, vh=v, opts=("gb", "lb", "gen"), iters=12) for v in VH] + \
      [dict(clamp=True, opts=("bin",), iters=12), dict(clamp=True, vh="adjust", bounded=False, opts=("gb", "lb", "gen"), iters=12)]


def check(V, scratch):
    import vlib

    bg = Background(c09.design, V, scratch)
    hist.check(V, scratch, "C08", MIX, gens=(), designs=())
    drive(V, [s for s in c09.scenarios(vlib.tier() == "thorough", vlib.seed()) if s["clamp"] is not None], scratch, "VelocityTrace")
    bg.join()
