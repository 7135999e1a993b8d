from checks import hist, pool
from checks.common import Background, drive
import vlib


def run(sc):
    return {"pool": pool.run, "pool_again": pool.run_again}.get(sc.get("kind"), hist.run)(sc)


MIX = [dict(), dict(tol=True), dict(opts=("lb", "gen", "bin")), dict(kinds=["noise", "nanpart"])]


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(pool.design, V, scratch, False)
    hist.check(V, scratch, "C13", MIX, gens=("costs", "window1"), designs=("one",), quick=300)
    bg.join()
    drive(V, pool.scenarios(V, scratch, thor, vlib.seed()) + pool.again_scenarios(thor, vlib.seed(), False), scratch, "PoolTrace", shards=2, workers=4)
