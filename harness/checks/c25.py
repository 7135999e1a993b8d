import vlib
from checks import hist, pool
from checks.common import Background, drive


def failing(c, rng):
    """Histories in which objectives raise at every possible iteration."""
    ops = []
    for _ in range(int(rng.integers(1, 4))):
        it = int(rng.integers(1, 7))
        ops.append(["run", it, {"fail": int(rng.integers(0, it))}])
        if rng.random() < 0.4:
            ops.append(["reset", {"seed": int(rng.integers(1 << 30))}])
        if rng.random() < 0.8:
            ops.append(["run", int(rng.integers(1, 6)), {}])
    ops.append(["run", 3, {}])
    c["ops"] = ops


MIX = [dict(post=failing), dict(post=failing, tol=False), dict(post=failing, opts=("gen", "bin", "lb")), dict(post=failing, bounded=True)]


def run(sc):  # noqa: F811
    return {"pool_fail": pool.run_fail, "pool_again": pool.run_again}.get(sc.get("kind"), hist.run)(sc)


def check(V, scratch):
    bg = Background(pool.design, V, scratch, True)
    hist.check(V, scratch, "C25", MIX, gens=(), designs=("one", "runs"))
    bg.join()
    drive(V, pool.fail_scenarios(vlib.tier() == "thorough", vlib.seed()) + pool.again_scenarios(vlib.tier() == "thorough", vlib.seed(), True), scratch, "PoolTrace", shards=1, workers=4)
