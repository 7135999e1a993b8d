"""Bounded search: every evaluated and recorded position is inside."""
import numpy as np

import vlib
from checks import c07, hist
from checks.common import Background, drive

BH = c07.STRATS + ["random"]


def wild(c, rng):
    c["options"].update(c1=float(rng.integers(0, 60)), c2=float(rng.integers(0, 60)), w=float(rng.uniform(-3, 9)))


def run(sc):
    k = sc.get("kind")
    if k == "far":
        return far(sc)
    if k == "reject":
        return reject(sc)
    return hist.run(sc)


def far(sc):
    """A handler over a run of moves of every magnitude."""
    from pyswarms.backend.handlers import BoundaryHandler

    rng = np.random.default_rng(sc["seed"])
    n, d = sc["n"], sc["d"]
    lb = np.array(sc["lb"])
    ub = np.array(sc["ub"])
    b = c07.bounds_as(lb, ub, sc["as"])
    lb, ub = np.asarray(b[0], float), np.asarray(b[1], float)
    bh = BoundaryHandler(strategy=sc["strat"])
    x = np.clip(lb + (ub - lb) * rng.random((n, d)), lb, ub)
    y = np.asarray(bh(x.copy(), b), dtype=float)
    out = []
    for t in range(8):
        if y.shape != (n, d):
            out.append(dict(sid=sc["sid"], k="fact", clause="C06.shape", ok=False))
            return out
        step = (ub - lb) * rng.normal(size=(n, d)) * 10.0 ** rng.integers(-3, sc["mag"], size=(n, 1))
        step[rng.random((n, d)) < 0.3] = 0
        y = np.array(bh(y + step, b), dtype=float)
        out.append(dict(sid=sc["sid"], k="fact", clause="C06.far", ok=c07.oob(y, lb, ub) == 0))
    return out


def reject(sc):
    """Explicit initial positions outside of the bounds are refused."""
    import pyswarms as ps
    import pyswarms.backend as P
    import pyswarms.backend.topology as T

    rng = np.random.default_rng(sc["seed"])
    n, d = sc["n"], sc["d"]
    lb = rng.integers(-4, 3, size=d).astype(float)
    ub = lb + rng.integers(1, 5, size=d)
    b = c07.bounds_as(lb, ub, sc["as"])
    opts = dict(c1=0.5, c2=0.5, w=0.5, k=1, p=2)
    makers = dict(
        gb=lambda p: ps.single.GlobalBestPSO(n, d, opts, bounds=b, init_pos=p),
        lb=lambda p: ps.single.LocalBestPSO(n, d, opts, bounds=b, init_pos=p),
        gen=lambda p: ps.single.GeneralOptimizerPSO(n, d, opts, T.Star(), bounds=b, init_pos=p),
        swarm=lambda p: P.generate_swarm(n, d, bounds=b, init_pos=p),
        create=lambda p: P.create_swarm(n, d, bounds=b, init_pos=p))
    out = []
    for name, mk in makers.items():
        good = lb + (ub - lb) * rng.integers(0, 5, size=(n, d)) / 4
        try:
            mk(good.copy())
            ok = True
        except Exception:
            ok = False
        out.append(dict(sid=sc["sid"], k="fact", clause="C06.accepted", ok=ok))
        for side in (0, 1):
            for far_ in (0, 2.0 ** -40, 2.0 ** -30, 1.0, 1e6):
                bad = good.copy()
                i, j = int(rng.integers(n)), int(rng.integers(d))
                bad[i, j] = ub[j] + far_ if side else lb[j] - far_
                if not far_:
                    bad[i, j] = np.nextafter(bad[i, j], np.inf if side else -np.inf)
                try:
                    mk(bad)
                    ok = False
                except Exception:
                    ok = True
                out.append(dict(sid=sc["sid"], k="fact", clause="C06.rejected", ok=ok))
    return out


MIX = [dict(bounded=True, opts=("gb", "lb", "gen"), iters=8), dict(bounded=True, opts=("gb", "lb", "gen"), post=wild, iters=8),
       dict(bounded=True, opts=("gb", "lb", "gen"), post=wild, clamp=True), dict(bounded=True, opts=("gen",), init=True)]


def extra(seed, thor):
    import gen

    rng = np.random.default_rng([seed, 66])
    out = []
    for i in range(600 if thor else 72):
        d = int(rng.integers(1, 5) if i % 7 else rng.integers(20, 60))
        bd = gen.bounds_of(rng, d)
        out.append(dict(kind="far", strat=BH[i % 6], n=int(rng.integers(1, 6) if i % 5 else rng.integers(100, 400)), d=d, lb=bd["lb"], ub=bd["ub"], mag=int(rng.choice([1, 4, 9])),
                        seed=int(rng.integers(1 << 30)), sid=200000 + i, **{"as": {"intarray": "int"}.get(bd["as"], bd["as"])}))
    for i in range(40 if thor else 8):
        out.append(dict(kind="reject", n=int(rng.integers(1, 6)), d=int(rng.integers(1, 5)), seed=int(rng.integers(1 << 30)), sid=300000 + i,
                        **{"as": c07.pickas(rng)}))
    return out


def check(V, scratch):
    bg = Background(c07.design, V, scratch)
    hist.check(V, scratch, "C06", MIX, gens=(), designs=(), extra=extra)
    bg.join()
