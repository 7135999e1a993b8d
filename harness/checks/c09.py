"""Velocity strategies: direct calls and calls by the topologies."""
import itertools

import numpy as np

import vlib
from checks.c07 import make_top, scaled
from checks.common import Background, drive, planted

STRATS = ["unmodified", "invert", "zero", "adjust"]
INV = ["RespectsClamp", "ClampKeepsInside", "OthersAlone", "InvertsOnce", "ZeroesAll", "AdjustIsTheMove"]
TOPS = ["star", "ring", "vn", "random", "pyramid"]
S = 64
SAT = 4e6      # a clamp below does not tell what is beyond


def clamp_of(c):
    if c is None:
        return None
    if isinstance(c[0], list):
        return (np.array(c[0], dtype=float), np.array(c[1], dtype=float))
    return (c[0], c[1])


def line(sc, x, v, y, z=(1, 2), kept=True):
    d = np.shape(v)[1]
    y = np.asarray(y, dtype=float)
    ok = y.shape == np.shape(v)
    lo = hi = []
    if sc["clamp"] is not None:
        lo = scaled(np.broadcast_to(np.array(sc["clamp"][0], float), (1, d)), S)[0]
        hi = scaled(np.broadcast_to(np.array(sc["clamp"][1], float), (1, d)), S)[0]
    v = np.clip(v, -SAT, SAT)
    y = np.nan_to_num(y, nan=7e6, posinf=7e6, neginf=-7e6).clip(-8e6, 8e6)
    # a deviation below the scale is still a deviation
    frac = y * S != np.round(y * S)
    return dict(sid=sc["sid"], k="call", strat=sc["strat"], x=scaled(x, S), v=scaled(v, S),
                y=(np.round(y * S) + np.where(frac, 333333333, 0)).astype(int).tolist() if ok else [],
                lb=scaled([sc["lb"]], S)[0], ub=scaled([sc["ub"]], S)[0], lo=lo, hi=hi, zn=z[0], zd=z[1], shape=bool(ok), kept=bool(kept))


def run(sc):
    return {"direct": direct, "op": op}[sc["kind"]](sc)


def direct(sc):
    from pyswarms.backend.handlers import VelocityHandler

    rng = np.random.default_rng(sc["seed"])
    vh = VelocityHandler(strategy=sc["strat"])
    out = [dict(sid=sc["sid"], k="new")]
    d = len(sc["lb"])
    b = (np.array(sc["lb"], float), np.array(sc["ub"], float))
    for t in range(sc["calls"]):
        if sc.get("grid"):
            pv = list(itertools.product(sc["grid"], sc["grid"]))
            x = np.array([[p] * d if t % 2 else [p] + [b[0][0]] * (d - 1) for p, _ in pv], float)
            v = np.array([[w] * d for _, w in pv], float)
        else:
            n = sc["n"]
            x = np.round(rng.normal(size=(n, d)) * 3) + 0.0
            v = np.round(rng.normal(size=(n, d)) * 8) / 2 + 0.0
            if sc.get("mag"):       # beyond SAT only where velocities are clamped and nothing else
                far = 10.0 ** rng.integers(1, 5 if sc["clamp"] is None or sc["strat"] != "unmodified" else 30, size=(n, 1))
                v = v * np.where(rng.random((n, d)) < 0.6, far, 1)
                x = x * np.where(rng.random((n, d)) < 0.3, 1000, 1)
        kw = {}
        z = (1, 2)
        if sc["strat"] == "invert" and sc.get("z"):
            z = tuple(sc["z"])
            kw["z"] = z[0] / z[1]
        x0 = x.copy()
        bb = (b[0].copy(), b[1].copy())
        cl = clamp_of(sc["clamp"])
        y = vh(v.copy(), cl, position=x, bounds=bb, **kw)
        kept = (x == x0).all() and (bb[0] == b[0]).all() and (bb[1] == b[1]).all()
        out.append(line(sc, x0, v, y, z, kept))
    return out


def op(sc):
    """compute_velocity with both attractions off: w times the velocity."""
    import pyswarms.backend as P
    from pyswarms.backend.handlers import VelocityHandler
    from pyswarms.backend.swarms import Swarm

    rng = np.random.default_rng(sc["seed"])
    n, d = 6, len(sc["lb"])
    vh = VelocityHandler(strategy=sc["strat"])
    b = (np.array(sc["lb"], float), np.array(sc["ub"], float))
    t = make_top(sc["top"]) if sc["top"] != "op" else None
    out = [dict(sid=sc["sid"], k="new")]
    for q in range(4):
        x = np.round(rng.normal(size=(n, d)) * 3) + 0.0
        v = np.round(rng.normal(size=(n, d)) * 8) / 2 + 0.0
        w = [1.0, 0.5, 2.0, -1.0][q]
        sw = Swarm(position=x.copy(), velocity=v.copy(), options=dict(w=w, c1=0.0, c2=0.0))
        sw.pbest_pos = np.round(rng.normal(size=(n, d)) * 3)
        sw.best_pos = np.round(rng.normal(size=d) * 3)
        bb = (b[0].copy(), b[1].copy())
        if t is None:
            y = P.compute_velocity(sw, clamp_of(sc["clamp"]), vh, bb)
        else:
            y = t.compute_velocity(sw, clamp_of(sc["clamp"]), vh, bb)
        out.append(line(sc, x, v * w, y))
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 9])
    sc = []
    rint = lambda: int(rng.integers(1 << 30))  # noqa: E731
    clamps1 = [None, (-1.0, 1.0), (0, 1), (-2.5, 0.5), (-3, 0), (-40, 40)]
    all_clamps = clamps1
    for s in STRATS:
        # a velocity that is set to zero needs a clamp around zero
        clamps1 = all_clamps if s == "zero" else all_clamps[:4] + [(-4, -1), (1.0, 3.0), (2, 2)] + all_clamps[4:]
        for c in clamps1:
            for lb, ub in ((-1, 1), (0, 2)):
                for d in (1, 2):
                    sc.append(dict(kind="direct", strat=s, clamp=c, lb=[lb] * d, ub=[ub] * d, calls=3, grid=[-4, -3, -2, -1, 0, 1, 2, 3, 4]))
        for i in range(400 if thor else 40):
            d = int(rng.integers(1, 5))
            lb = rng.integers(-4, 2, size=d)
            c = clamps1[int(rng.integers(len(clamps1)))]
            if rng.random() < 0.4:
                c = [[-float(v) / 4 for v in rng.integers(0, 20, size=d)], [float(v) / 4 for v in rng.integers(1, 20, size=d)]]
                if s != "zero" and rng.random() < 0.5:
                    c[1] = [u + float(v) / 4 for u, v in zip(c[0], rng.integers(0, 20, size=d))]
            sc.append(dict(kind="direct", strat=s, clamp=c, n=int(rng.integers(1, 8)), lb=lb.tolist(), ub=(lb + rng.integers(1, 6, size=d)).tolist(),
                           calls=5, mag=bool(rng.random() < 0.3), z=[[1, 2], [1, 4], [3, 4], [1, 1], [0, 1], [2, 1]][int(rng.integers(6))] if rng.random() < 0.5 else None))
        for t in TOPS + ["op"]:
            for c in clamps1[:7]:
                d = int(rng.integers(1, 4))
                lb = rng.integers(-3, 2, size=d)
                sc.append(dict(kind="op", strat=s, top=t, clamp=c, lb=lb.tolist(), ub=(lb + rng.integers(1, 5, size=d)).tolist()))
    for i, q in enumerate(sc):
        q["sid"] = i
        q["seed"] = rint()
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    for c in [dict(D=1, V=3, X=3, B=1, C=2, MaxCalls=3), dict(D=2, V=2, X=2, B=1, C=2, MaxCalls=1)] + \
            ([dict(D=2, V=2, X=2, B=1, C=2, MaxCalls=2)] if thor else []):
        V.add_mc("Velocity", vlib.model_check("Velocity", scratch, dict(c, Fault='"none"'), INV, timeout=2000))
    planted(V, scratch, "Velocity", dict(D=2, V=2, X=2, B=1, C=2, MaxCalls=1), INV, ["outer", "above", "lower"])
    planted(V, scratch, "Velocity", dict(D=1, V=3, X=3, B=1, C=2, MaxCalls=3), INV, ["first"])


def check(V, scratch):
    bg = Background(design, V, scratch)
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "VelocityTrace")
    bg.join()
