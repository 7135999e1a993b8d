"""Boundary strategies: direct calls, calls by the topologies, calls in runs."""
import itertools

import numpy as np

import vlib
from checks.common import Background, drive, planted

STRATS = ["nearest", "reflective", "periodic", "intermediate", "shrink"]
INV = ["InBounds", "InsideUnchanged", "ReflectIsRepeatedMirroring", "PeriodicByRange", "ShrinkOnTheMove", "IntermediateHalfway"]
TOPS = ["star", "ring", "vn", "random", "pyramid"]


def scaled(a, S):
    return [[int(v) for v in r] for r in np.round(np.asarray(a, dtype=float) * S)]


def bounds_as(lb, ub, kind):
    if kind == "list":
        return ([float(v) for v in lb], [float(v) for v in ub])
    if kind == "int":
        return (np.array(lb, dtype=int), np.array(ub, dtype=int))
    return (np.array(lb, dtype=float), np.array(ub, dtype=float))


def oob(y, lb, ub):
    y = np.asarray(y, dtype=float)
    return int((~((y >= np.asarray(lb, float)) & (y <= np.asarray(ub, float)))).sum())


def move_line(sid, strat, lb, ub, x, y, S, tol):
    y = np.asarray(y)
    ok = y.shape == np.shape(x)
    return dict(sid=sid, k="move", strat=strat, lb=scaled([lb], S)[0], ub=scaled([ub], S)[0], x=scaled(x, S),
                y=scaled(np.nan_to_num(y.astype(float), nan=1e5, posinf=1e5, neginf=-1e5).clip(-2**29 / S, 2**29 / S), S) if ok else [],
                tol=tol, shape=bool(ok), nob=oob(y, lb, ub) if ok else -1)


def run(sc):
    return {"seq": seq, "grid": grid, "top": top, "draw": draw, "opt": opt_run}[sc["kind"]](sc)


def grid(sc):
    """One handler, all listed particles at once; the first call, with the
    particles inside, is what the handler remembers."""
    from pyswarms.backend.handlers import BoundaryHandler

    S = sc["S"]
    bh = BoundaryHandler(strategy=sc["strat"])
    b = bounds_as(sc["lb"], sc["ub"], sc["as"])
    mem = np.array(sc["mem"], dtype=float)
    x = np.array(sc["x"], dtype=float)
    out = []
    y0 = bh(mem.copy(), b)
    out.append(dict(sid=sc["sid"], k="start", mem=scaled(mem, S)))
    out.append(move_line(sc["sid"], sc["strat"], sc["lb"], sc["ub"], mem, y0, S, 0))
    y = bh(x.copy(), b)
    out.append(move_line(sc["sid"], sc["strat"], sc["lb"], sc["ub"], x, y, S, 0))
    # a second handler is not affected by what the first one remembers
    if sc["strat"] in ("nearest", "reflective", "periodic"):
        y = BoundaryHandler(strategy=sc["strat"])(x.copy(), b)
        out.append(move_line(sc["sid"], sc["strat"], sc["lb"], sc["ub"], x, y, S, 0))
    return out


def seq(sc):
    """Successive moves of one handler, starting from remembered positions."""
    from pyswarms.backend.handlers import BoundaryHandler

    rng = np.random.default_rng(sc["seed"])
    n, d, S, strat = sc["n"], sc["d"], sc["S"], sc["strat"]
    lb = rng.integers(-8, 5, size=d)
    ub = lb + rng.integers(1, 8, size=d)
    if sc["as"] != "int" and sc["seed"] % 5 < 2:     # halves and quarters, also next to zero
        lb = lb + rng.integers(0, 4, size=d) / 4
        ub = ub + rng.integers(0, 4, size=d) / 4
        if sc["seed"] % 5 == 0:
            e = rng.integers(1, 3, size=d) / 4
            r = rng.integers(2, 12, size=d) / 4
            lb, ub = (e, e + r) if rng.random() < 0.5 else (-e - r, -e)
    wide = sc["seed"] % 3 == 0
    if wide:        # a range of another size
        ub[int(rng.integers(d))] += int(rng.integers(40, 250))
    b = bounds_as(lb, ub, sc["as"])
    bh = BoundaryHandler(strategy=strat)
    q = 4
    mem = np.clip(lb + np.floor(rng.random((n, d)) * ((ub - lb) * q + 1)) / q, lb, ub)
    y = bh(mem.copy(), b)
    out = [dict(sid=sc["sid"], k="start", mem=scaled(mem, S)), move_line(sc["sid"], strat, lb, ub, mem, y, S, 0)]
    for t in range(sc["moves"]):
        y = np.array(y, dtype=float)
        if y.shape != (n, d):
            break
        step = np.round(rng.normal(size=(n, d)) * rng.choice([0.5, 3, 12]) * q) / q
        step[rng.random((n, d)) < 0.3] = 0
        x = y + step
        ok = np.abs(x * S).max(axis=1) < (120000 if wide else 8000)
        if strat == "shrink":
            # a short way out together with a long way across cannot be judged in integers
            mv = np.abs(x - y)
            o = (x < lb) | (x > ub)
            ok &= (np.where(o, mv, np.inf).min(axis=1) * 8 > mv.max(axis=1))
            ok &= (np.minimum(np.abs(x - lb), np.abs(x - ub)).min(axis=1) > 4 / S) | (t == 0)
        x[~ok] = y[~ok]
        y2 = bh(x.copy(), b)
        out.append(move_line(sc["sid"], strat, lb, ub, x, y2, S, 0 if strat != "shrink" else 2))
        if strat == "shrink" and oob(y2, lb, ub):
            break
        y = y2
    return out


def make_top(name):
    import pyswarms.backend.topology as T

    return dict(star=T.Star, ring=T.Ring, vn=T.VonNeumann, random=T.Random, pyramid=T.Pyramid)[name]()


def top(sc):
    """compute_position of a topology: position plus velocity, then repaired."""
    from pyswarms.backend.handlers import BoundaryHandler
    from pyswarms.backend.swarms import Swarm

    rng = np.random.default_rng(sc["seed"])
    n, d, S, strat = 6, sc["d"], 64, sc["strat"]
    lb = rng.integers(-6, 3, size=d)
    ub = lb + rng.integers(1, 7, size=d)
    b = bounds_as(lb, ub, sc["as"])
    t = make_top(sc["top"])
    bh = BoundaryHandler(strategy=strat)
    p = lb + np.floor(rng.random((n, d)) * ((ub - lb) * 2 + 1)) / 2
    out = [dict(sid=sc["sid"], k="start", mem=scaled(p, S))]
    sw = Swarm(position=p.copy(), velocity=np.zeros((n, d)))
    y = t.compute_position(sw, b, bh)
    out.append(move_line(sc["sid"], strat, lb, ub, p, y, S, 0))
    v = np.round(rng.normal(size=(n, d)) * sc["speed"] * 2) / 2
    sw = Swarm(position=p.copy(), velocity=v.copy())
    y = t.compute_position(sw, b, bh)
    out.append(move_line(sc["sid"], strat, lb, ub, p + v, y, S, 0))
    # without bounds the position is the sum
    y = t.compute_position(Swarm(position=p.copy(), velocity=v.copy()), None, bh)
    out.append(dict(sid=sc["sid"], k="fact", clause="C07.unbounded", ok=bool(np.shape(y) == (n, d) and (np.asarray(y) == p + v).all())))
    return out


def draw(sc):
    from pyswarms.backend.handlers import BoundaryHandler

    rng = np.random.default_rng(sc["seed"])
    d = sc["d"]
    lb = rng.integers(-6, 3, size=d).astype(float)
    ub = lb + rng.integers(1, 7, size=d)
    bh = BoundaryHandler(strategy="random")
    out, rows = [], []
    for i in range(sc["m"]):
        n = 3
        x = lb + (ub - lb) * np.floor(rng.random((n, d)) * 9) / 8
        j = i % n
        out_dim = rng.integers(0, d)
        x[j, out_dim] = ub[out_dim] + rng.choice([0.5, 40]) if sc["side"] == "up" else lb[out_dim] - rng.choice([0.5, 40])
        y = np.asarray(bh(x.copy(), bounds_as(lb, ub, sc["as"])), dtype=float)
        if i < 6:
            out.append(dict(sid=sc["sid"], k="start", mem=scaled(x, 64)))
            out.append(move_line(sc["sid"], "random", lb, ub, x, y, 2 ** 20, 0))
        if y.shape != (n, d):
            return out
        u = (y[j] - lb) / (ub - lb)
        rows.append([int(np.floor(np.clip(w, -1, 2) * 8)) if w != 1 else 7 for w in u])
        if rows[-1] != [int(v) for v in np.clip(rows[-1], 0, 7)] or oob(y, lb, ub):
            out.append(dict(sid=sc["sid"], k="fact", clause="C07.random_inside", ok=False))
            return out
    out.append(dict(sid=sc["sid"], k="draw", b=rows))
    return out


def opt_run(sc):
    """Every move of an optimisation run, from what the objective sees."""
    import gen
    import optrun

    cfg = sc["cfg"]
    raw = optrun.run_history(cfg)
    lb, ub = np.array(cfg["bounds"]["lb"]), np.array(cfg["bounds"]["ub"])
    n, d, strat = cfg["n"], cfg["d"], cfg["bh"]
    out = []
    ref = max(np.abs(lb).max(), np.abs(ub).max(), (ub - lb).max())
    bits, tol = (10, 2) if strat == "shrink" else (20, 128)
    S = 2.0 ** (bits - np.ceil(np.log2(ref)))
    for r in raw["ops"]:
        if r["op"] != "run":
            continue
        evs = r["evs"]
        for t in range(len(evs)):
            if t + 1 >= len(evs):
                if t + 1 < r["iters"] or "ftol" in cfg or r.get("raised"):
                    continue
                post = r["end"]
            else:
                post = evs[t + 1]["snap"]
            x, v2, x2 = evs[t]["x"], post["velocity"], post["position"]
            if x.shape != (n, d) or v2.shape != (n, d) or x2.shape != (n, d):
                out.append(dict(sid=sc["sid"], k="fact", clause="C07.shape", ok=False))
                return out
            tmp = x + v2
            edge = np.minimum(np.abs(tmp - lb), np.abs(tmp - ub))
            o = (tmp < lb) | (tmp > ub)
            ok = (np.abs(tmp * S).max(axis=1) < 8 * 2 ** bits) & (edge.min(axis=1) > 2 * tol / S) & ((ub - lb).min() * S > 20 * tol)
            if strat == "shrink":
                mv = np.abs(v2)
                ok &= (np.where(o, mv, np.inf).min(axis=1) * 8 > mv.max(axis=1))
            if strat in ("reflective", "periodic"):
                ok &= (np.abs(tmp - lb) < 40 * (ub - lb)).all(axis=1)
            if strat == "random":
                # inside a run only who moves is decided
                ok &= True
            if not ok.any():
                continue
            out.append(dict(sid=sc["sid"], k="start", mem=scaled(x[ok], S)))
            out.append(move_line(sc["sid"], strat, lb, ub, tmp[ok], x2[ok], S, tol if strat != "random" else 0))
            out[-1]["nob"] = 0 if strat == "random" else out[-1]["nob"]
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 7])
    sc = []
    rint = lambda: int(rng.integers(1 << 30))  # noqa: E731
    for s in STRATS:
        for lb in (-3, 0, 2):
            for r in (1, 2, 3):
                ub = lb + r
                xs = list(range(lb - 11, ub + 12)) + [lb - 0.5, ub + 0.25, ub - 0.5]
                ms = [lb + k * 0.5 for k in range(2 * r + 1)]
                pairs = list(itertools.product(xs, ms))
                sc.append(dict(kind="grid", strat=s, lb=[lb], ub=[ub], S=64, mem=[[m] for _, m in pairs], x=[[x] for x, _ in pairs],
                               **{"as": ["array", "list", "int"][(lb + r) % 3]}))
        for lb, r in ((-1.75, 1.5), (0.25, 1.5), (-0.5, 0.25), (-0.25, 1.75), (-2.5, 2.5), (0.75, 0.5)):
            ub = lb + r
            xs = [lb - k * 0.25 for k in range(1, 30)] + [ub + k * 0.25 for k in range(1, 30)] + [lb + r / 2]
            ms = [lb + k * r / 4 for k in range(5)]
            pairs = list(itertools.product(xs, ms))
            sc.append(dict(kind="grid", strat=s, lb=[lb], ub=[ub], S=64, mem=[[m] for _, m in pairs], x=[[x] for x, _ in pairs],
                           **{"as": ["array", "list"][int(4 * r) % 2]}))
        for lb, ub in (([0, 0], [1, 2]), ([-2, 1], [1, 3]), ([-1, -4], [3, -2])):
            xs = [(a, b) for a in range(lb[0] - 4, ub[0] + 5) for b in range(lb[1] - 4, ub[1] + 5)]
            ms = [(a, b) for a in range(lb[0], ub[0] + 1) for b in range(lb[1], ub[1] + 1)]
            pairs = list(itertools.product(xs, ms))
            if not thor:
                pairs = [pairs[i] for i in rng.choice(len(pairs), 300, replace=False)]
            for c0 in range(0, len(pairs), 400):
                ch = pairs[c0:c0 + 400]
                sc.append(dict(kind="grid", strat=s, lb=lb, ub=ub, S=256, mem=[list(m) for _, m in ch], x=[list(x) for x, _ in ch],
                               **{"as": pickas(rng)}))
        for i in range(60 if thor else 8):
            sc.append(dict(kind="seq", strat=s, n=int(rng.integers(1, 7)), d=int(rng.integers(1, 6) if i % 4 else rng.integers(10, 40)), S=256 if s != "intermediate" else 512,
                           moves=6 if s != "intermediate" else 5, seed=rint(), **{"as": pickas(rng)}))
        for t in TOPS:
            for i in range(6 if thor else 2):
                sc.append(dict(kind="top", strat=s, top=t, d=int(rng.integers(1, 4)), speed=float(rng.choice([1, 5])), seed=rint(), **{"as": pickas(rng)}))
    for d in (1, 2, 3):
        for side in ("up", "down"):
            sc.append(dict(kind="draw", d=d, m=1600, side=side, seed=rint(), **{"as": pickas(rng)}))
    import gen
    for i in range(600 if thor else 90):
        c = gen.config(rng, i, opts=("gb", "lb", "gen"), bounded=True, kinds=["quad", "hash", "noise"], vh="unmodified", iters=6)
        c["bh"] = (STRATS + ["random"])[i % 6]
        c["options"].update(w=float(rng.choice([0.5, 1.5, 2.5])))
        c["ops"] = [["run", 5, {}], ["run", 3, {}]]
        if rng.random() < 0.3:
            c["ops"].insert(1, ["reset", {}])
        sc.append(dict(kind="opt", cfg=c, seed=c["seed"]))
    for i, s in enumerate(sc):
        s["sid"] = i
        if s["kind"] == "opt":
            s["cfg"]["sid"] = i
    return sc


def pickas(rng):
    return ["array", "list", "int"][int(rng.integers(3))]


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    for c in [dict(D=1, Lo=-1, Hi=2, Reach=9, MaxMoves=3), dict(D=2, Lo=0, Hi=2, Reach=4, MaxMoves=1)] + \
            ([dict(D=1, Lo=-3, Hi=4, Reach=30, MaxMoves=3), dict(D=2, Lo=-1, Hi=2, Reach=8, MaxMoves=2)] if thor else []):
        V.add_mc("Boundary", vlib.model_check("Boundary", scratch, dict(c, Fault='"none"'), INV, timeout=2000))
    planted(V, scratch, "Boundary", dict(D=2, Lo=0, Hi=2, Reach=4, MaxMoves=2), INV, ["once", "other", "alone", "proposal"])


def check(V, scratch):
    bg = Background(design, V, scratch)
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "BoundaryTrace")
    bg.join()
