"""The motion equations: superposition and draws recovered from the operators,
the topologies and whole runs; range of every move of recorded histories."""
import numpy as np

import vlib
from checks import draws, hist
from checks.c07 import make_top
from checks.common import Background, drive, planted

TOPS = ["op", "star", "ring", "vn", "random", "pyramid"]


def run(sc):
    k = sc.get("kind")
    if k == "super":
        return superpose(sc)
    if k == "drawn":
        return drawn(sc)
    return hist.run(sc)


def velocity(t, sw, clamp, vh, bounds):
    import pyswarms.backend as P

    if t is None:
        return P.compute_velocity(sw, clamp, vh, bounds)
    return t.compute_velocity(sw, clamp, vh, bounds)


def superpose(sc):
    """compute_velocity three times under the same draws, for one swarm or several."""
    lin, r1, r2, y0, y1 = [], [], [], [], []
    for rep in range(sc.get("reps", 1)):
        got = superposed(sc, rep)
        if got is None:
            return [dict(sid=sc["sid"], k="fact", clause="C10.shape", ok=False)]
        for a, b in zip((lin, r1, r2, y0, y1), got):
            a.append(b)
    out = []
    for c in draws.chunks([q for p in lin for q in p], 400):
        out.append(dict(sid=sc["sid"], k="lin", s=c))
    r1, r2, y0, y1 = (np.concatenate(q) for q in (r1, r2, y0, y1))
    out += draws.block(sc["sid"], "C10.r1", r1) + draws.block(sc["sid"], "C10.r2", r2)
    out += draws.pairs(sc["sid"], "C10.r1_r2_independent", r1, r2)
    out += draws.distinct(sc["sid"], "C10.r1_r2_distinct", np.concatenate([r1.ravel()[:500], r2.ravel()[:500]]))
    # a second call draws anew
    out += draws.pairs(sc["sid"], "C10.calls_independent", y0, y1)
    out += draws.distinct(sc["sid"], "C10.calls_distinct", np.concatenate([y0.ravel()[:500], y1.ravel()[:500]]))
    return out


def superposed(sc, rep):
    from pyswarms.backend.handlers import VelocityHandler
    from pyswarms.backend.swarms import Swarm

    rng = np.random.default_rng([sc["seed"], rep])
    n, d = sc["n"], sc["d"]
    t = None if sc["top"] == "op" else make_top(sc["top"])
    x = np.round(rng.normal(size=(n, d)) * 8) / 8
    v = np.round(rng.normal(size=(n, d)) * 8) / 8
    pb = x + rng.choice([-1, 1], size=(n, d)) * rng.integers(1, 9, size=(n, d)) / 4
    shape = (n, d) if sc["best"] == "rows" else (d,)
    g = np.round(rng.normal(size=shape) * 8) / 8 + 1 / 16
    if sc["best"] == "rows":        # some follow themselves, some only in part
        own = rng.random((n, 1)) < 0.4
        g = np.where(own | (rng.random((n, d)) < 0.1), pb, g)
    elif rng.random() < 0.5:
        pb[int(rng.integers(n))] = g
    w = sc["w"]
    seed = (sc["seed"] + 7919 * rep) % (2 ** 31)
    s = []
    M = sc.get("mul", 1)
    for c1, c2 in ((1, 2), (2, 1), (3, 2)):
        sw = Swarm(position=x.copy(), velocity=v.copy(), options=dict(w=w, c1=c1 * M, c2=c2 * M))
        sw.pbest_pos, sw.best_pos = pb.copy(), g.copy()
        np.random.seed(seed)
        y = np.asarray(velocity(t, sw, None, VelocityHandler(strategy="unmodified"), None), dtype=float)
        if y.shape != (n, d):
            return None
        s.append((y - w * v) / M)
    a, b = pb - x, np.broadcast_to(g, (n, d)) - x
    S = 2 ** 20
    q = np.stack([*s, a, b], axis=-1).reshape(-1, 5)
    q = np.clip(np.round(q * S), -1e8, 1e8).astype(int)
    r1, r2 = (2 * s[1] - s[0]) / 3 / a, (2 * s[0] - s[1]) / 3 / b
    np.random.seed(seed)
    ys = []
    for _ in range(2):
        sw = Swarm(position=x.copy(), velocity=v.copy(), options=dict(w=0, c1=1, c2=0))
        sw.pbest_pos, sw.best_pos = pb.copy(), g.copy()
        ys.append(np.asarray(velocity(t, sw, None, VelocityHandler(strategy="unmodified"), None), dtype=float) / a)
    return q.tolist(), r1, r2, ys[0], ys[1]


def drawn(sc):
    """Whole runs with one attraction off (or both attractors equal), in
    which the draws are plain to see."""
    import optrun

    cfg = sc["cfg"]
    raw = optrun.run_history(cfg)
    evs = raw["ops"][0]["evs"]
    n, d = cfg["n"], cfg["d"]
    c1, c2 = cfg["options"]["c1"], cfg["options"]["c2"]
    us, ok = [], []
    for t in range(len(evs) - 1):
        e, p = evs[t], evs[t + 1]["snap"]
        a = p["pbest_pos"] - e["x"]
        b = np.broadcast_to(p["best_pos"], (n, d)) - e["x"]
        if p["velocity"].shape != (n, d):
            return [dict(sid=sc["sid"], k="fact", clause="C10.shape", ok=False)]
        f = p["velocity"] - cfg["options"]["w"] * e["snap"]["velocity"]
        with np.errstate(all="ignore"):
            if sc["see"] == "r1":
                u, good = f / (c1 * a), np.abs(a) > 1e-4
            elif sc["see"] == "r2":
                u, good = f / (c2 * b), np.abs(b) > 1e-4
            else:
                u, good = f / (c1 * a), (np.abs(a) > 1e-4) & (a == b)
        us.append(u)
        ok.append(good)
    us, ok = np.array(us), np.array(ok)
    sid, out = sc["sid"], []
    flat = us[ok]
    if sc["see"] == "sum":
        return draws.triangle(sid, "C10.run_sum", flat) + \
            [dict(sid=sid, k="range", clause="C10.run_range", lo=-1, hi=2 ** 29, v=[int(v) for v in np.clip(np.floor(c * 2 ** 28), -2 ** 30, 2 ** 30)]) for c in draws.chunks(flat, 1200)]
    cl = "C10.run_" + sc["see"]
    out += draws.uniform(sid, cl + "_uniform", flat) + draws.distinct(sid, cl + "_distinct", flat) + draws.unit_range(sid, cl + "_range", flat)
    for ax in range(3):
        m = us.shape[ax]
        if m > 1:
            A, B = np.take(us, range(m - 1), axis=ax), np.take(us, range(1, m), axis=ax)
            g = np.take(ok, range(m - 1), axis=ax) & np.take(ok, range(1, m), axis=ax)
            out += draws.pairs(sid, cl + "_independent", A[g], B[g])
    out.append(dict(sid=sid, k="fact", clause="C10.seen", ok=bool(len(flat) >= 200)))
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 10])
    sc = []
    for rep in range(8 if thor else 1):
        for t in TOPS:
            for n, d in ((40, 30), (7, 7)) if not rep else ((int(rng.integers(2, 60)), int(rng.integers(1, 40))),):
                for best in ("one", "rows"):
                    sc.append(dict(kind="super", top=t, n=n, d=d, best=best, w=float(rng.choice([0.0, 0.5, 1.0]))))
                    # coefficients far larger or smaller than usual
                    sc.append(dict(sc[-1], n=20, d=10, w=float(rng.choice([8.0, -1.0, 64.0])), mul=float(rng.choice([1 / 64, 16, 64, 1024]))))
            # small swarms, again and again
            n, d, reps = [(1, 1, 300), (1, 12, 40), (2, 3, 70), (3, 1, 120), (1, 2, 200), (2, 1, 200)][(TOPS.index(t) + rep) % 6]
            sc.append(dict(kind="super", top=t, n=n, d=d, reps=reps, best=("one", "rows")[(TOPS.index(t) + rep // 6) % 2], w=0.5))
        for name in ("gb", "lb", "bin", "gstar", "gring", "gvn", "grandom", "gpyr"):
            for see in ("r1", "r2", "sum"):
                n, d = (20, 5)
                c = hist.opt_cfg(name, n, d)
                # with a ring of one both attractors are the own best
                if see == "sum":
                    c["options"].update(c1=1.0, c2=1.0)
                    if "k" in c["options"] and name in ("lb", "bin", "gring"):
                        c["options"]["k"] = 1
                else:
                    c["options"].update(c1=1.5 if see == "r1" else 0.0, c2=1.5 if see == "r2" else 0.0)
                    if "k" in c["options"] and name != "grandom":
                        c["options"]["k"] = 6
                c["options"]["w"] = 0.5 if see != "sum" else 0.25
                if name == "grandom":
                    c["options"]["k"] = 3
                c.update(objective=dict(kind="noise", m=30, seed=int(rng.integers(1 << 30))), ops=[["run", 40 if see != "sum" else 120, {}]])
                if name == "gpyr":
                    c["d"] = 3
                if name == "bin":
                    c["ops"][0][1] = 200
                sc.append(dict(kind="drawn", see=see, cfg=c))
    for i, s in enumerate(sc):
        s["sid"] = i
        s["seed"] = int(rng.integers(1 << 30))
        if "cfg" in s:
            s["cfg"]["sid"] = i
    return sc


MIX = [dict(vh="unmodified", bounded=False, opts=("gb", "lb", "gen"), iters=12), dict(vh="unmodified", opts=("gb", "lb", "gen"), bounded=True),
       dict(opts=("bin",)), dict(vh="unmodified", clamp=True, iters=12), dict(kinds=["noise", "hash"], bounded=False, clamp=False, vh="unmodified", init=True)]


BASE = dict(R=4, X=1, Coefs="SomeCoefs", MaxMoves=2, Lim=2, Fault='"none"')


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    for c in [dict(BASE)] + ([dict(BASE, R=8, X=3, Lim=3)] if thor else []):
        V.add_mc("Motion", vlib.model_check("Motion", scratch, c, ["MoveClauseHolds", "Clamped", "RestStays"], timeout=2500))
    planted(V, scratch, "Motion", BASE, ["MoveClauseHolds", "Clamped", "RestStays"], ["loose", "swap", "late"])


def check(V, scratch):
    bg = Background(design, V, scratch)
    hist.check(V, scratch, "C10", MIX, gens=(), designs=())
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "DrawsTrace")
    bg.join()
