"""Neighbourhoods found by probing: whoever takes over the personal best of a
particle that is the only best one has that particle as its neighbour."""
import numpy as np

import vlib
from checks import hist
from checks.common import planted


def params(sc):
    o = {}
    if sc["top"] in ("ring", "vn"):
        o["p"] = sc["p"]
    if sc["top"] in ("ring", "random"):
        o["k"] = sc["kk"]
    if sc["top"] == "vn":
        o["r"] = sc["r"]
    return o


def positions(sc, t=0):
    rng = np.random.default_rng([sc["seed"], t])
    n, d = sc["n"], sc["d"]
    how = sc.get("pos", "normal")
    if how == "grid":           # many ties
        return rng.integers(0, 3, size=(n, d)).astype(float)
    if how == "int":            # for exact Delaunay
        R = 50 if d == 2 else 22
        while True:
            x = rng.integers(0, R, size=(n, d))
            if len({tuple(r) for r in x}) == n:
                return x.astype(float)
    if how == "cluster":
        return np.round(rng.normal(size=(n, d)), 3) + 10.0 * rng.integers(0, 2, size=(n, 1))
    if how == "cross":          # a cross-polytope and its centre: only opposite corners are not neighbours
        x = np.zeros((n, d))
        ax = rng.integers(8, 17, size=d)
        for q in range(d):
            x[1 + q, q], x[1 + d + q, q] = ax[q], -ax[q]
        # far from the origin, where every move is a small one
        far = int(np.random.default_rng([sc["seed"], 99]).choice([0, 0, 1, 64, 4096, 1 << 20]))
        return x[rng.permutation(n)] + rng.integers(-3, 4, size=d) + far
    if how == "tight":          # almost converged, far from the origin
        return 2.0 ** int(rng.integers(0, 15)) + 2.0 ** -int(rng.integers(16, 34)) * rng.integers(-200, 201, size=(n, d))
    if how == "same":
        return np.repeat(rng.normal(size=(1, d)), n, axis=0)
    return rng.normal(size=(n, d)) * 10.0 ** rng.integers(-2, 3)


def attractors(best_pos, pb):
    """index of the particle whose personal best each particle follows"""
    n, d = pb.shape
    b = np.asarray(best_pos, dtype=float)
    if b.shape == (d,) and d != n or b.shape == (d,) and any((b == r).all() for r in pb):
        b = np.tile(b, (n, 1))
    if b.shape != (n, d):
        return None
    out = []
    for i in range(n):
        w = np.nonzero((pb == b[i]).all(axis=1))[0]
        out.append(int(w[0]) if len(w) else -1)
    return out


def costs_for(n, j, rng):
    c = 1.0 + rng.permutation(n)
    c[j] = 0.0
    return c


def probe_topology(t, x, opts, rng, reseed=None):
    """adjacency lists (1-based) of the topology object t for positions x"""
    from pyswarms.backend.swarms import Swarm

    n, d = x.shape
    pb = np.arange(n * d).reshape(n, d) + 0.5
    adj = [[] for _ in range(n)]
    old, how = None, int(rng.integers(7))
    for j in range(n):
        if old is not None and how % 2:
            sw, sw.position = old, x.copy()         # the same swarm, moved
        else:
            sw = Swarm(position=x.copy(), velocity=np.zeros((n, d)))
        old = sw
        sw.pbest_pos, sw.pbest_cost = pb.copy(), costs_for(n, j, rng)
        sw.current_cost = sw.pbest_cost.copy()
        if how == 2:                                # what an earlier iteration left
            sw.best_pos, sw.best_cost = pb.copy(), 0.5
        elif how == 4:
            sw.best_pos, sw.best_cost = pb[int(rng.integers(n))].copy(), float(rng.integers(1, 9))
        elif how == 6:
            sw.best_pos, sw.best_cost = x.copy(), np.inf
        elif how == 5:
            sw.best_pos = pb.copy()
        tt = t
        if reseed is not None:
            np.random.seed(reseed)
            if callable(t):
                tt = t()
        bp, bc = tt.compute_gbest(sw, **opts)
        a = attractors(bp, pb)
        if a is None or float(bc) != 0.0:
            return None
        for i in range(n):
            if a[i] == j:
                adj[i].append(j + 1)
    return adj


def probe_optimiser(sc, x, rng, reseed):
    """the same through one iteration of an optimiser"""
    import optrun

    n, d = x.shape
    adj = [[] for _ in range(n)]
    x = np.unique(x, axis=0) if sc["opt"] == "never" else x
    for j in range(n):
        cfg = dict(opt=sc["opt"], n=n, d=d, options=dict(c1=0.5, c2=0.5, w=0.5, **params(sc)), static=sc.get("static", False), init_pos=x.tolist(),
                   top=sc["top"])
        np.random.seed(reseed)
        opt = optrun.build(cfg)
        np.random.seed(reseed)
        c = costs_for(n, j, rng)
        opt.optimize(lambda q: c.copy(), 1, verbose=False)
        b = np.asarray(opt.swarm.best_pos, dtype=float)
        if b.shape == (d,):
            b = np.tile(b, (n, 1))
        if b.shape != (n, d):
            return None
        for i in range(n):
            if (b[i] == x[j]).all():
                adj[i].append(j + 1)
    return adj


def line(sc, x, adj, k="nb"):
    from optrun import dist_ranks

    pts, opp = [], []
    if sc.get("pos") == "cross":
        c = np.round(x.mean(axis=0))
        opp = [0 if (q == c).all() else 1 + int(np.nonzero((x == 2 * c - q).all(axis=1))[0][0]) for q in x]
    elif sc["top"] == "pyramid" and sc["n"] > sc["d"] + 1:
        pts = x.astype(int).tolist()
    return dict(sid=sc["sid"], k=k, pid=sc["pid"], top=sc["top"], n=sc["n"], d=sc["d"], kk=sc.get("kk", 0), r=sc.get("r", 0),
                dr=dist_ranks(x, sc["p"]) if sc["top"] in ("ring", "vn") else [], adj=adj, pts=pts, opp=opp,
                tol=20000 if sc["d"] == 2 else 300000)


def maker(sc):
    import optrun

    return lambda: optrun.make_topology(dict(top=sc["top"], static=sc.get("static", False)))


def run(sc):
    rng = np.random.default_rng(sc["seed"] + 3)
    sid, pid = sc["sid"], sc["pid"]
    out = []
    bad = [dict(sid=sid, k="fact", clause=pid + ".shape", ok=False)]
    seed = sc["seed"] % (2 ** 31)
    if sc["what"] == "probe":
        x = positions(sc)
        adj = probe_topology(maker(sc), x, params(sc), rng, reseed=seed)
        if adj is None:
            return bad
        out.append(line(sc, x, adj))
        if sc.get("opt") and sc["pos"] != "same" and len(np.unique(x, axis=0)) == sc["n"]:
            xo = x
            if sc["opt"] == "bin":
                return out
            adj = probe_optimiser(sc, xo, rng, seed)
            if adj is None:
                return bad
            out.append(line(sc, xo, adj))
    elif sc["what"] == "binary":
        while True:
            x = rng.integers(0, 2, size=(sc["n"], sc["d"]))
            if len(np.unique(x, axis=0)) == sc["n"]:
                break
        adj = probe_optimiser(sc, x, rng, seed)
        if adj is None:
            return bad
        out.append(line(sc, x.astype(float), adj))
    elif sc["what"] == "static":
        # first use at some positions, with a twin that is only used there
        x0 = positions(sc, 0)
        np.random.seed(seed)
        first = probe_topology(maker(sc), x0, params(sc), rng, reseed=seed)
        np.random.seed(seed)
        t = maker(sc)()
        use_once(t, x0, params(sc), rng)
        for q in range(1, sc.get("moves", 3)):
            np.random.seed(seed + q)
            later = probe_topology(t, positions(sc, q), params(sc), rng)
            if later is None or first is None:
                return bad
            out.append(dict(sid=sid, k="same", clause="C05.static_neighbourhoods", first=first, later=later))
    elif sc["what"] == "dynamic":
        t = maker(sc)()
        for q in range(sc.get("moves", 3)):
            x = positions(sc, q)
            np.random.seed(seed + q)
            # the probes of one position need the same draw
            if sc["top"] == "random":
                adj = probe_topology(t, x, params(sc), rng, reseed=seed + q)
            else:
                adj = probe_topology(t, x, params(sc), rng)
            if adj is None:
                return bad
            out.append(line(sc, x, adj))
    elif sc["what"] == "fresh":
        # the same object used again and again draws anew, static or not known to it
        t = maker(sc)()
        seen = []
        n = sc["n"]
        x = positions(sc)
        for q in range(12):
            np.random.seed(seed + q)
            adj = probe_topology(t, x, params(sc), rng, reseed=seed + q)
            if adj is None:
                return bad
            seen.append("|".join(map(str, adj)))
        tok = {}
        out.append(dict(sid=sid, k="fresh", clause="C05.fresh_draws", v=[tok.setdefault(s, len(tok)) for s in seen], least=5))
    return out


def use_once(t, x, opts, rng):
    from pyswarms.backend.swarms import Swarm

    n, d = x.shape
    sw = Swarm(position=x.copy(), velocity=np.zeros((n, d)))
    sw.pbest_pos, sw.pbest_cost = x.copy(), costs_for(n, 0, rng)
    sw.current_cost = sw.pbest_cost.copy()
    t.compute_gbest(sw, **opts)


# --------------------------------------------------------------------- scenarios
def scenario(rng, what, top=None):
    from optrun import delannoy

    top = top or str(rng.choice(["star", "ring", "vn", "random", "pyramid"], p=[0.06, 0.26, 0.2, 0.26, 0.22]))
    n = int(rng.integers(1, 13))
    d = int(rng.integers(1, 5))
    sc = dict(what=what, top=top, seed=int(rng.integers(1 << 30)), p=int(rng.integers(1, 3)), pos=str(rng.choice(["normal", "grid", "cluster", "tight"])))
    if top == "random":
        n = max(n, 2)
        crowd = what == "probe" and rng.random() < 0.12
        if crowd:
            n = int(rng.integers(40, 140))
        if what == "fresh":
            n = max(n, 6)
        sc["kk"] = int(rng.integers(1, min(n, 4)) if rng.random() < 0.7 and n > 2 else rng.integers(1, n))
        if crowd and rng.random() < 0.5:    # many components, to begin with
            sc["kk"] = 1
        if what == "fresh":
            sc["kk"] = int(rng.integers(1, n - 2))
    elif top == "ring":
        if what != "fresh" and rng.random() < 0.1:
            n, d = int(rng.integers(13, 120 if rng.random() < 0.2 else 40)), int(rng.integers(1, 12))
        sc["kk"] = int(rng.integers(1, n + 1))
        if rng.random() < 0.1:
            sc["pos"] = "same"
    elif top == "vn":
        n = max(n, 3)
        sc["r"] = int(rng.choice([r for r in range(4) if delannoy(d, r) <= n]))
        if rng.random() < 0.3:
            n = delannoy(d, 1)
            sc["r"] = 1
        if what != "fresh" and rng.random() < 0.1:     # wide lattices
            sc["r"], d = [(4, 2), (5, 2), (3, 3), (2, 4), (2, 5), (8, 1), (12, 1), (3, 2), (2, 3), (1, 9)][int(rng.integers(10))]
            n = delannoy(d, sc["r"]) + int(rng.integers(0, 4))
    elif top == "pyramid":
        d = max(d, 2)
        if what != "fresh" and rng.random() < 0.3:
            d = int(rng.integers(2, 6))
            n = 2 * d + 1
            sc["pos"] = "cross"
        elif d > 3 or rng.random() < 0.2:
            n = int(rng.integers(1, d + 2))
        else:
            n = int(rng.integers(d + 2, 12 if d == 2 else 9))
            sc["pos"] = "int"
    sc.update(n=n, d=d, static=bool(rng.random() < 0.5))
    if top == "ring":
        sc["opt"] = str(rng.choice(["gen", "lb"]))
    else:
        sc["opt"] = "gen"
    return sc


def finish(pid, sc):
    for i, s in enumerate(sc):
        s.update(sid=i, pid=pid, kind="topo")
    return sc


def c04(rng, count):
    sc = [scenario(rng, "probe") for _ in range(count)]
    for _ in range(count // 12):
        n = int(rng.integers(3, 10))
        sc.append(dict(what="binary", top="ring", opt="bin", n=n, d=int(rng.integers(4, 8)), kk=int(rng.integers(1, n + 1)), p=int(rng.integers(1, 3)),
                       seed=int(rng.integers(1 << 30))))
    return finish("C04", sc)


def c05(rng, count):
    sc = []
    for i in range(count):
        s = scenario(rng, "static" if i % 2 else "dynamic", top=["ring", "random", "pyramid", "vn"][(i // 2) % 4])
        s["static"] = bool(i % 2)
        if s["top"] == "vn" and not i % 2:
            s["what"], s["static"] = "static", False     # always static
        if s["top"] == "pyramid" and s["n"] > s["d"] + 1 and s["pos"] != "cross":
            s["pos"] = "int"
        if s["pos"] == "same":
            s["pos"] = "normal"
        sc.append(s)
    for i in range(count // 10):
        s = scenario(rng, "fresh", "random")
        s["static"] = False
        sc.append(s)
    return finish("C05", sc)


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    for N, K, S in ((4, 1, 2), (3, 2, 3)) + (((4, 2, 2), (4, 3, 2), (5, 2, 2), (5, 3, 2)) if thor else ()):
        V.add_mc("Topology/%d-%d-%d" % (N, K, S), vlib.model_check("Topology", scratch, dict(N=N, K=K, Side=S, Fault='"none"'), ["RandomHolds", "RingHolds", "CanFinish"], workers=3, timeout=3000))
    planted(V, scratch, "Topology", dict(N=4, K=1, Side=2), ["RandomHolds", "RingHolds"], ["oneway", "apart"])
    planted(V, scratch, "Topology", dict(N=3, K=2, Side=2), ["RingHolds"], ["far"])
