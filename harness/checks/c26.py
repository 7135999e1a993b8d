"""Configurations: which are accepted, which rejected, and when."""
import warnings

import numpy as np

import vlib
from checks.common import Background, drive

BH = ["nearest", "random", "shrink", "reflective", "intermediate", "periodic"]
VH = ["unmodified", "adjust", "invert", "zero"]
OH = ["exp_decay", "lin_variation", "random", "nonlin_mod"]
BOGUS = ["nope", "Nearest", "peri", "strategy", "out_of_bounds", "_random", "__call__", "memory", "", "linear"]


def cost(x):
    return (np.asarray(x, dtype=float) ** 2).sum(axis=1)


def run(sc):
    warnings.simplefilter("ignore")
    return {"run": one, "search": search, "parts": parts}[sc["kind"]](sc)


def window(w):
    return {"int": int(w[1]), "float": float(w[1]), "half": w[1] + 0.5, "str": str(w[1]), "none": None, "list": [w[1]], "nan": float("nan")}[w[0]]


def topology(name, static):
    from pyswarms.backend.topology import Pyramid, Random, Ring, Star, VonNeumann

    if name == "star":
        return Star()
    if name in ("ring", "vonneumann", "random", "pyramid"):
        return dict(ring=Ring, vonneumann=VonNeumann, random=Random, pyramid=Pyramid)[name](static=static)
    return {"class": Ring, "text": "ring", "none": None, "number": 3, "object": object()}[name]


def one(sc):
    import pyswarms as ps

    c = sc["c"]
    np.random.seed(sc["seed"] % (1 << 31))
    full = dict(c1=0.5, c2=0.3, w=0.9, k=c["k"], p=c["p"], r=c["r"])
    kw = dict(ftol_iter=window(c["window"]), vh_strategy=c["vh"])
    if sc["clamp"]:
        kw["velocity_clamp"] = (-0.5, 0.5)
    if c["oh"]:
        kw["oh_strategy"] = dict((a, b) for a, b in c["oh"])
    options = {q: full[q] for q in c["keys"]}
    if c["cls"] != "D":
        kw["bh_strategy"] = c["bh"]
        if c["bounds"]:
            kw["bounds"] = (-np.ones(c["d"]), 2 * np.ones(c["d"]))
    hist, out, sound, opt, why = 0, "completed", False, None, ""
    try:
        if c["cls"] == "G":
            opt = ps.single.GlobalBestPSO(c["n"], c["d"], options, **kw)
        elif c["cls"] == "L":
            opt = ps.single.LocalBestPSO(c["n"], c["d"], options, static=sc["static"], **kw)
        elif c["cls"] == "D":
            opt = ps.discrete.BinaryPSO(c["n"], c["d"], options, **kw)
        else:
            opt = ps.single.GeneralOptimizerPSO(c["n"], c["d"], options, topology=topology(sc["topo"], sc["static"]), **kw)
        best, pos = opt.optimize(cost, c["iters"], n_processes=sc.get("nproc"), verbose=False)
        sound = bool(np.isfinite(best) and np.shape(pos) == (c["d"],) and np.isfinite(pos).all())
        sound = sound and all(np.shape(p) == (c["n"], c["d"]) for p in opt.pos_history)
    except Exception as e:
        out, why = "rejected", "%s: %s" % (type(e).__name__, str(e)[:80])
    if opt is not None:
        hist = len(opt.cost_history)
    return [dict(sid=sc["sid"], k="run", c=c, outcome=out, hist=hist, sound=sound, why=why)]


def search(sc):
    import pyswarms as ps
    from pyswarms.utils.search import GridSearch, RandomSearch

    np.random.seed(sc["seed"] % (1 << 31))

    class Without(object):
        def __init__(self, *a, **k):
            pass

    o = {"G": ps.single.GlobalBestPSO, "L": ps.single.LocalBestPSO, "class": Without, "text": "GlobalBestPSO", "none": None,
         "function": cost}[sc["optimizer"]]
    r = {"int": 2, "float": 2.0, "half": 2.5, "str": "2", "none": None, "list": [2]}[sc["rounds"]]
    out = "completed"
    try:
        if sc["random"]:
            s = RandomSearch(o, 4, 2, dict(c1=[0.1, 0.5], c2=[0.1, 0.5], w=[0.1, 0.9], k=[1, 3], p=1), cost, 2, r, velocity_clamp=(-1, 1))
        else:
            s = GridSearch(o, 4, 2, dict(c1=[0.1, 0.5], c2=[0.1], w=[0.1, 0.9], k=[1, 3], p=1), cost, 2, velocity_clamp=(-1, 1))
        s.search()
    except Exception:
        out = "rejected"
    return [dict(sid=sc["sid"], k="search", random=sc["random"], optimizes=sc["optimizer"] in "GL", rounds=sc["rounds"] if sc["random"] else "int", outcome=out)]


def parts(sc):
    """Handlers, topologies and operators used by themselves."""
    from pyswarms.backend import compute_pbest, compute_position, compute_velocity, create_swarm
    from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler

    rng = np.random.default_rng(sc["seed"])
    out = []

    def rejects(clause, f):
        try:
            f()
            out.append(dict(sid=sc["sid"], k="fact", clause=clause, ok=False))
        except Exception:
            out.append(dict(sid=sc["sid"], k="fact", clause=clause, ok=True))

    for name in [BOGUS[int(rng.integers(len(BOGUS)))], "nope", 3, None, "zero", "exp_decay"]:
        x = rng.normal(size=(3, 2)) * sc["spread"]      # positions inside or outside of the bounds
        b = (-np.ones(2), np.ones(2))
        if name not in ("zero",):
            rejects("C26.unknown_velocity_strategy", lambda: VelocityHandler(strategy=name)(x.copy(), (-1, 1), position=x, bounds=b))
        rejects("C26.unknown_boundary_strategy", lambda: BoundaryHandler(strategy=name)(x.copy(), b))
        if name != "exp_decay":
            rejects("C26.unknown_schedule", lambda: OptionsHandler(strategy={"w": name})(dict(c1=1, c2=1, w=1), iternow=1, itermax=5))
    for thing in (None, 3, "swarm", dict(position=1), np.zeros((3, 2)), object()):
        rejects("C26.no_swarm", lambda: compute_pbest(thing))
        rejects("C26.no_swarm", lambda: compute_velocity(thing, (-1, 1), VelocityHandler(strategy="unmodified")))
        rejects("C26.no_swarm", lambda: compute_position(thing, None, BoundaryHandler(strategy="nearest")))
        for t in ("star", "ring", "vonneumann", "random", "pyramid"):
            args = dict(star=(), ring=(2, 2), vonneumann=(2, 1), random=(2,), pyramid=())[t]
            rejects("C26.no_swarm", lambda: topology(t, False).compute_gbest(thing, *args))
    for miss in ("c1", "c2", "w"):
        s = create_swarm(*[(3, 2), (1, 1), (25, 4)][int(rng.integers(3))], options={q: 0.5 for q in ("c1", "c2", "w") if q != miss})
        s.pbest_pos, s.best_pos = s.position.copy(), s.position[0].copy()
        rejects("C26.missing_coefficient", lambda: compute_velocity(s, None, VelocityHandler(strategy="unmodified")))
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 26])
    sc = []

    def pick(a):
        return a[int(rng.integers(len(a)))]

    def config(defects):
        cls = pick("GLDOOO")
        n, d = pick([1, 1, 2, 3, 4, 5, 8, 12, 30]), pick([1, 1, 2, 3, 5])
        topo = pick(["star", "ring", "vonneumann", "random", "pyramid"]) if cls == "O" else "star"
        k = pick([1, n, int(rng.integers(1, n + 1))])
        if topo == "random":
            k = pick([1, max(n - 1, 0), int(rng.integers(0, n))])
        keys = ["c1", "c2", "w", "k", "p", "r"] if rng.random() < 0.5 or cls != "G" else ["c1", "c2", "w"]
        bounds = bool(rng.random() < 0.6) and cls != "D"
        c = dict(cls=cls, topo=topo, n=n, d=d, keys=keys, k=int(k), p=pick([1, 2]), r=pick([0, 0, 1, 2]), bounds=bounds, bh=pick(BH),
                 vh=pick(VH if bounds or rng.random() < 0.1 else VH[:2]), oh=[], window=["int", pick([1, 1, 2, 30])], iters=pick([1, 1, 2, 3, 12]))
        if rng.random() < 0.3 and cls != "D":
            c["oh"] = [[q, pick(OH)] for q in ("c1", "c2", "w") if rng.random() < 0.5]
        s = dict(kind="run", topo=topo, static=bool(rng.random() < 0.5), clamp=bool(rng.random() < 0.5))
        for defect in defects:
            if defect == "window":
                c["window"] = pick([["int", 0], ["int", -1], ["int", -7], ["float", 1], ["float", 3], ["half", 0], ["half", 2], ["str", 2], ["none", 0], ["list", 2], ["nan", 0]])
            elif defect == "topo":
                c.update(cls="O", topo="wrong")
                s["topo"] = pick(["class", "text", "none", "number", "object"])
            elif defect == "keys":
                miss = pick(["c1", "c2", "w", "k", "p", "r"])
                c["keys"] = [q for q in c["keys"] if q != miss]
            elif defect == "bh":
                c["bh"] = pick(BOGUS)
            elif defect == "vh":
                c["vh"] = pick(BOGUS)
            elif defect == "oh" and c["cls"] != "D":
                c["oh"] = [[pick(["c1", "c2", "w"]), pick(BOGUS)]]
            elif defect == "k":
                c["k"] = pick([0, -1, n + 1, n + 3])
        s["c"] = c
        return s

    kinds = ["window", "topo", "keys", "bh", "vh", "oh", "k"]
    for j in range(6000 if thor else 700):
        sc.append(config([]))
    for j in range(4000 if thor else 600):
        sc.append(config([kinds[j % len(kinds)]] + ([pick(kinds)] if rng.random() < 0.15 else [])))
    for j in range(40 if thor else 6):
        s = config([])
        s["nproc"] = pick([1, 2, 5])
        sc.append(s)
    for o in ("G", "L", "class", "text", "none", "function"):
        for r in ("int", "float", "half", "str", "none", "list"):
            sc.append(dict(kind="search", random=True, optimizer=o, rounds=r))
        sc.append(dict(kind="search", random=False, optimizer=o, rounds="int"))
    for j in range(100 if thor else 12):
        sc.append(dict(kind="parts", spread=[0.1, 3.0][j % 2]))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    base = dict(Sizes="{1, 3}", Dims="{1, 2}" if thor else "{1}", Iters=2, Fault='"none"')
    inv = ["Decided", "FirstUse", "Counted"]
    V.add_mc("Config", vlib.model_check("Config", scratch, base, inv, timeout=3000))
    for f in ("window", "anything", "clip", "fallback"):
        r = vlib.tlc("Config", vlib.cfg_text("Spec", dict(base, Dims="{1}", Fault='"%s"' % f), inv), scratch)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Config/planted-" + f, r)


def check(V, scratch):
    bg = Background(design, V, scratch)
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "ConfigTrace", total=3000, vtimeout=3000)
    bg.join()
