"""Runs the real optimisers under a recorded history of runs and resets and
projects what is observed through the public API onto the lines of PSOTrace."""
import math

import numpy as np

INF, NINF, NAN = 1000000000, -1000000000, -1999999999


class Boom(Exception):
    pass


class BoomStop(Boom, StopIteration):
    pass


class BoomKey(Boom, KeyError):
    pass


class BoomValue(Boom, ValueError):
    pass


class BoomType(Boom, TypeError):
    pass


class BoomFloat(Boom, FloatingPointError):
    pass


class BoomZero(Boom, ZeroDivisionError):
    pass


class BoomAttr(Boom, AttributeError):
    pass


class BoomIndex(Boom, IndexError):
    pass


class BoomRun(Boom, RuntimeError):
    pass


class BoomAssert(Boom, AssertionError):
    pass


class BoomWarn(Boom, UserWarning):
    pass


class BoomMemory(Boom, MemoryError):
    pass


class BoomEnd(Boom, EOFError):
    pass


class BoomUnknown(Boom, NotImplementedError):
    pass


class BoomInterrupt(Boom, KeyboardInterrupt):
    pass


class BoomExit(Boom, SystemExit):
    pass


class BoomClose(Boom, GeneratorExit):
    pass


BOOMS = [Boom, BoomInterrupt, BoomExit, BoomClose, BoomStop, BoomKey, BoomValue, BoomType, BoomFloat, BoomZero, BoomAttr, BoomIndex, BoomRun, BoomAssert, BoomWarn, BoomMemory, BoomEnd, BoomUnknown]


def boom(q):
    """A failure of the objective, of one of many classes."""
    return BOOMS[q % len(BOOMS)]("scripted failure", q)


def same(e, mine):
    """The caller sees the very exception that the objective raised."""
    return e is mine and e.args[:1] == ("scripted failure",) and len(e.args) == 2 and e.__cause__ is None


# ------------------------------------------------------------------ objectives
class Objective:
    """A scripted objective. Integer kinds answer multiples of 1/8."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.calls = 0
        self.rng = np.random.default_rng(spec.get("seed", 0))

    def __call__(self, x):
        t = self.calls
        self.calls += 1
        return self.costs(np.ascontiguousarray(x, dtype=float), t)   # sums depend on the layout

    def costs(self, x, t):
        k, sp = self.kind, self.spec
        n = x.shape[0]
        if k == "quad":
            c = np.floor(np.clip(((x - sp.get("c", 0.3)) ** 2).sum(axis=1), 0, 1e5) * 8) / 8
        elif k == "plateau":
            c = np.floor(np.clip(np.abs(x).sum(axis=1), 0, 1e5) * sp.get("g", 1)) * 1.0
        elif k == "hash":
            h = np.zeros(n, dtype=np.int64)
            for j in range(x.shape[1]):
                h = (h * 1000003 + np.ascontiguousarray(x[:, j]).view(np.int64) // 4096) % 2147483647
            c = (h % sp.get("m", 40)) / 8.0
        elif k == "table":
            row = sp["table"][min(t, len(sp["table"]) - 1)]
            c = np.array([_num(v) for v in row], dtype=float)
        elif k == "noise":
            c = self.rng.integers(-sp.get("m", 30), sp.get("m", 30), size=n) / 8.0
            u = self.rng.random(n)
            c = np.where(u < sp.get("pinf", 0), np.inf, c)
            c = np.where(u > 1 - sp.get("pnan", 0), np.nan, c)
            c = np.where((u > 0.5) & (u < 0.5 + sp.get("pninf", 0)), -np.inf, c)
        elif k == "stairs":
            # improves by steps now and then, so that windows open and close
            drop = sp["drop"]
            lvl = sum(drop[: min(t, len(drop) - 1) + 1])
            c = np.full(n, 200.0 - lvl / 8.0) + self.rng.integers(0, 3, size=n) * 4
            c[self.rng.integers(0, n)] = 200.0 - lvl / 8.0
        elif k == "tilt":
            # ties only between equal positions: what is smooth, and a hash of
            # the bits behind it
            w = np.sqrt(np.arange(2, x.shape[1] + 2)) * (1 + sp.get("c", 0.3) ** 2)
            c = np.floor(np.clip(((x * w).sum(axis=1) * sp.get("s", 1.0) + (x ** 2).sum(axis=1) * 0.5) * 8, -65536, 65535))
            h = np.zeros(n, dtype=np.uint64)
            for j in range(x.shape[1]):
                b = np.ascontiguousarray(x[:, j] + 0.0).view(np.uint64)
                h = (h ^ b ^ (b >> np.uint64(29))) * np.uint64(0x9E3779B97F4A7C15)
                h = h ^ (h >> np.uint64(32))
            c = c + (h >> np.uint64(28)).astype(float) / 2.0 ** 36
        elif k == "raw":
            c = (x ** 2).sum(axis=1) + sp.get("b", 0.0)
        elif k == "rawneg":
            c = -np.abs(x).sum(axis=1) * 1e3 + 1e-9 * np.sin(x).sum(axis=1)
        elif k == "fine":       # costs next to each other, far from or next to zero
            c = sp["base"] + self.rng.integers(-sp.get("m", 30), sp.get("m", 30), size=n) * sp["unit"]
        elif k == "big":
            c = np.exp(np.clip(np.abs(x).sum(axis=1), 0, 300))
        elif k == "penal":
            c = np.floor((x ** 2).sum(axis=1) * 8) / 8
            c = np.where(x[:, 0] > sp.get("at", 0.5), np.inf, c)
        elif k == "nanpart":
            c = np.floor(np.clip((x ** 2).sum(axis=1), 0, 1e5) * 8) / 8
            c[(np.arange(n) + t) % 3 == 0] = np.nan
        else:
            raise ValueError(k)
        dt = sp.get("dtype")
        if dt == "int":
            c = np.where(np.isfinite(c), c, 0).astype(int)
        elif dt == "float32":
            c = c.astype(np.float32)
        return c


INT_KINDS = ("quad", "plateau", "hash", "table", "noise", "stairs", "penal", "nanpart")


def _num(v):
    return {"inf": math.inf, "nan": math.nan, "-inf": -math.inf}.get(v, v)


# ------------------------------------------------------------------- building
def arr(v):
    return None if v is None else np.array(v, dtype=float)


def make_bounds(cfg):
    b = cfg.get("bounds")
    if b is None:
        return None
    kind = b.get("as", "array")
    if kind == "list":
        return ([float(v) for v in b["lb"]], [float(v) for v in b["ub"]])
    if kind == "intarray":
        return (np.array(b["lb"], dtype=int), np.array(b["ub"], dtype=int))
    return (np.array(b["lb"], dtype=float), np.array(b["ub"], dtype=float))


def make_clamp(cfg):
    c = cfg.get("clamp")
    if c is None:
        return None
    if isinstance(c[0], list):
        return (np.array(c[0], dtype=float), np.array(c[1], dtype=float))
    return (c[0], c[1])


def make_init(cfg):
    p = cfg.get("init_pos")
    if p is None:
        return None
    return np.array(p, dtype=int if cfg.get("init_int") else float)


def make_topology(cfg):
    import pyswarms.backend.topology as T

    name, st = cfg["top"], cfg.get("static", False)
    return {"star": lambda: T.Star(), "ring": lambda: T.Ring(static=st), "vn": lambda: T.VonNeumann(),
            "random": lambda: T.Random(static=st), "pyramid": lambda: T.Pyramid(static=st)}[name]()


def build(cfg, parts=None):
    """An optimiser from a configuration. `parts` receives the inputs used."""
    import pyswarms as ps

    n, d = cfg["n"], cfg["d"]
    options = dict(cfg["options"])
    bounds, clamp, init = make_bounds(cfg), make_clamp(cfg), make_init(cfg)
    if parts is not None and parts.get("shared"):
        options, bounds, clamp, init = parts["shared"]
    kw = dict(velocity_clamp=clamp, init_pos=init)
    if "form" in cfg:
        options, bounds, clamp, init, n, d = formed(cfg["form"], options, bounds, clamp, init, n, d)
        kw = dict(velocity_clamp=clamp, init_pos=init)
        if "defaults" in cfg["form"]:
            kw.update(vh_strategy="unmodified", ftol=-np.inf, ftol_iter=1)
            if cfg["opt"] != "bin":
                kw.update(bh_strategy="periodic", oh_strategy={}, center=1.0, bounds=None)
            if cfg["opt"] == "lb":
                kw["static"] = False
    if "ftol" in cfg:
        kw["ftol"] = cfg["ftol"][0] / cfg["ftol"][1]
    if "ftol_iter" in cfg:
        kw["ftol_iter"] = cfg["ftol_iter"]
    if "vh" in cfg:
        kw["vh_strategy"] = cfg["vh"]
    if cfg["opt"] != "bin":
        if "bounds" in cfg:
            kw["bounds"] = bounds
        if "bh" in cfg:
            kw["bh_strategy"] = cfg["bh"]
        if "oh" in cfg:
            kw["oh_strategy"] = cfg["oh"]
        if "center" in cfg:
            kw["center"] = cfg["center"]
    if parts is not None:
        parts.update(options=options, bounds=bounds, clamp=clamp, init=init)
    if "loop" in cfg:
        return BackendLoop(cfg, n, d, options, bounds, clamp, init)
    if cfg["opt"] == "gb":
        return ps.single.GlobalBestPSO(n, d, options, **kw)
    if cfg["opt"] == "lb":
        if "static" in cfg:
            kw["static"] = cfg["static"]
        return ps.single.LocalBestPSO(n, d, options, **kw)
    if cfg["opt"] == "bin":
        return ps.discrete.BinaryPSO(n, d, options, **kw)
    if cfg["opt"] == "gen":
        return ps.single.GeneralOptimizerPSO(n, d, options, make_topology(cfg), **kw)
    raise ValueError(cfg["opt"])


def formed(form, options, bounds, clamp, init, n, d):
    """The same inputs, written in another way."""
    if "reorder" in form:
        options = dict(sorted(options.items(), reverse=True))
    if "floats" in form:
        options = {q: np.float64(v) if q not in ("k", "p", "r") else int(v) for q, v in options.items()}
    if "more" in form:
        options = dict(dict(k=1, p=1, r=0), **options)
    if "lists" in form and bounds is not None:
        bounds = ([float(v) for v in bounds[0]], [float(v) for v in bounds[1]])
    if "intbounds" in form and bounds is not None:
        bounds = tuple(np.array(b, dtype=int) if all(float(v).is_integer() for v in b) else b for b in bounds)
    if "perdim" in form and clamp is not None and np.ndim(clamp[0]) == 0:
        clamp = (np.full(d, float(clamp[0])), np.full(d, float(clamp[1])))
    if "intinit" in form and init is not None and (np.asarray(init) == np.floor(init)).all():
        init = np.array(init, dtype=int)
    if "floatinit" in form and init is not None:
        init = np.array(init, dtype=float)
    if "fortran" in form and init is not None:
        init = np.asfortranarray(init)
    if "npint" in form:
        n, d = np.int64(n), np.int64(d)
    return options, bounds, clamp, init, n, d


class BackendLoop:
    """An optimiser written with the backend, as the documentation proposes."""

    def __init__(self, cfg, n, d, options, bounds, clamp, init):
        self.cfg, self.n, self.d, self.options, self.bounds, self.clamp, self.init = cfg, n, d, options, bounds, clamp, init
        self.top = make_topology(dict({"top": {"gb": "star", "lb": "ring"}.get(cfg["opt"])}, **{q: cfg[q] for q in ("top", "static") if q in cfg}))
        self.args = {q: options[q] for q in dict(ring="pk", vn="pr", random="k").get(cfg.get("top", "ring" if cfg["opt"] == "lb" else "star"), "")}
        self.reset()

    def reset(self):
        import pyswarms.backend as P

        self.cost_history, self.mean_pbest_history, self.mean_neighbor_history, self.pos_history, self.velocity_history = [], [], [], [], []
        more = {} if "center" not in self.cfg else dict(center=self.cfg["center"])
        self.swarm = P.create_swarm(n_particles=self.n, dimensions=self.d, bounds=self.bounds, init_pos=self.init, clamp=self.clamp, options=self.options, **more)

    def optimize(self, f, iters, n_processes=None, verbose=False, **kwargs):
        import pyswarms.backend as P
        from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler

        s, how = self.swarm, self.cfg["loop"]
        bh, vh = BoundaryHandler(strategy=self.cfg.get("bh", "periodic")), VelocityHandler(strategy=self.cfg.get("vh", "unmodified"))
        s.pbest_pos, s.pbest_cost = s.position, np.full(self.n, np.inf)
        s.best_cost, best = np.inf, None
        for _ in range(iters):
            s.current_cost = P.compute_objective_function(s, f, **kwargs) if how["cost"] else f(s.position, **kwargs)
            s.pbest_pos, s.pbest_cost = P.compute_pbest(s)
            if not how["lazy"] or np.min(s.pbest_cost) < s.best_cost:
                s.best_pos, s.best_cost = self.top.compute_gbest(s, **self.args)
            self.cost_history.append(s.best_cost)
            self.mean_pbest_history.append(np.mean(s.pbest_cost))
            self.mean_neighbor_history.append(s.best_cost)
            self.pos_history.append(s.position)
            self.velocity_history.append(s.velocity)
            if how["top"]:
                s.velocity = self.top.compute_velocity(s, self.clamp, vh, self.bounds)
                s.position = self.top.compute_position(s, self.bounds, bh)
            else:
                s.velocity = P.compute_velocity(s, self.clamp, vh, self.bounds)
                s.position = P.compute_position(s, self.bounds, bh)
        i = int(np.argmin(s.pbest_cost))
        return float(s.pbest_cost[i]), np.array(s.pbest_pos[i])


def topology_facts(cfg):
    """(kind, K, static) of the neighbourhoods the specification expects."""
    if cfg["opt"] == "gb":
        return "star", cfg["n"], True
    if cfg["opt"] in ("lb", "bin"):
        return "ring", cfg["options"]["k"], cfg.get("static", False)
    t = cfg["top"]
    if t == "star":
        return "star", cfg["n"], True
    if t == "ring":
        return "ring", cfg["options"]["k"], cfg.get("static", False)
    if t == "vn":
        return "ring", delannoy(cfg["d"], cfg["options"]["r"]), True
    if t == "pyramid":
        return ("star" if cfg["n"] <= cfg["d"] + 1 else "any"), cfg["n"], cfg.get("static", False)
    return "link", cfg["n"], cfg.get("static", False)


def delannoy(d, r):
    """Integer points of Z^d with L1 norm at most r."""
    if d == 0:
        return 1
    return sum(delannoy(d - 1, r - abs(a)) for a in range(-r, r + 1))


# ------------------------------------------------------------------ recording
class Tokens:
    def __init__(self):
        self.d = {}

    def __call__(self, a):
        a = np.asarray(a, dtype=float) + 0.0
        return self.d.setdefault((a.shape, a.tobytes()), len(self.d) + 1)

    def rows(self, m):
        return [self(r) for r in np.asarray(m, dtype=float)]


def snap(opt):
    s = opt.swarm
    return dict(position=np.array(s.position, dtype=float), velocity=np.array(s.velocity, dtype=float),
                pbest_pos=np.array(s.pbest_pos, dtype=float), pbest_cost=np.array(s.pbest_cost, dtype=float),
                best_pos=np.array(s.best_pos, dtype=float), best_cost=s.best_cost, options=dict(s.options))


def run_history(cfg):
    """Performs cfg["ops"] on one optimiser; returns the raw record."""
    raw = {"ops": []}
    opt = build(cfg)
    raw["new"] = snap(opt)
    obj = Objective(cfg["objective"])
    for op in cfg["ops"]:
        if op[0] == "reset":
            before = np.array(opt.swarm.position, dtype=float)
            if op[1].get("seed") is not None:
                np.random.seed(op[1]["seed"])
            opt.reset()
            raw["ops"].append(dict(op="reset", snap=snap(opt), before=before, hist=histories(opt)))
            continue
        iters, o = op[1], (op[2] if len(op) > 2 else {})
        if o.get("objective"):
            obj = Objective(o["objective"])
        kwargs = o.get("kwargs", {})
        evs, mine = [], []
        rec = dict(op="run", iters=iters, start=snap(opt), evs=evs, fail=o.get("fail"))

        def f(x, **kw):
            if len(evs) > 4 * iters + 50:
                raise RuntimeError("far more evaluations than requested")
            ev = dict(x=np.array(x, dtype=float), kw=(kw == kwargs), snap=snap(opt), xdtype=str(np.asarray(x).dtype))
            evs.append(ev)
            if o.get("fail") is not None and len(evs) - 1 == o["fail"]:
                mine.append(boom(cfg.get("sid", 0) + len(raw["ops"]) + len(evs)))
                raise mine[-1]
            c = obj(x)
            ev["c"] = np.array(c, dtype=float)
            return c

        if op[0] == "run":
            try:
                res = opt.optimize(f, iters, verbose=False, **kwargs)
                rec["result"] = (float(res[0]), np.array(res[1], dtype=float))
                rec["shape"] = bool(np.ndim(res[0]) == 0 and np.shape(res[1]) == (cfg["d"],))
            except Boom as e:
                rec["raised"] = True
                rec["same"] = bool(mine) and same(e, mine[-1])
        rec["end"] = snap(opt)
        rec["hist"] = histories(opt)
        raw["ops"].append(rec)
    raw["final"] = histories(opt)
    return raw


def histories(opt):
    return dict(c=[float(v) for v in opt.cost_history], m=[float(v) for v in opt.mean_pbest_history],
                q=[float(v) for v in opt.mean_neighbor_history],
                x=[np.array(v, dtype=float) for v in opt.pos_history],
                v=[np.array(v, dtype=float) for v in opt.velocity_history])


# ----------------------------------------------------------------- projection
class Projector:
    def __init__(self, cfg, raw):
        self.cfg, self.raw = cfg, raw
        self.tok, self.vtok = Tokens(), Tokens()
        self.S = 8 if cfg["objective"]["kind"] in INT_KINDS and not cfg.get("rank") else 0
        for op in cfg["ops"]:
            if op[0] == "run" and len(op) > 2 and op[2].get("objective") and op[2]["objective"]["kind"] not in INT_KINDS:
                self.S = 0
        vals = set()
        for r in raw["ops"]:
            for ev in r.get("evs", []):
                vals.update(float(v) for v in np.ravel(ev.get("c", [])))
            for h in (r.get("hist"),):
                if h:
                    vals.update(h["c"] + h["q"])
            if "result" in r:
                vals.add(r["result"][0])
            for ev in r.get("evs", []):
                vals.update(float(v) for v in np.ravel(ev["snap"]["pbest_cost"]))
                vals.add(float(ev["snap"]["best_cost"]))
        self.ranks = {v: i for i, v in enumerate(sorted(v for v in vals if math.isfinite(v)))}

    def cost(self, v):
        v = float(v)
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return INF if v > 0 else NINF
        if self.S:
            w = v * self.S
            if w == round(w) and abs(w) < 1e8:
                return int(w)
            return 500000000 + self.ranks.get(v, 0)
        return self.ranks.get(v, 400000000)

    def costs(self, a):
        return [self.cost(v) for v in np.ravel(a)]

    def mean(self, v):
        """n * S * mean as an integer."""
        v = float(v)
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return INF if v > 0 else NINF
        if not self.S:
            return 0
        w = v * self.S * self.cfg["n"]
        return int(round(w)) if abs(w - round(w)) < 1e-6 * max(1.0, abs(w) * 1e-3) and abs(w) < 9e8 else 777777777

    def lines(self):
        cfg, raw = self.cfg, self.raw
        n, d = cfg["n"], cfg["d"]
        sid = cfg["sid"]
        top, K, static = topology_facts(cfg)
        b = cfg.get("bounds") if cfg["opt"] != "bin" else None
        self.lb, self.ub = (np.array(b["lb"], dtype=float), np.array(b["ub"], dtype=float)) if b else (None, None)
        cl = make_clamp(cfg)
        self.clo, self.chi = (np.broadcast_to(np.asarray(cl[0], float), (d,)), np.broadcast_to(np.asarray(cl[1], float), (d,))) if cl else (None, None)
        binary = cfg["opt"] == "bin"
        out = []
        facts = []

        def ok_shape(s):
            return s["position"].shape == (n, d) and s["velocity"].shape == (n, d)

        def oob(x):
            if self.lb is None:
                return 0
            x = np.asarray(x, dtype=float)
            return int((~((x >= self.lb) & (x <= self.ub))).sum())

        def ooc(v):
            if self.clo is None:
                return 0
            v = np.asarray(v, dtype=float)
            return int((~((v >= self.clo) & (v <= self.chi))).sum())

        def nbin(x):
            return int((~((x == 0) | (x == 1))).sum()) if binary else 0

        def fact(clause, ok):
            out.append(dict(sid=sid, k="fact", clause=clause, ok=bool(ok)))

        ip = make_init(cfg)
        init = self.tok.rows(ip) if ip is not None else []
        s0 = raw["new"]
        fact("C18.shape", ok_shape(s0))
        if not ok_shape(s0):
            return out
        out.append(dict(sid=sid, k="new", n=n, S=self.S, F=cfg.get("ftol_iter", 1),
                        tn=cfg["ftol"][0] if "ftol" in cfg else -1, td=cfg["ftol"][1] if "ftol" in cfg else 1,
                        top=top, K=K, static=static, coef=[0, 0, 0],
                        x=self.tok.rows(s0["position"]), v=self.vtok(s0["velocity"]), init=init,
                        nob=oob(s0["position"]), noc=ooc(s0["velocity"])))
        samples = np.random.default_rng(cfg.get("seed", 0) + 5)
        static_seen = False
        for r in raw["ops"]:
            h = r["hist"]
            if r["op"] == "reset":
                s = r["snap"]
                if not ok_shape(s):
                    fact("C14.shape", False)
                    return out
                fresh = (float(s["best_cost"]) == math.inf and bool(np.isposinf(np.ravel(s["pbest_cost"])).all()) and s["pbest_pos"].shape == (n, d)
                         and bool((s["pbest_pos"] == s["position"]).all()))
                out.append(dict(sid=sid, k="reset", x=self.tok.rows(s["position"]), v=self.vtok(s["velocity"]),
                                lens=[len(h[q]) for q in "cmqxv"], init=init, fresh=bool(fresh),
                                same=bool(not binary and (s["position"] == r["before"]).all()),
                                nob=oob(s["position"]), noc=ooc(s["velocity"]), nbin=nbin(s["position"])))
                continue
            st = r["start"]
            out.append(dict(sid=sid, k="run", iters=r["iters"], x=self.tok.rows(st["position"]), v=self.vtok(st["velocity"])))
            evs = r["evs"]
            done = [e for e in evs if "c" in e]
            for t, e in enumerate(done):
                shapes = (e["x"].shape == (n, d) and e["c"].shape == (n,) and ok_shape(e["snap"]))
                if not shapes:
                    fact("C13.whole_swarm", False)
                    return out
                # what the swarm shows once this iteration is over
                post = evs[t + 1]["snap"] if t + 1 < len(evs) else r["end"]
                p = dict(sid=sid, k="it", t=t, x=self.tok.rows(e["x"]), c=self.costs(e["c"]), kw=e["kw"],
                         nob=oob(e["x"]), noc=ooc(e["snap"]["velocity"]), nbin=nbin(e["x"]),
                         v=self.vtok(e["snap"]["velocity"]), post=True, dr=[], mv=[], ps=[], co=[0, 0, 0])
                good = post["pbest_pos"].shape == (n, d) and post["pbest_cost"].shape == (n,) and \
                    post["best_pos"].shape in ((d,), (n, d)) and np.ndim(post["best_cost"]) == 0
                if not good:
                    fact("C02.shape", False)
                    return out
                att = post["best_pos"]
                if att.shape == (d,) and (n != d or top == "star"):
                    attm = np.tile(att, (n, 1))
                elif att.shape == (n, d):
                    attm = att
                else:
                    attm = np.tile(att, (n, 1))
                p.update(pbc=self.costs(post["pbest_cost"]), pbt=self.tok.rows(post["pbest_pos"]),
                         best=self.cost(post["best_cost"]), att=self.tok.rows(attm))
                if top == "ring" and not (static and static_seen):
                    p["dr"] = dist_ranks(e["x"], cfg["options"].get("p", 2))
                    static_seen = True
                self._motion(p, cfg, e, post, attm, r, t, evs, samples, binary)
                out.append(p)
            raised = bool(r.get("raised"))
            en = r["end"]
            if not ok_shape(en):
                fact("C10.shape", False)
                return out
            line = dict(sid=sid, k="end", raised=raised, t=len(done), x=self.tok.rows(en["position"]), v=self.vtok(en["velocity"]),
                        cost=0, tok=0, shape=True, hlast=0)
            if r.get("fail") is not None and not raised and len(evs) > r["fail"]:
                fact("C25.propagates", False)
            if not raised:
                line.update(cost=self.cost(r["result"][0]), tok=self.tok(r["result"][1]), shape=r["shape"],
                            hlast=self.cost(h["c"][-1]) if h["c"] else NAN)
            out.append(line)
            if raised:
                ok = len(evs) == r["fail"] + 1
                fact("C25.no_further_evaluation", ok)
                fact("C25.unchanged", r["same"])
            out.append(self._hist(h, sid, oob, ooc, nbin))
        out.append(self._hist(raw["final"], sid, oob, ooc, nbin))
        return out

    def _hist(self, h, sid, oob, ooc, nbin):
        lens = [len(h[q]) for q in "cmqxv"]
        m = min(lens)
        n, d = self.cfg["n"], self.cfg["d"]
        good = all(x.shape == (n, d) for x in h["x"]) and all(v.shape == (n, d) for v in h["v"])
        H = []
        for i in range(m if good else 0):
            H.append(dict(x=self.tok.rows(h["x"][i]), v=self.vtok(h["v"][i]), c=self.cost(h["c"][i]),
                          m=self.mean(h["m"][i]), q=self.cost(h["q"][i])))
        return dict(sid=sid, k="hist", lens=lens, h=H, nob=sum(oob(x) for x in h["x"]) if good else 0,
                    noc=sum(ooc(v) for v in h["v"]) if good else 0, nbin=sum(nbin(x) for x in h["x"]) if good else 0)

    def _motion(self, p, cfg, e, post, attm, r, t, evs, rng, binary):
        if cfg.get("oh") or cfg.get("vh", "unmodified") == "adjust":
            return
        if t + 1 >= len(evs) and (r.get("raised") or t + 1 < r["iters"]):
            return  # stopped or failed here: the swarm need not have moved
        n, d = cfg["n"], cfg["d"]
        co = [cfg["options"][q] for q in ("w", "c1", "c2")]
        if max(abs(c) for c in co) > 4:
            return
        if cfg.get("vh", "unmodified") in ("invert", "zero") and (self.lb is None or bool(((e["x"] < self.lb) | (e["x"] > self.ub)).any())):
            return
        p["co"] = [int(round(c * 4096)) for c in co]
        v, v2 = e["snap"]["velocity"], post["velocity"]
        a, b = post["pbest_pos"] - e["x"], attm - e["x"]
        x2 = post["position"]
        cells = [(int(rng.integers(n)), int(rng.integers(d))) for _ in range(4)]
        for i, j in cells:
            q = [float(v[i, j]), float(v2[i, j]), float(a[i, j]), float(b[i, j])]
            if not all(map(math.isfinite, q)):
                continue
            big = max(map(abs, q)) or 1.0
            if not 2.0 ** -900 < big < 2.0 ** 900:
                continue            # where numbers have no full precision
            sc = 2.0 ** (12 - math.frexp(big)[1])
            lo = hi = None
            if self.clo is not None:
                lo, hi = float(self.clo[j]) * sc, float(self.chi[j]) * sc
            lo = -500000 if lo is None else int(round(max(-500000, min(500000, lo))))
            hi = 500000 if hi is None else int(round(max(-500000, min(500000, hi))))
            p["mv"].append([int(round(z * sc)) for z in q] + [lo, hi])
            if self.lb is None and not binary:
                z = [float(e["x"][i, j]), float(v2[i, j]), float(x2[i, j])]
                big = max(map(abs, z)) or 1.0
                if not 2.0 ** -900 < big < 2.0 ** 900:
                    continue
                sc = 2.0 ** (29 - math.frexp(big)[1])
                p["ps"].append([int(round(y * sc)) for y in z])


def dist_ranks(x, p):
    n = x.shape[0]
    diff = np.abs(x[:, None, :] - x[None, :, :])
    D = diff.sum(axis=2) if p == 1 else np.sqrt((diff ** 2).sum(axis=2))
    vals = np.sort(np.unique(D))
    rank, cur, last = {}, 0, None
    least = 1e-14 * float(np.abs(x).max()) if x.size else 0.0
    for v in vals:
        if last is not None and v - last > max(1e-9 * v, least):
            cur += 1
        rank[v] = cur
        last = v
    return [[rank[D[i, j]] for j in range(n)] for i in range(n)]


def project(cfg):
    raw = run_history(cfg)
    return Projector(cfg, raw).lines()
