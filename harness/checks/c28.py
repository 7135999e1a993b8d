"""Loops over the backend: operators read arrays and return new ones."""
import numpy as np

import gen
import vlib
from checks.common import Background, drive
from checks.twin import dig

FIELDS = ["position", "velocity", "pbest_pos", "pbest_cost", "best_pos", "current_cost"]


def run(sc):
    return {"loop": loop, "swarm": swarm_facts}[sc["kind"]](sc)


class Heap:
    """All arrays and dictionaries anybody got, in order of appearance."""

    def __init__(self):
        self.objs, self.num, self.tok = [], {}, {}

    def see(self, x):
        if isinstance(x, (tuple, list)):
            for y in x:
                self.see(y)
        elif isinstance(x, (np.ndarray, dict)) and id(x) not in self.num:
            self.num[id(x)] = len(self.objs) + 1
            self.objs.append(x)

    def contents(self):
        return [self.tok.setdefault(dig(np.array(x)) if isinstance(x, np.ndarray) else dig(x), len(self.tok) + 1) for x in self.objs]


def loop(sc):
    import optrun
    import pyswarms.backend as P
    from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler
    from pyswarms.backend.swarms import Swarm

    sid = sc["sid"]
    h = Heap()
    cfg = sc["cfg"]
    n, d = cfg["n"], cfg["d"]
    bounds, clamp, init = optrun.make_bounds(cfg), optrun.make_clamp(cfg), optrun.make_init(cfg)
    options = dict(cfg["options"])
    h.see([bounds, clamp, init, options])
    first = P.create_swarm(n_particles=n, dimensions=d, bounds=bounds, init_pos=init, clamp=clamp, options=options)
    worlds = {}
    out = [dict(sid=sid, k="begin")]
    for s in range(1, sc["swarms"] + 1):
        # all start from the same arrays
        sw = first if s == 1 else Swarm(position=first.position, velocity=first.velocity, options=options)
        top = optrun.make_topology(cfg)
        worlds[s] = (sw, top, BoundaryHandler(strategy=cfg.get("bh", "periodic")), VelocityHandler(strategy=cfg.get("vh", "unmodified")))
        for q in worlds[s][2:]:
            q.memory = sw.position       # as the optimisers do
    args = {q: options[q] for q in dict(ring="pk", vn="pr", random="k").get(cfg["top"], "")}
    obj = optrun.Objective(cfg["objective"])

    def f(x):
        h.see(x)
        c = obj(x)
        h.see(c)
        return c

    def state(s, op):
        refs, shape, have = {}, {}, {}
        for q, w in worlds.items():
            for name in FIELDS:
                h.see(getattr(w[0], name))
            refs[str(q)] = {name: h.num[id(getattr(w[0], name))] for name in FIELDS}
            shape[str(q)] = {name: list(np.shape(getattr(w[0], name))) for name in FIELDS}
            have[str(q)] = sorted(fields[q])
        out.append(dict(sid=sid, k="step", s=str(s), op=op, heap=h.contents(), refs=refs, shape=shape, set=have,
                        n={str(q): n for q in worlds}, d={str(q): d for q in worlds},
                        size={str(q): [int(w[0].n_particles), int(w[0].dimensions)] for q, w in worlds.items()}))

    for w in worlds.values():
        w[0].pbest_cost = np.full(n, np.inf)
    fields = {q: {"position", "velocity", "pbest_pos", "pbest_cost"} for q in worlds}
    state(1, "none")
    for s, op in sc["script"]:
        sw, top, bh, vh = worlds[s]
        was = (sw.best_cost, sw.options, worlds[3 - s][0].best_cost if 3 - s in worlds else 0)
        # what the operator itself does to the swarm, before anything is stored
        if op == "eval":
            new = dict(current_cost=P.compute_objective_function(sw, f))
        elif op == "pbest":
            a, b = P.compute_pbest(sw)
            new = dict(pbest_pos=a, pbest_cost=b)
        elif op == "gbest":
            a, b = top.compute_gbest(sw, **args)
            new = dict(best_pos=a, best_cost=b)
        elif op == "velocity":
            new = dict(velocity=(top if sc["methods"] else P).compute_velocity(sw, clamp, vh, bounds))
        else:
            new = dict(position=(top if sc["methods"] else P).compute_position(sw, bounds, bh))
        now = (sw.best_cost, sw.options, worlds[3 - s][0].best_cost if 3 - s in worlds else 0)
        if not (was[0] == now[0] and was[1] is now[1] and was[2] == now[2]):
            out.append(dict(sid=sid, k="fact", clause="C28.unchanged", ok=False))
        h.see(list(new.values()))
        state(s, "none")
        for q, v in new.items():
            setattr(sw, q, v)
            if q in FIELDS:
                fields[s].add(q)
        state(s, op)
    return out


def swarm_facts(sc):
    """The swarm is what it is made of, and nothing else."""
    from pyswarms.backend.swarms import Swarm
    import pyswarms.backend as P

    rng = np.random.default_rng(sc["seed"])
    n, d, sid = sc["n"], sc["d"], sc["sid"]
    x, v = rng.normal(size=(n, d)), rng.normal(size=(n, d))
    a, b = Swarm(position=x, velocity=v), Swarm(position=x + 1, velocity=v)
    out = [dict(sid=sid, k="begin")]

    def fact(name, ok):
        out.append(dict(sid=sid, k="fact", clause="C28." + name, ok=bool(ok)))

    fact("size", (a.n_particles, a.dimensions) == (n, d))
    fact("defaults", np.array_equal(a.pbest_pos, x) and a.best_cost == np.inf and a.options == {} and np.size(a.pbest_cost) == 0)
    a.options["c1"] = 1.0
    fact("own_options", b.options == {} and Swarm(position=x, velocity=v).options == {} and P.create_swarm(n_particles=n, dimensions=d).options in ({}, None))
    made = [P.create_swarm(n_particles=n, dimensions=d, discrete=q, binary=q) for q in (False, False, True, True)]
    made[0].options["w"] = 1.0
    made[2].options["w"] = 2.0
    fact("own_options", made[1].options == {} == made[3].options and made[0].options == {"w": 1.0})
    for name, wrong in (("position", x.tolist()), ("velocity", v.tolist()), ("options", [1]), ("pbest_pos", x.tolist()), ("pbest_cost", [1.0] * n),
                        ("best_pos", [0.0] * d), ("current_cost", (1.0,)), ("best_cost", "low"), ("position", None)):
        try:
            Swarm(**dict(dict(position=x, velocity=v), **{name: wrong}))
            ok = False
        except TypeError:
            ok = True
        except AttributeError:
            ok = name == "position"
        fact("typed", ok)
    return out


def scenarios(V, scratch, thor, seed):
    rng = np.random.default_rng([seed, 28])
    cases, r = vlib.generate("BackendGen", scratch, dict(Swarms=2, Length=7 if thor else 6), invariants=["Emit"])
    V.add_mc("BackendGen", r)
    pickd = rng.choice(len(cases), size=min(len(cases), 6000 if thor else 400), replace=False)
    sc = []
    for j in range(len(pickd) + (2000 if thor else 250)):
        c = gen.config(rng, j, opts=("gen",), tol=False)
        if rng.random() < 0.08:
            c = gen.config(rng, j, opts=("gen",), tol=False, n=int(rng.integers(12, 40)), d=int(rng.integers(1, 12)))
        c = {q: w for q, w in c.items() if q not in ("ops", "center")}
        if c["objective"]["kind"] in ("stairs", "noise"):
            c["objective"] = dict(kind="quad", seed=1)
        if j < len(pickd):
            # once round first, so that everything can follow
            once = ["eval", "pbest", "gbest", "velocity", "position"]
            script = [[1, q] for q in once] + [[2, q] for q in once] if rng.random() < 0.5 else []
            script += [list(q) for q in cases[pickd[j]]]
            w = 2
        else:
            w = int(rng.integers(1, 3))
            script = []
            for _ in range(int(rng.integers(2, 8))):
                script += [[s, q] for s in range(1, w + 1) for q in ("eval", "pbest", "gbest", "velocity", "position")]
        sc.append(dict(kind="loop", cfg=c, swarms=w, script=script, methods=bool(rng.random() < 0.5)))
    for j in range(40 if thor else 12):
        sc.append(dict(kind="swarm", n=int(rng.integers(1, 9)), d=int(rng.integers(1, 6))))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    base = dict(Swarms="{1, 2}", Top=2, Goal=1, MaxOps=8 if thor else 6, Fault='"none"')
    inv, act = ["NeverRewritten", "HistoryTrue"], ["OnlyItsFields"]
    V.add_mc("Backend", vlib.model_check("Backend", scratch, base, inv, act, workers=2, timeout=3000))
    for fault in ("inplace", "masked", "alias"):
        r = vlib.tlc("Backend", vlib.cfg_text("Spec", dict(base, Swarms="{1}", Fault='"%s"' % fault, MaxOps=9), inv, act), scratch, workers=2)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + fault)
        V.add_mc("Backend/planted-" + fault, r)


def check(V, scratch):
    thor, seed = vlib.tier() == "thorough", vlib.seed()
    bg = Background(design, V, scratch)
    drive(V, scenarios(V, scratch, thor, seed), scratch, "BackendTrace", total=3000, vtimeout=3000)
    bg.join()
