"""Equivalent configurations run the same search."""
import numpy as np

import gen
import vlib
from checks import twin, twins
from checks.common import Background, drive
from optrun import delannoy

run = twin.run
NO_MEMORY = ["nearest", "random", "reflective", "periodic"]   # strategies that need nothing but the position


def drop(c, *keys):
    for q in keys:
        c.pop(q, None)
    return c


def plain(rng, i, **kw):
    """A configuration without anything that compares costs by their size."""
    return drop(twins.conf(rng, i, tol=False, **kw), "rank")


def wide(rng):
    return dict(n=gen.pick(rng, [13, 24, 40]), d=gen.pick(rng, [2, 5, 11])) if rng.random() < 0.12 else {}


def shifted(rng, a):
    """The swarm may start outside of the bounds."""
    if a.get("bounds") and a.get("bh") != "shrink" and not a.get("init_pos") and rng.random() < 0.3:
        a["center"] = gen.rnd(rng, 0.25, 4)
    return a


def gb_general(rng, i):
    a = shifted(rng, twins.conf(rng, i, opts=("gb",), **wide(rng)))
    return [a, dict(a, opt="gen", top="star", static=bool(rng.random() < 0.5))], {}


def lb_general(rng, i):
    a = shifted(rng, twins.conf(rng, i, opts=("lb",), **wide(rng)))
    return [a, dict(a, opt="gen", top="ring")], {}


def all_in(rng, i):
    """Everybody is everybody's neighbour."""
    n = gen.pick(rng, [1, 2, 3, 4, 5, 7, 11, 26])
    d = gen.pick(rng, [1, 2, 3, 4, 6, 12])
    a = plain(rng, i, opts=("gb",), n=n, d=d, init=False)
    o = a["options"]
    cs = [a, dict(a, opt="gen", top="star")]
    for p in (1, 2):
        for st in (False, True):
            cs.append(dict(a, opt="lb", static=st, options=dict(o, k=n, p=p)))
            cs.append(dict(a, opt="gen", top="ring", static=st, options=dict(o, k=n, p=p)))
    if n <= d + 1 and d > 1:
        cs += [dict(a, opt="gen", top="pyramid", static=st) for st in (False, True)]
    if n > 1:
        cs += [dict(a, opt="gen", top="random", static=st, options=dict(o, k=n - 1)) for st in (False, True)][: 0]
    for r in range(6):
        if delannoy(d, r) == n:
            cs.append(dict(a, opt="gen", top="vn", options=dict(o, r=r, p=gen.pick(rng, [1, 2]))))
    rest = [cs[q] for q in rng.permutation(np.arange(1, len(cs)))[:3]]
    vn = [c for c in cs if c.get("top") in ("vn", "pyramid") and c not in rest][:2]
    return [dict(c, stat=False) for c in [a] + rest + vn], dict(kinds=["tilt"])


def lattice(rng, i):
    a = plain(rng, i, opts=("lb",), n=gen.pick(rng, [5, 7, 10, 26]), d=gen.pick(rng, [1, 2, 3, 4, 6]))
    r = gen.pick(rng, [q for q in range(6) if delannoy(a["d"], q) <= a["n"]])
    o = dict(a["options"], k=delannoy(a["d"], r))
    a.update(static=True, options=o)
    v = {q: w for q, w in o.items() if q != "k"}
    return [a, dict(a, opt="gen", top="vn", options=dict(v, r=r))], {}


def units(rng, i):
    """Bounds, clamp and generated swarm scale with the unit of length."""
    a = plain(rng, i, opts=("gb", "lb", "gen"), bounded=True, clamp=True, vh=gen.pick(rng, ["unmodified", "invert", "zero", "adjust"]), **wide(rng))
    if a.get("top") == "pyramid":
        a["top"] = "star"
    a["bounds"]["as"] = "array"
    drop(a, "init_int")
    cs = [a]
    for j in rng.choice([-20, -3, -1, 1, 2, 10, 30], size=2, replace=False):
        u = 2.0 ** int(j)
        b = dict(a, unit=u, bounds={"lb": [v * u for v in a["bounds"]["lb"]], "ub": [v * u for v in a["bounds"]["ub"]], "as": "array"},
                 clamp=[[v * u for v in q] if isinstance(q, list) else q * u for q in a["clamp"]])
        if a.get("init_pos"):
            b["init_pos"] = (np.array(a["init_pos"], dtype=float) * u).tolist()
        cs.append(b)
    return cs, {}


def costs(rng, i):
    """Only the order of costs matters."""
    a = dict(plain(rng, i, **wide(rng)), moves=True)
    if rng.random() < 0.3:
        return [a] + [dict(a, gain=g) for g in ("double", "tiny", "huge")], dict(kinds=["tilt", "raw", "rawneg"])
    gains = [str(g) for g in rng.choice(sorted(twin.GAINS), size=3, replace=False)]
    return [a] + [dict(a, gain=g) for g in gains], dict(kinds=["quad", "plateau", "hash", "noise", "stairs", "penal", "nanpart"])


def forms(rng, i):
    a = twins.conf(rng, i, **wide(rng))
    if rng.random() < 0.3:
        a["options"] = {q: int(np.ceil(v)) for q, v in a["options"].items()}
    if a.get("bounds"):
        a["bounds"]["as"] = "array"
    words = ["reorder", "floats", "lists", "intbounds", "perdim", "floatinit", "fortran", "npint"]
    if a["opt"] == "gb" or a.get("top") == "star":
        words.append("more")
    if a.get("init_pos") is not None and not a.get("init_int"):
        words.append("intinit")
    if list((a.get("oh") or {}).values()).count("random") > 1:
        words.remove("reorder")       # which coefficient gets the next draw is not promised
    cs = [a]
    for _ in range(2):
        f = [w for w in words if rng.random() < 0.4]
        cs.append(dict(a, form=f))
    if rng.random() < 0.3:
        a2 = drop(dict(a), "bounds", "bh", "vh", "oh", "center", "ftol", "ftol_iter", "init_pos")
        if a2["opt"] == "lb":
            drop(a2, "static")
        cs = [a2, dict(a2, form=["defaults"])]
    return cs, {}


def loops(rng, i):
    bounded = bool(rng.random() < 0.6)
    top = gen.pick(rng, ["gb", "lb", "star", "ring", "vn", "random", "pyramid"])
    kw = dict(opts=(top,)) if top in ("gb", "lb") else dict(opts=("gen",), top=top)
    a = plain(rng, i, bounded=bounded, vh="unmodified" if not bounded else gen.pick(rng, ["unmodified", "invert", "zero"]), **kw)
    drop(a, "oh")
    if bounded:
        a["bh"] = gen.pick(rng, NO_MEMORY)
    full = a["opt"] == "gb" or a.get("top") == "star"
    more = [dict(a, loop=dict(cost=bool(rng.random() < 0.5), top=bool(rng.random() < 0.5), lazy=False)) for _ in range(2)]
    if full:       # a lazy loop, if no two points cost the same
        more[0]["loop"]["lazy"] = True
    return [a] + more, dict(kinds=["tilt"]) if full else dict(kinds=["tilt", "quad", "raw", "hash", "plateau"])


CLASSES = [gb_general, lb_general, all_in, lattice, units, costs, forms, loops]


def scenario(rng, i):
    f = CLASSES[i % len(CLASSES)]
    cs, kw = f(rng, i)
    name = "%s-%d" % (f.__name__, i)
    cs = [dict(c, cls=name) for c in cs]
    n = cs[0]["n"]
    s1, s2 = twins.seed_of(rng), twins.seed_of(rng)
    a, b, e = (twins.run_args(rng, n, kw.get("kinds"), iters=int(rng.integers(1, 9))) for _ in range(3))
    if i % 67 == 33 and f not in (units, costs):     # more iterations than anything may count up to
        a = twins.run_args(rng, n, kw.get("kinds"), iters=int(rng.integers(1030, 1300)))
    for q in (a, b, e):
        if q["objective"]["kind"] == "tilt":
            q["objective"].update(c=gen.rnd(rng, -1, 1), s=gen.rnd(rng, -3, 3))
    b.pop("seed")
    script = []
    for j in range(len(cs)):
        if "loops" in name:     # the swarm of a loop is created once
            script += [[j, "new", {}], [j, "reset", dict(seed=s1)], [j, "run", a], [j, "run", b], [j, "reset", dict(seed=s2)], [j, "run", e]]
            continue
        script += [[j, "new", dict(seed=s1)], [j, "run", a], [j, "run", b], [j, "reset", dict(seed=s2)], [j, "run", e]]
    return dict(cfgs=cs, parts=[dict(script=script)])


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    inv = ["SameMoves", "SameBests"]
    base = dict(N=2, Top=3, Steps=2, Fault='"none"')
    V.add_mc("Equiv/distinct", vlib.model_check("Equiv", scratch, dict(base, Ties="FALSE", Kinds='{"ring", "costs", "units", "loop"}', Steps=3 if thor else 2), inv, workers=2, timeout=3000))
    V.add_mc("Equiv/ties", vlib.model_check("Equiv", scratch, dict(base, Ties="TRUE", Top=3 if thor else 2, Kinds='{"costs", "units"}'), inv, workers=2, timeout=3000))
    if thor:
        V.add_mc("Equiv/three", vlib.model_check("Equiv", scratch, dict(base, N=3, Top=2, Ties="FALSE", Kinds='{"ring", "costs", "units", "loop"}'), inv, timeout=3000))
    # what is not the same: ties in a ring and in a lazy loop; and two mistakes
    for kind, ties, fault, steps in (("ring", "TRUE", "none", 2), ("loop", "TRUE", "none", 3), ("costs", "FALSE", "margin", 2), ("units", "FALSE", "epsilon", 2)):
        r = vlib.tlc("Equiv", vlib.cfg_text("Spec", dict(base, Ties=ties, Steps=steps, Kinds='{"%s"}' % kind, Fault='"%s"' % fault), inv), scratch, workers=2)
        if "is violated" not in r.out:
            raise vlib.Machinery("a difference was not seen: %s %s" % (kind, fault))
        V.add_mc("Equiv/different-%s-%s" % (kind, fault), r)


def check(V, scratch):
    thor = vlib.tier() == "thorough"
    bg = Background(design, V, scratch)
    rng = np.random.default_rng([vlib.seed(), 27])
    drive(V, twins.finish("C27", [scenario(rng, i) for i in range(8000 if thor else 560)]), scratch, "TwinTrace", total=3000, vtimeout=3000)
    bg.join()
