"""Coefficient schedules: the handler itself, and what is in force in runs."""
import numpy as np

import vlib
from checks.common import Background, drive

Q = 2 ** 20
STRATS = ["lin_variation", "nonlin_mod", "exp_decay", "random"]
PAR = dict(p=6, q=5, d1=int(0.2 * Q), d2n=7, d2d=1)


def q(v):
    v = float(v)
    return int(round(max(-900, min(900, v)) * Q)) if np.isfinite(v) else 2 ** 30


def entry(sid, k, clause, name, strat, start, i, n, got, end=None, par=PAR):
    return dict(sid=sid, k=k, clause=clause, name=name, strat=strat, start=q(start), given=end is not None, end=q(end or 0), i=int(i), n=int(n),
                par=par, got=q(got))


def same(a, b):
    return type(a) is type(b) and a == b


def run(sc):
    return {"handler": handler, "inertia": inertia, "pull": pull, "others": others}[sc["what"]](sc)


def handler(sc):
    from pyswarms.backend.handlers import OptionsHandler

    sid, out = sc["sid"], []
    oh = OptionsHandler(strategy=dict(sc["strategy"]))
    start = dict(sc["start"])
    before = dict(start)
    n = sc["n"]
    seen = {}
    for i in sc["order"]:
        kw, par = {}, dict(PAR)
        if sc.get("end"):
            kw["end_opts"] = dict(sc["end"])
        if "d1" in sc:
            kw.update(d1=sc["d1"], d2=sc["d2n"] / sc["d2d"])
            par.update(d1=q(sc["d1"]), d2n=sc["d2n"], d2d=sc["d2d"])
        if "p" in sc:
            kw["n"] = sc["p"] / sc["q"]
            par.update(p=sc["p"], q=sc["q"])
        got = oh(start, iternow=i, itermax=n, **kw)
        out.append(dict(sid=sid, k="fact", clause="C15.keys", ok=set(got) == set(before)))
        if set(got) != set(before):
            break
        for name, v in before.items():
            st = sc["strategy"].get(name)
            if st is None:
                out.append(dict(sid=sid, k="fact", clause="C15.unscheduled", ok=bool(same(got[name], v))))
            else:
                out.append(entry(sid, "opt", "C15." + st, name, st, v, i, n, got[name], (sc.get("end") or {}).get(name), par))
                if st == "random":
                    seen.setdefault(name, []).append(q(got[name]))
    ok = set(start) == set(before) and all(same(start[k], v) for k, v in before.items())
    out.append(dict(sid=sid, k="fact", clause="C15.dictionary", ok=bool(ok)))
    for v in seen.values():
        if len(v) > 3 and sc.get("spread"):
            out.append(dict(sid=sid, k="fresh", clause="C15.random_varies", v=v))
    return out


def build(sc, options):
    import optrun

    n, d = sc["n"], sc["d"]
    cfg = dict(opt=sc["opt"], n=n, d=d, options=options, top=sc.get("top"), static=False, oh=dict(sc["strategy"]))
    parts = {"shared": (options, None, None, np.array(sc["init"], dtype=float) if sc.get("init") else None)}
    return optrun.build(cfg, parts)


def extra(sc):
    return dict(k=sc["kk"], p=2, r=0) if sc["opt"] == "lb" or sc.get("top") in ("ring", "random", "vn") else {}


def inertia(sc):
    """Without any attraction the velocity shrinks by the inertia in force."""
    sid, out = sc["sid"], []
    options = dict(c1=0, c2=0, w=sc["w"], **extra(sc))
    before = dict(options)
    opt = build(sc, options)
    for r, n in enumerate(sc["runs"]):
        if r in sc.get("resets", []):
            opt.reset()
        vs = []

        def f(x):
            vs.append(np.array(opt.swarm.velocity))
            return np.ones(x.shape[0])

        opt.optimize(f, n, verbose=False)
        vs.append(np.array(opt.swarm.velocity))
        for i in range(n):
            a, b = vs[i], vs[i + 1]
            m = np.unravel_index(np.abs(a).argmax(), a.shape)
            if not np.isfinite(a[m]) or abs(a[m]) < 1e-250:
                break
            out.append(entry(sid, "opt", "C15.in_force", "w", sc["strategy"]["w"], sc["w"], i, n, b[m] / a[m]))
            # the same for everybody
            ok = np.allclose(b, a * (b[m] / a[m]), rtol=1e-9, atol=1e-300)
            out.append(dict(sid=sid, k="fact", clause="C15.everybody", ok=bool(ok)))
    ok = set(options) == set(before) and all(same(options[k], v) for k, v in before.items())
    out.append(dict(sid=sid, k="fact", clause="C15.dictionary", ok=bool(ok)))
    return out


def pull(sc):
    """With one attraction only, the largest move in units of the distance."""
    sid, out = sc["sid"], []
    name = sc["name"]
    options = dict(c1=0.0, c2=0.0, w=0.5, **extra(sc))
    options[name] = sc["c"]
    before = dict(options)
    opt = build(sc, options)
    for r, n in enumerate(sc["runs"]):
        if r in sc.get("resets", []):
            opt.reset()
        rec = []
        t = [0]

        def f(x):
            rec.append((np.array(x), np.array(opt.swarm.velocity), np.array(opt.swarm.pbest_pos), np.array(opt.swarm.best_pos)))
            t[0] += 1
            return np.arange(x.shape[0]) + 1000.0 * t[0]

        opt.optimize(f, n, verbose=False)
        rec.append((None, np.array(opt.swarm.velocity), np.array(opt.swarm.pbest_pos), np.array(opt.swarm.best_pos)))
        for i in range(n):
            x, v, _, _ = rec[i]
            _, v2, pb, bp = rec[i + 1]
            dist = (pb if name == "c1" else np.broadcast_to(bp, x.shape)) - x
            good = np.abs(dist) > 1e-6
            if good.sum() < 500:
                continue
            u = ((v2 - 0.5 * v)[good]) / dist[good]
            c = u.max() if u.max() > -u.min() else u.min()
            # no move in the other direction
            out.append(dict(sid=sid, k="fact", clause="C15.direction", ok=bool(-1e-6 <= u.min() or u.max() <= 1e-6)))
            out.append(entry(sid, "force", "C15.pull_in_force", name, sc["strategy"].get(name, "-"), sc["c"], i, n, c))
    ok = set(options) == set(before) and all(same(options[k], v) for k, v in before.items())
    out.append(dict(sid=sid, k="fact", clause="C15.dictionary", ok=bool(ok)))
    return out


def others(sc):
    """Coefficients without a schedule, and all other options, stay in force."""
    sid, out = sc["sid"], []
    options = dict(c1=sc["c"], c2=0.75, w=sc["w"], **extra(sc))
    before = dict(options)
    opt = build(sc, options)
    for r, n in enumerate(sc["runs"]):
        shown = []

        def f(x):
            shown.append(dict(opt.swarm.options))
            return (x ** 2).sum(axis=1)

        opt.optimize(f, n, verbose=False)
        shown.append(dict(opt.swarm.options))
        for s in shown:
            for k, v in before.items():
                if k not in sc["strategy"]:
                    out.append(dict(sid=sid, k="fact", clause="C15.unscheduled", ok=bool(k in s and same(s[k], v))))
    ok = set(options) == set(before) and all(same(options[k], v) for k, v in before.items())
    out.append(dict(sid=sid, k="fact", clause="C15.dictionary", ok=bool(ok)))
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 15])
    sc = []

    def val():
        return float(np.round(rng.uniform(-1, 4) * 1024) / 1024)

    def end():
        return [0.0, -0.5, 0][int(rng.integers(3))] if rng.random() < 0.25 else val()

    for j in range(2500 if thor else 250):
        n = int(rng.choice([1, 2, 3, 10, 57, 100, 400]))
        s = dict(what="handler", n=n, start=dict(w=val(), c1=val(), c2=val()), strategy={})
        if rng.random() < 0.3:
            s["start"].update(k=2, p=1)
        if rng.random() < 0.15:
            s["start"] = {k: int(round(v)) for k, v in s["start"].items()}
        for name in ("w", "c1", "c2"):
            if rng.random() < 0.7:
                s["strategy"][name] = STRATS[int(rng.integers(4))]
        s["order"] = [int(v) for v in rng.integers(0, n, size=6)] + [0, n - 1] + ([n] if rng.random() < 0.4 else [])
        if rng.random() < 0.5:
            s["end"] = {name: end() for name in ("w", "c1", "c2") if rng.random() < 0.6}
        s["spread"] = not s.get("end")
        if rng.random() < 0.3:
            s.update(d1=float(rng.integers(0, 8)) / 8, d2n=int(rng.integers(0, 12)), d2d=int(rng.integers(1, 3)))
        if rng.random() < 0.3:
            s.update(p=int(rng.integers(0, 8)), q=int(rng.integers(1, 6)))
            if s["p"] > 5 * s["q"]:
                s["q"] = s["p"]
        sc.append(s)
    opts = [dict(opt="gb"), dict(opt="lb", kk=3), dict(opt="gen", top="star"), dict(opt="gen", top="ring", kk=2), dict(opt="gen", top="random", kk=2),
            dict(opt="gen", top="pyramid"), dict(opt="gen", top="vn", kk=1)]
    for j in range(600 if thor else 84):
        o = dict(opts[j % len(opts)])
        w = float(rng.choice([0.9, 0.5, 1.0, 0.75, 1.25]))
        sc.append(dict(o, what="inertia", n=6, d=3, w=w, strategy={"w": STRATS[(j // len(opts)) % 4]},
                       runs=[int(v) for v in rng.integers(1, 12, size=2)], resets=[1] if rng.random() < 0.3 else []))
        name = ["c1", "c2"][j % 2]
        st = {name: STRATS[int(rng.integers(4))]} if rng.random() < 0.8 else {"w": "lin_variation"} if False else {}
        if not st:
            st = {{"c1": "c2", "c2": "c1"}[name]: "lin_variation"}      # the one under test is constant
        sc.append(dict(o, what="pull", name=name, n=40, d=30 if o.get("top") != "pyramid" else 39, c=float(rng.choice([2.0, 1.5, 0.5])), strategy=st,
                       runs=[int(v) for v in rng.integers(2, 9, size=2)]))
        if sc[-1]["opt"] == "lb" or sc[-1].get("top") == "ring":
            sc[-1]["kk"] = 20
        sc.append(dict(o, what="others", n=6, d=3, w=w, c=float(rng.choice([1.5, 0.5])), strategy={k: STRATS[int(rng.integers(4))] for k in ("w", "c1", "c2") if rng.random() < 0.4},
                       runs=[3, 2]))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def design(V, scratch):
    base = dict(Starts="{Q, Q \\div 2, 2 * Q, 0 - Q}", Ends="{0, Q \\div 2, 3 * Q}", N=12 if vlib.tier() == "thorough" else 6, Runs=2)
    inv = ["InForce", "Between", "BeginsAtStart"]
    for st in STRATS:
        V.add_mc("Options/" + st, vlib.model_check("Options", scratch, dict(base, Strat='"%s"' % st, Fault='"none"'), inv, workers=2))
    for f in ("compound", "keep"):
        r = vlib.tlc("Options", vlib.cfg_text("Spec", dict(base, Strat='"lin_variation"', Fault='"%s"' % f), inv), scratch)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Options/planted-" + f, r)


def check(V, scratch):
    bg = Background(design, V, scratch)
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "OptionsTrace", total=3000, vtimeout=3000)
    bg.join()
