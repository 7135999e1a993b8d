"""Hyper-parameter searches, recorded by the optimiser class handed to them."""
import numpy as np

import vlib
from checks.common import Background, drive

Q = 2 ** 20
KEYS = ["c1", "c2", "w", "k", "p"]


def k_range(rng):
    a = int(rng.integers(1, 7))
    return [a, a + 1] if rng.random() < 0.4 else sorted(int(v) for v in rng.choice(np.arange(1, 8), size=2, replace=False))


class Book:
    def __init__(self):
        self.built, self.cands, self.states = [], [], []


def fake(book, table):
    """An optimiser whose score is a function of its options alone."""

    class Fake(object):
        def __init__(self, n_particles, dimensions, options, bounds=None, velocity_clamp=None, **more):
            self.args = (n_particles, dimensions, bounds, velocity_clamp, more)
            self.options = dict(options)
            self.at = len(book.built)
            book.built.append([self.args, dict(options), 0, None, None])

        def optimize(self, objective_func, iters, **kw):
            rec = book.built[self.at]
            rec[2] += 1
            x = np.arange(float(self.args[0] * self.args[1])).reshape(self.args[0], -1)
            score = table(self.options)
            rec[3], rec[4] = (iters, np.array(objective_func(x)), np.array(x)), score
            return score, np.zeros(self.args[1])

    return Fake


def real(book, name):
    import pyswarms as ps

    base = {"gb": ps.single.GlobalBestPSO, "lb": ps.single.LocalBestPSO, "bin": ps.discrete.BinaryPSO}[name]

    class Real(base):
        def __init__(self, n_particles, dimensions, options, bounds=None, velocity_clamp=None, **more):
            self.at = len(book.built)
            self.state0 = np.random.get_state()
            book.built.append([(n_particles, dimensions, bounds, velocity_clamp, more), dict(options), 0, None, None])
            kw = {} if name == "bin" else {"bounds": bounds}
            super(Real, self).__init__(n_particles, dimensions, options, velocity_clamp=velocity_clamp, **kw, **more)

        def optimize(self, objective_func, iters, **kw):
            rec = book.built[self.at]
            rec[2] += 1
            # anew, from the same state of the random numbers
            now = np.random.get_state()
            np.random.set_state(self.state0)
            a = rec[0]
            q = {} if name == "bin" else {"bounds": a[2]}
            twin = base(a[0], a[1], dict(rec[1]), velocity_clamp=a[3], **q, **a[4])
            np.random.set_state(now)
            want = twin.optimize(objective_func, iters, verbose=False)[0]
            np.random.set_state(now)
            kw["verbose"] = False
            out = super(Real, self).optimize(objective_func, iters, **kw)
            x = np.arange(float(a[0] * a[1])).reshape(a[0], -1)
            rec[3], rec[4] = (iters, np.array(objective_func(x)), x), float(out[0])
            rec.append(float(want) == float(out[0]))
            return out

    return Real


def objective(x):
    return np.floor((np.asarray(x) ** 2).sum(axis=1) * 64) / 64


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    return len(a) == len(b) and all(np.array_equal(np.asarray(p), np.asarray(q)) for p, q in zip(a, b))


def typed(v):
    return (isinstance(v, (int, np.integer)) and not isinstance(v, bool), float(v))


def run(sc):
    from pyswarms.utils.search import GridSearch, RandomSearch

    sid, out = sc["sid"], []
    book = Book()
    scale = sc.get("weights", {})

    def table(o):
        if sc.get("scores"):
            return sc["scores"][int(sum((i + 1) * 7919 * float(o[k]) * 1024 for i, k in enumerate(sorted(o)))) % len(sc["scores"])]
        return sum(scale.get(k, 0) * float(v) for k, v in o.items())

    cls = fake(book, table) if sc["opt"] == "fake" else real(book, sc["opt"])
    options = {k: (list(v) if isinstance(v, list) else v) for k, v in sc["options"].items()}
    n, d = sc["n"], sc["d"]
    bounds = None if sc.get("bounds") is None else tuple(np.array(b, dtype=float) for b in sc["bounds"])
    clamp = tuple(sc["clamp"]) if sc.get("clamp") is not None else None
    kw = dict(bounds=bounds)
    if "clamp" in sc:
        kw["velocity_clamp"] = clamp
    else:
        clamp = (0, 1)
    if sc["what"] == "grid":
        s = GridSearch(cls, n, d, options, objective, sc["iters"], **kw)
    else:
        s = RandomSearch(cls, n, d, options, objective, sc["iters"], n_selection_iters=sc["count"], **kw)
    before = repr(sc["options"])
    keys = list(sc["options"])
    trials = []
    for rep, maximum in enumerate(sc["max"]):
        del book.built[:]
        if str(rep) in sc.get("reseed", {}):
            np.random.seed(sc["reseed"][str(rep)])
        r = s.search(maximum) if maximum or rep % 2 else s.search()
        cands = [b for b in book.built if b[2] > 0]
        keysok = all(set(b[1]) == set(keys) for b in cands)
        out.append(dict(sid=sid, k="fact", clause="C17.keys", ok=bool(keysok)))
        if not keysok:
            return out
        out.append(dict(sid=sid, k="fact", clause="C17.arguments", ok=bool(all(
            b[0][0] == n and b[0][1] == d and same(b[0][2], bounds) and same(b[0][3], clamp) and b[3][0] == sc["iters"]
            and np.array_equal(b[3][1], objective(b[3][2])) for b in cands))))
        out.append(dict(sid=sid, k="fact", clause="C17.new_optimiser", ok=bool(all(len(b) < 6 or b[5] for b in cands))))
        scores = [float(b[4]) for b in cands]
        rank = {v: i for i, v in enumerate(sorted(set(scores)))}
        try:
            ret, opts = r
            kept = bool(s.best_score == ret and dict(s.best_options) == dict(opts))
            got = rank.get(float(ret), -1)
            bo = {k: opts[k] for k in keys} if set(opts) == set(keys) else {}
        except (TypeError, ValueError):
            kept, got, bo = False, -1, {}
        if sc["what"] == "grid":
            lists = [v if isinstance(v, list) else [v] for v in (sc["options"][k] for k in keys)]

            def tok(o):
                return [next((i + 1 for i, v in enumerate(lists[q]) if v == o[k] and type(v) is type(o[k])), 0) for q, k in enumerate(keys)]

            out.append(dict(sid=sid, k="grid", lists=[[next(i + 1 for i, u in enumerate(v) if u == z and type(u) is type(z)) for z in v] for v in lists], tried=[tok(b[1]) for b in cands]))
        else:
            ks = [k for k in keys if k != "p"]

            def tok(o):
                return [int(round(float(o[k]) * Q)) for k in ks]

            out.append(dict(sid=sid, k="random", count=sc["count"], ranges=[[int(round(v * Q)) for v in sc["options"][k]] for k in ks], tried=[tok(b[1]) for b in cands],
                            ints=bool(all(typed(b[1]["k"])[0] for b in cands)),
                            const=[int(round(float(b[1]["p"]) * Q)) for b in cands], p=int(round(sc["options"]["p"] * Q))))
        exact = [repr(sorted((k, float(v)) for k, v in b[1].items())) for b in cands]
        names = {v: i + 1 for i, v in enumerate(dict.fromkeys(exact))}
        out.append(dict(sid=sid, k="result", max=bool(maximum), scores=[rank[v] for v in scores], score=got, tried=[names[v] for v in exact],
                        best=names.get(repr(sorted((k, float(v)) for k, v in bo.items())), 0), runs=[b[2] for b in cands], kept=kept))
        trials.append((rep, exact))
    out.append(dict(sid=sid, k="fact", clause="C17.inputs", ok=bool(repr(options) == before)))
    seeds = {int(k): v for k, v in sc.get("reseed", {}).items()}
    for a in range(len(trials)):
        for b in range(a):
            if seeds.get(a) is not None and seeds.get(a) == seeds.get(b):
                out.append(dict(sid=sid, k="fact", clause="C17.reproducible", ok=bool(trials[a][1] == trials[b][1])))
            elif sc["what"] == "random" and sc["count"] > 1:
                # another search draws anew
                out.append(dict(sid=sid, k="fact", clause="C17.fresh", ok=bool(trials[a][1] != trials[b][1])))
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 17])
    sc = []

    def vals(q, m):
        if q == "k":
            return [int(v) for v in rng.choice(np.arange(1, 7), size=m, replace=False)]
        if q == "p":
            return [int(v) for v in rng.choice([1, 2], size=min(m, 2), replace=False)]
        v = rng.choice(np.arange(1, 40), size=m, replace=False) / 16
        if rng.random() < 0.3:      # nothing at all of it
            v[int(rng.integers(m))] = 0
        return [float(x) for x in v] if rng.random() < 0.7 else [int(x * 16) for x in v]

    for j in range(3000 if thor else 300):
        n, d = int(rng.integers(7, 10)), int(rng.integers(1, 4))
        s = dict(n=n, d=d, iters=int(rng.integers(1, 5)), max=[bool(v) for v in rng.random(int(rng.integers(1, 3))) < 0.5])
        s["opt"] = ["fake", "fake", "lb", "gb", "bin"][int(rng.integers(5))]
        if rng.random() < 0.5:
            s["bounds"] = [[-float(v) for v in rng.integers(1, 5, size=d)], [float(v) for v in rng.integers(1, 5, size=d)]]
        if rng.random() < 0.6:
            s["clamp"] = [[-1.0, 1.0], None, [-0.25, 2], [0, 1]][int(rng.integers(4))]
        if s["opt"] == "fake":
            if rng.random() < 0.5:
                s["weights"] = {q: float(rng.integers(-3, 4)) for q in KEYS}
            else:
                s["scores"] = [[0.0, 1.0, -1.0], [float("inf"), 3.0, 3.0, -2.0, 0.5], [float("inf")], [-5.5, -5.25, 1e300], [0, 0, 7]][int(rng.integers(5))]
        if rng.random() < 0.5:
            s["what"] = "grid"
            keys = list(KEYS)
            rng.shuffle(keys)
            o = {}
            for q in keys:
                m = int(rng.choice([0, 1, 2, 3, 5 if s['opt'] == 'fake' and rng.random() < 0.3 else 1]))
                o[q] = vals(q, max(1, m)) if m else vals(q, 1)[0]
                if m > 1 and rng.random() < 0.15:     # the same value again
                    o[q][-1] = o[q][0]
            if s["opt"] == "gb" or (s["opt"] == "fake" and rng.random() < 0.3):
                o.pop("k"), o.pop("p")
            if s["opt"] != "fake":     # real runs take their time
                while np.prod([len(v) if isinstance(v, list) else 1 for v in o.values()]) > 24:
                    q = max(o, key=lambda z: len(o[z]) if isinstance(o[z], list) else 0)
                    o[q] = o[q][:-1]
        else:
            s["what"] = "random"
            s["count"] = int(rng.choice([1, 2, 3, 10, 40, 130] if s["opt"] == "fake" else [1, 2, 6]))
            o = {}
            keys = ["c1", "c2", "w", "k"]
            rng.shuffle(keys)
            for q in keys:
                a = float(np.round(rng.uniform(-1, 3), 3))
                a = 0.0 if rng.random() < 0.15 else a
                o[q] = [a, a + float(np.round(rng.uniform(0.01, 4), 3))] if q != "k" else k_range(rng)
            o["p"] = int(rng.integers(1, 3))
            if len(s["max"]) > 1 and rng.random() < 0.5:
                z = int(rng.integers(1 << 30))
                s["reseed"] = {0: z, 1: z}
        s["options"] = o
        sc.append(s)
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
        if "reseed" in s:
            s["reseed"] = {str(k): v for k, v in s["reseed"].items()}
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    base = dict(Lists="TwoByThree", Scores="0..2", Max="FALSE", Repeats=2 if thor else 1, Fault='"none"')
    inv, props = ["TriesAll", "ReturnsBest", "OneRunEach"], ["NewEach"]
    for m in ("FALSE", "TRUE"):
        V.add_mc("Search/max=" + m, vlib.model_check("Search", scratch, dict(base, Max=m), inv, props, workers=2, timeout=3000))
    for f in ("zip", "reuse", "last", "minonly", "exhausted"):
        r = vlib.tlc("Search", vlib.cfg_text("Spec", dict(base, Max="TRUE", Repeats=2, Scores="0..1", Fault='"%s"' % f), inv, props), scratch)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Search/planted-" + f, r)


def check(V, scratch):
    bg = Background(design, V, scratch)
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "SearchTrace", total=3000, vtimeout=3000)
    bg.join()
