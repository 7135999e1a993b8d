"""The cost decorator: direct calls, and optimisations with it."""
import numpy as np

import gen
import vlib
from checks import twin, twins
from checks.common import Background, drive


class Broken(Exception):
    pass


def run(sc):
    return {"twin": twin.run, "calls": calls, "identity": identity, "pool": pool}[sc["kind"]](sc)


def produce(kind, v):
    return {"int": lambda: int(v * 8), "float": lambda: float(v), "npfloat": lambda: np.float64(v), "npint": lambda: np.int64(v * 8),
            "zerodim": lambda: np.array(v), "inf": lambda: float("inf"), "nan": lambda: float("nan"), "one": lambda: np.array([v]),
            "two": lambda: np.array([v, v]), "matrix": lambda: np.array([[v]]), "none": lambda: None, "text": lambda: str(v), "list": lambda: [v],
            "dict": lambda: {"cost": v}, "empty": lambda: np.array([])}[kind]()


def key(v):
    return "nan" if v != v else repr(float(v))


def calls(sc):
    import pyswarms as ps

    sid, out = sc["sid"], []
    rng = np.random.default_rng(sc["seed"])
    for case in sc["cases"]:
        kinds, n = case["plan"], len(case["plan"])
        d = int(rng.choice([1, 2, 3, 1, 2, 3, 9]))
        x = np.round(rng.normal(size=(n, d)), 3)
        if n > 1 and rng.random() < 0.3:
            x[-1] = x[0]
        if rng.random() < 0.2:
            x = np.asfortranarray(x)
        elif rng.random() < 0.2:
            x = np.round(x * 4).astype(int)
        vals = [float(v) for v in rng.integers(-30, 30, size=n) / 8]
        kw = [{}, {"a": 1}, {"a": 2.5, "b": "s"}, {"x": 1, "particles_": [1, 2], "f": None}][int(rng.integers(4))]
        log, given = [], []

        def original(point, **k):
            i = len(log)
            log.append((np.array(point, dtype=float).tobytes() if np.shape(point) == (d,) else b"?", repr(sorted(k.items()))))
            v = produce(kinds[i % n], vals[i % n])
            given.append(v)
            return v

        if kw.pop("x", None):
            kw["y"] = 1
        f = ps.cost(original)
        before = x.copy()
        for again in range(int(rng.integers(1, 3))):
            del log[:], given[:]
            try:
                got = f(x, **kw)
                outcome = "returned"
            except Exception:
                got, outcome = None, "rejected"
            tok = {}

            def t(v):
                return tok.setdefault(v, len(tok) + 1)

            line = dict(sid=sid, k="call", kinds=kinds, rows=[t(np.array(r, dtype=float).tobytes()) for r in x], calls=[[t(a), t(b)] for a, b in log],
                        kw=t(repr(sorted(kw.items()))), outcome=outcome, ret=[], vals=[])
            if outcome == "returned" and case["returned"]:
                ok = isinstance(got, np.ndarray) and got.shape == (n,)
                out.append(dict(sid=sid, k="fact", clause="C21.one_cost_each", ok=bool(ok)))
                if not ok:
                    continue
                line.update(ret=[t(key(v)) for v in got], vals=[t(key(v)) for v in given[:n]])
            out.append(line)
            out.append(dict(sid=sid, k="fact", clause="C21.swarm_unchanged", ok=bool(np.array_equal(before, x))))
    return out


def identity(sc):
    """Name, documentation, and errors of the original."""
    import pyswarms as ps

    sid, out = sc["sid"], []

    def weighted_cost(x, w=1.0):
        """What the user wrote."""
        if w < 0:
            raise Broken("negative")
        return float(w * (x ** 2).sum())

    f = ps.cost(weighted_cost)
    x = np.arange(6.0).reshape(3, 2)

    def fact(c, ok):
        out.append(dict(sid=sid, k="fact", clause=c, ok=bool(ok)))

    fact("C21.name", f.__name__ == "weighted_cost")
    fact("C21.documentation", f.__doc__ == "What the user wrote.")
    fact("C21.module", f.__module__ == weighted_cost.__module__)
    fact("C21.default_arguments", f(x).tolist() == [1.0, 13.0, 41.0])
    fact("C21.keyword_arguments", f(x, w=2.0).tolist() == [2.0, 26.0, 82.0])
    fact("C21.original_kept", weighted_cost(x[1]) == 13.0)
    try:
        f(x, w=-1.0)
        fact("C21.raises", False)
    except Broken:
        fact("C21.raises", True)
    try:
        f(x, nonsense=1)
        fact("C21.unknown_argument", False)
    except TypeError:
        fact("C21.unknown_argument", True)
    # two decorated functions have nothing in common
    g = ps.cost(lambda p: float(p[0]))
    fact("C21.separate", g(x).tolist() == [0.0, 2.0, 4.0] and f(x).tolist() == [1.0, 13.0, 41.0])
    fact("C21.one_particle", g(x[:1]).tolist() == [0.0] and g(x[:1]).shape == (1,))
    return out


def pool(sc):
    """Decorated at module level and distributed over worker processes."""
    import pyswarms as ps
    import optrun

    def point_cost(x, shift=0.0):
        return float(np.floor(((x - shift) ** 2).sum() * 64) / 64)

    point_cost.__qualname__ = "point_cost"
    globals()["point_cost"] = ps.cost(point_cost)
    f = globals()["point_cost"]
    sid, res = sc["sid"], []
    for np_ in (None, sc["nproc"]):
        np.random.seed(sc["seed"] % 2 ** 31)
        opt = optrun.build(sc["cfg"])
        c, p = opt.optimize(f, 3, n_processes=np_, verbose=False, shift=0.25)
        h = optrun.histories(opt)
        res.append(twin.dig(c, p, *[h[q] for q in "cmqxv"]))
    return [dict(sid=sid, k="fact", clause="C21.parallel", ok=bool(res[0] == res[1]))]


def pair(rng, i):
    c = twins.conf(rng, i)
    n = c["n"]
    s = twins.seed_of(rng)
    runs = [twins.run_args(rng, n, kinds=twins.ROWWISE) for _ in range(3)]
    st = []
    for o, pat in ((1, "vvv"), (2, "ddd"), (3, "vdv")):
        st.append([o, "new", dict(seed=s)])
        for j, (a, p) in enumerate(zip(runs, pat)):
            if j == 2 and i % 2:
                st.append([o, "reset", {}])
            st.append([o, "run", dict(a, how="decorated" if p == "d" else "vector")])
    return dict(cfgs=[c], parts=[dict(script=st)])


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    inv = ["InOrder", "OnceEach", "NeverMisfit", "Lenient"]
    V.add_mc("Cost", vlib.model_check("Cost", scratch, dict(N=4 if thor else 3, Kinds="Many", Fault='"none"'), inv, workers=2))
    for f in ("reversed", "first"):
        r = vlib.tlc("Cost", vlib.cfg_text("Spec", dict(N=3, Kinds="Few", Fault='"%s"' % f), inv), scratch)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Cost/planted-" + f, r)


def check(V, scratch):
    thor, seed = vlib.tier() == "thorough", vlib.seed()
    bg = Background(design, V, scratch)
    rng = np.random.default_rng([seed, 21])
    cases = []
    for n, kinds in ((1, "Many"), (2, "Many"), (3, "Emitted"), (4, "Few")) + (((3, "Many"), (5, "Few")) if thor else ()):
        got, r = vlib.generate("Cost", scratch, dict(N=n, Kinds=kinds, Fault='"none"'), invariants=["Emit"])
        cases += got
        V.add_mc("Cost/cases-%d" % n, r)
    good, bad = ["int", "float", "npfloat", "npint", "zerodim", "inf", "nan"], ["one", "two", "matrix", "none", "text", "list", "dict", "empty"]
    for _ in range(80 if thor else 16):     # wide swarms
        n = int(rng.integers(12, 90))
        p = [str(q) for q in rng.choice(good, size=n)]
        for _ in range(int(rng.integers(0, 3))):
            p[int(rng.integers(n))] = str(rng.choice(bad))
        cases.append(dict(plan=p, returned=not any(q in bad for q in p)))
    rng.shuffle(cases)
    sc = [dict(kind="calls", cases=cases[i:i + 40]) for i in range(0, len(cases), 40)]
    sc += [dict(kind="identity")]
    for j in range(10 if thor else 2):
        n = int(rng.integers(1, 6))
        sc.append(dict(kind="pool", nproc=int(rng.integers(1, 4)), cfg=dict(opt="gb", n=n, d=2, options=dict(c1=0.5, c2=0.5, w=0.5))))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    drive(V, sc, scratch, "CostTrace", total=3000, vtimeout=3000)
    drive(V, twins.finish("C21", [pair(rng, i) for i in range(1500 if thor else 120)]), scratch, "TwinTrace", total=3000, vtimeout=3000)
    bg.join()
