"""Benchmark functions: what batches of points evaluate to."""
import warnings

import numpy as np

import vlib
from checks.common import Background, drive, near_ranks

NAMES2 = ["beale", "booth", "bukin6", "crossintray", "easom", "eggholder", "goldstein", "himmelblau", "holdertable", "levi", "matyas", "schaffer2", "threehump"]
NAMESN = ["ackley", "rastrigin", "rosenbrock", "sphere"]
NAMES = NAMES2 + NAMESN
POLY = {"sphere": (8, 2, 1), "booth": (8, 2, 1), "himmelblau": (8, 4, 1), "matyas": (8, 2, 100), "rosenbrock": (8, 4, 1), "beale": (8, 8, 16),
        "goldstein": (4, 8, 1), "threehump": (8, 6, 60)}
PRIMES = [32749, 32719, 32717]
NAN = 999999999


def limits(fn, i):
    return {"ackley": (-32, 32), "beale": (-4.5, 4.5), "bukin6": [(-15, -5), (-3, 3)][i % 2], "easom": (-100, 100), "schaffer2": (-100, 100),
            "eggholder": (-512, 512), "goldstein": (-2, 2), "himmelblau": (-5, 5), "threehump": (-5, 5), "rastrigin": (-5.12, 5.12),
            "rosenbrock": (-60, 60), "sphere": (-60, 60)}.get(fn, (-10, 10))


def dims(rng, fn):
    return 2 if fn in NAMES2 else int(rng.integers(2 if fn == "rosenbrock" else 1, 6) if rng.random() < 0.85 else rng.integers(6, 31) if rng.random() < 0.8 else rng.integers(31, 120))


def layout(rng, x):
    """The same batch in different memory layouts."""
    w = int(rng.integers(5))
    if w == 1:
        return np.asfortranarray(x)
    if w == 2:
        big = np.zeros((2 * len(x), x.shape[1] + 1))
        big[::2, :-1] = x
        return big[::2, :-1]
    if w == 3:
        return np.ascontiguousarray(x[::-1])[::-1]
    if w == 4:
        x = x.copy()
        x.setflags(write=False)
    return x


def run(sc):
    warnings.simplefilter("ignore")
    from pyswarms.utils.functions import single_obj as fx

    fn = sc["fn"]
    return globals()[sc["kind"]](sc, getattr(fx, fn), np.random.default_rng(sc["seed"]))


def inside(rng, fn, shape):
    lo = np.array([limits(fn, i)[0] for i in range(shape[1])])
    hi = np.array([limits(fn, i)[1] for i in range(shape[1])])
    x = lo + (hi - lo) * rng.random(shape)
    edge = rng.random(shape) < 0.15
    return np.where(edge, np.where(rng.random(shape) < 0.5, lo, hi), np.clip(x, lo, hi))


def domain(sc, f, rng):
    """Batches in which no, one or some coordinates lie outside."""
    fn, out = sc["fn"], []
    for _ in range(sc["N"]):
        d = dims(rng, fn) if rng.random() < 0.85 else int(rng.integers(1, 6))
        n = int(rng.integers(1, 8) if rng.random() < 0.97 else rng.integers(20, max(21, 1500 // d)))
        x = np.zeros((n, d))
        code = np.zeros((n, d), dtype=int)
        for r in range(n):
            for c in range(d):
                lo, hi = limits(fn, c)
                v = round(100 * (lo + (hi - lo) * rng.random())) if rng.random() < 0.7 else round(100 * (lo, hi)[int(rng.integers(2))])
                v = min(max(v, round(100 * lo)), round(100 * hi))
                code[r, c] = 2 * v
                x[r, c] = v / 100

        def put(r, c, kind):
            lo, hi = limits(fn, c)
            if kind in ("below", "above"):
                v = lo if kind == "below" else hi
                x[r, c] = np.nextafter(v, -np.inf if kind == "below" else np.inf)
                code[r, c] = 2 * round(100 * v) + (-1 if kind == "below" else 1)
            elif kind in ("far", "farneg"):
                v = int(rng.integers(1, 50000))
                v = round(100 * hi) + v if kind == "far" else round(100 * lo) - v
                x[r, c], code[r, c] = v / 100, 2 * v
            elif kind in ("inf", "-inf"):
                x[r, c], code[r, c] = float(kind), 400000000 * (1 if kind == "inf" else -1)
            elif kind == "nan":
                x[r, c], code[r, c] = np.nan, NAN
            elif kind in ("lo", "hi"):
                v = lo if kind == "lo" else hi
                x[r, c], code[r, c] = v, 2 * round(100 * v)
            elif kind in ("lo+", "hi-"):
                v = lo if kind == "lo+" else hi
                x[r, c] = np.nextafter(v, np.inf if kind == "lo+" else -np.inf)
                code[r, c] = 2 * round(100 * v) + (1 if kind == "lo+" else -1)

        for _ in range(int(rng.integers(0, 3))):
            put(int(rng.integers(n)), int(rng.integers(d)), ["lo", "hi", "lo+", "hi-"][int(rng.integers(4))])
        if rng.random() < 0.5:
            kinds = ["below", "above", "far", "farneg", "inf", "-inf", "nan"]
            for _ in range(int(rng.choice([1, 1, 1, 2, n * d]))):
                put(int(rng.integers(n)), int(rng.integers(d)), kinds[int(rng.integers(len(kinds)))])
        try:
            v = np.asarray(f(layout(rng, x)))
            o = "returned" if v.shape == (n,) else "misshaped"
        except Exception:
            o = "rejected"
        out.append(dict(sid=sc["sid"], k="domain", fn=fn, d=d, rows=code.tolist(), outcome=o))
    return out


def rows(sc, f, rng):
    fn, out = sc["fn"], []
    for _ in range(sc["N"]):
        n, d = int(rng.choice([1, 2, 3, 5, 8, 17, 40, 40, 150])), dims(rng, fn)
        x = inside(rng, fn, (n, d))
        if rng.random() < 0.4:      # very different magnitudes side by side
            y = x * 10.0 ** -rng.integers(0, 9, size=(n, d) if rng.random() < 0.5 else (n, 1))
            ok = np.ones((n, d), dtype=bool)
            for c in range(d):
                lo, hi = limits(fn, c)
                ok[:, c] = (y[:, c] >= lo) & (y[:, c] <= hi)
            x = np.where(ok, y, x)
        if rng.random() < 0.3 and n > 1:
            x[int(rng.integers(n))] = x[int(rng.integers(n))]
        if rng.random() < 0.2:
            x = np.trunc(x)
            y = x.astype([np.int64, np.int32, np.float64][int(rng.integers(3))]) if fn not in ("threehump", "eggholder") else x
        else:
            y = layout(rng, x)
        before = np.array(y)
        v = np.ma.filled(np.ma.asarray(f(y), dtype=float), np.nan)
        if v.shape != (n,):
            out.append(dict(sid=sc["sid"], k="fact", clause="C23.one_value_per_row", ok=False))
            continue
        alone = np.array([float(np.ravel(np.ma.filled(np.ma.asarray(f(np.array(x[i:i + 1])), dtype=float), np.nan))[0]) for i in range(n)])
        rk = near_ranks(np.concatenate([v, alone]), 1e-9, 1e-9)
        out.append(dict(sid=sc["sid"], k="rows", fn=fn, vals=rk[:n], alone=rk[n:], same=bool(np.array_equal(before, y))))
    return out


def poly(sc, f, rng):
    fn, out = sc["fn"], []
    q, power, by = POLY[fn]
    scale = by * q ** power
    if sc.get("grid"):        # every point of a grid over the domain
        d = 2
        pts = [[a, b] for a in range(int(np.ceil(limits(fn, 0)[0] * q)), int(limits(fn, 0)[1] * q) + 1)
               for b in range(int(np.ceil(limits(fn, 1)[0] * q)), int(limits(fn, 1)[1] * q) + 1)]
        pts = [pts[i] for i in rng.permutation(len(pts))[:sc["N"]]]
    else:
        d = sc.get("d") or dims(rng, fn)
        m = [min(limits(fn, i)[1], 12) * q for i in range(d)]
        pts = [[int(rng.integers(-v, v + 1)) for v in map(int, m)] for _ in range(sc["N"])]
    x = np.array(pts, dtype=float) / q
    if sc.get("ints"):      # whole coordinates in an array of integers
        big = {"sphere": 60000, "rosenbrock": 150}.get(fn)
        x = rng.integers(-big, big + 1, size=x.shape) if big else np.trunc(x)
        x = x.astype([np.int32, np.int64][sc["ints"] - 1])
        pts = (x.astype(int) * q).tolist()
    v = np.asarray(f(x), dtype=float)
    for p, z in zip(pts, v):
        F = float(z) * scale
        k = int(round(F)) if np.isfinite(F) else 0
        out.append(dict(sid=sc["sid"], k="poly", fn=fn, a=p, q=q, primes=PRIMES, res=[k % u for u in PRIMES],
                        whole=bool(np.isfinite(F) and abs(F - k) <= 1e-3 + 1e-12 * abs(F))))
    return out


def lattice(sc, f, rng):
    fn, out, pts, xs = sc["fn"], [], [], []
    d = sc.get("d") or dims(rng, fn)
    for _ in range(sc["N"]):
        if fn == "rastrigin":
            p = [int(rng.integers(-20, 21)) for _ in range(d)]
            x, s = [v / 4 for v in p], 16
        elif fn == "ackley":
            r = int(rng.integers(0, 33))
            p = [r * int(rng.choice([-1, 1])) for _ in range(d)]
            x, s = p, 1e6
        elif fn == "bukin6":
            a = int(rng.integers(-15, -4))
            while True:
                m = int(rng.integers(0, 230))
                y = 100 * a * a + int(rng.choice([-1, 1])) * m * m
                if abs(y) <= 30000:
                    break
            p, x, s = [a, y], [a, y / 10000], 100
        elif fn == "easom":
            p = [int(v) for v in (rng.integers(-31, 32, size=2) if rng.random() < 0.3 else rng.integers(0, 3, size=2))]
            x, s = [v * np.pi for v in p], 1e8
        else:
            a = int(rng.integers(-10, 11))
            p, s = [a, a * int(rng.choice([-1, 1]))], 1e4
            x = p
        pts.append(p)
        xs.append(x)
    v = np.asarray(f(np.array(xs, dtype=float)), dtype=float) * s
    for p, z in zip(pts, v):
        k = int(round(z)) if np.isfinite(z) and abs(z) < 2e9 else -2 ** 30
        out.append(dict(sid=sc["sid"], k="lattice", fn=fn, a=p, f=k if s != 16 or abs(z - k) < 1e-6 else -2 ** 30))
    return out


MINIMA = {"beale": [(3, 0.5)], "booth": [(1, 3)], "bukin6": [(-10, 1)], "crossintray": [(1.34941, 1.34941), (-1.34941, 1.34941), (1.34941, -1.34941), (-1.34941, -1.34941)],
          "easom": [(np.pi, np.pi)], "eggholder": [(512, 404.2319)], "goldstein": [(0, -1)],
          "himmelblau": [(3, 2), (-2.805118, 3.131312), (-3.779310, -3.283186), (3.584428, -1.848126)],
          "holdertable": [(8.05502, 9.66459), (-8.05502, 9.66459), (8.05502, -9.66459), (-8.05502, -9.66459)], "levi": [(1, 1)]}


def scaled(v, s):
    v = float(v) * s
    return int(np.floor(min(max(v, -2e9), 2e9) + 0.5)) if v == v else -2 * 10 ** 9


def minimum(sc, f, rng):
    fn, out = sc["fn"], []
    if fn in NAMESN:
        pts = [[1.0 if fn == "rosenbrock" else 0.0] * d for d in [*range(2 if fn == "rosenbrock" else 1, 9), 33, 80, 130]]
    else:
        pts = MINIMA.get(fn, [(0, 0)])
    for p in pts:
        for n in (1, 3):
            x = np.array([p] * n, dtype=float)
            for z in np.ma.asarray(f(x)):
                out.append(dict(sid=sc["sid"], k="min", fn=fn, at=[int(round(v * 1e6)) for v in p], f=scaled(z, 1e5)))
    # nowhere lower: sampled, then refined around the lowest points
    d = dims(rng, fn)
    lo = np.array([limits(fn, i)[0] for i in range(d)])
    hi = np.array([limits(fn, i)[1] for i in range(d)])
    x = inside(rng, fn, (sc["N"], d))
    best = np.inf
    step = (hi - lo) / 40
    for _ in range(25):
        v = np.ma.filled(np.ma.asarray(f(x), dtype=float), np.inf)
        o = np.argsort(v)[:40]
        best = min(best, float(v[o[0]]))
        x = np.concatenate([x[o], np.clip(np.repeat(x[o], sc["N"] // 40, axis=0) + rng.normal(size=(40 * (sc["N"] // 40), d)) * step, lo, hi)])
        step = step * 0.7
    out.append(dict(sid=sc["sid"], k="low", fn=fn, f=scaled(best, 1e5)))
    return out


def orbit(sc, f, rng):
    fn, out = sc["fn"], []
    for _ in range(sc["N"]):
        a, b = [int(v) for v in inside(rng, fn, (1, 2))[0] * 100 // 1]
        pts = [[s * p[0], t * p[1]] for p in ([a, b], [b, a]) for s in (1, -1) for t in (1, -1)]
        pts = [p for p in pts if all(limits(fn, i)[0] * 100 <= v <= limits(fn, i)[1] * 100 for i, v in enumerate(p))]
        if not pts:
            continue
        v = np.ma.filled(np.ma.asarray(f(np.array(pts) / 100.0), dtype=float), np.nan)
        out.append(dict(sid=sc["sid"], k="orbit", fn=fn, pts=pts, vals=near_ranks(v, 1e-9, 1e-9)))
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 23])
    sc = []
    for rep in range(8 if thor else 1):
        for fn in NAMES:
            sc.append(dict(kind="domain", fn=fn, N=1500 if thor else 250))
            sc.append(dict(kind="rows", fn=fn, N=300 if thor else 60))
            sc.append(dict(kind="minimum", fn=fn, N=40000 if thor else 8000))
            sc.append(dict(kind="orbit", fn=fn, N=200 if thor else 40))
            if fn in POLY:
                sc.append(dict(kind="poly", fn=fn, grid=True, N=20000 if thor else 500))
                sc += [dict(kind="poly", fn=fn, N=60, ints=w) for w in (1, 2)]
                if fn in NAMESN:
                    for _ in range(4):
                        sc.append(dict(kind="poly", fn=fn, N=100))
                    for d in (31, 64, 117):
                        sc.append(dict(kind="poly", fn=fn, N=20, d=d))
            if fn in ("rastrigin", "ackley", "bukin6", "easom", "schaffer2"):
                for _ in range(5):
                    sc.append(dict(kind="lattice", fn=fn, N=60))
                for d in (31, 64, 117) if fn in NAMESN else ():
                    sc.append(dict(kind="lattice", fn=fn, N=20, d=d))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    names = '{"beale", "booth", "goldstein", "himmelblau", "matyas", "rosenbrock", "sphere", "threehump", "bukin6", "rastrigin"}'
    base = dict(Names=names, Coords="{<<0, 0>>, <<0, -1>>, <<1, 0>>, <<1, 1>>}", MaxRows=2, Grid=8, Fault='"none"')
    if thor:
        base.update(Coords="{<<0, 0>>, <<0, -1>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<1, -1>>}", Names='{%s}' % ", ".join('"%s"' % n for n in NAMES), Grid=9)
    inv = ["RaisesOutside", "RowWise", "Full", "Lowest", "Residues", "Symmetry"]
    V.add_mc("Function", vlib.model_check("Function", scratch, base, inv, timeout=3000))
    for f in ("strict", "first", "all", "batch"):
        r = vlib.tlc("Function", vlib.cfg_text("Spec", dict(base, Names='{"beale"}', Fault='"%s"' % f), inv), scratch)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Function/planted-" + f, r)


def check(V, scratch):
    bg = Background(design, V, scratch)
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "FunctionTrace", total=3000, vtimeout=3000, shards=6)
    bg.join()
    V.assumptions += ["nowhere lower: exact on half-integer grids for the polynomials (TLC), sampled with refinement for all functions"]
