"""Binary swarms: histories of binary optimisers against all of PSOTrace, and
the law of their bits."""
import numpy as np

import vlib
from checks import draws, hist
from checks.common import Background, drive

GRID = 64


def run(sc):
    return {"law": law, "fair": fair, "rare": rare}.get(sc.get("kind"), hist.run)(sc)


def record(sc):
    """(positions, velocities) of the evaluations, in order; the first of a
    run that follows a reset belongs to the generator."""
    import optrun

    cfg = dict(opt="bin", n=sc["n"], d=sc["d"], options=sc["options"])
    for q in ("clamp", "vh"):
        if q in sc:
            cfg[q] = sc[q]
    opt = optrun.build(cfg)
    obj = optrun.Objective(sc["objective"])
    runs = []
    for iters in sc["runs"]:
        if sc.get("vel") is not None:     # a swarm with velocities of our own
            opt.swarm.velocity = np.array(sc["vel"], dtype=float)
        xs, vs = [], []

        def f(x):
            xs.append(np.array(x, dtype=float))
            vs.append(np.array(opt.swarm.velocity, dtype=float))
            return obj(x)

        cost, pos = opt.optimize(f, iters, verbose=False)
        xs.append(np.array(opt.swarm.position, dtype=float))
        vs.append(np.array(opt.swarm.velocity, dtype=float))
        runs.append((np.array(xs), np.array(vs), np.array(pos)))
    return runs


def law_lines(sid, clause, vs, bits, m=1200):
    """vs: [..., q] velocities, bits: products of the q bits"""
    v = np.clip(np.round(np.asarray(vs) * GRID), -100000, 100000).astype(int).reshape(-1, np.shape(vs)[-1])
    b = np.ravel(bits).astype(int)
    if clause == "C16.law":      # velocity by velocity
        at = np.clip(v[:, 0] // (GRID // 4), -16, 16)
        return [q for a in np.unique(at) for q in law_lines(sid, "C16.law_there", v[at == a] / GRID, b[at == a])] + law_lines(sid, "C16.law_all", v / GRID, b)
    return [dict(sid=sid, k="law", clause=clause, v=v[i:i + m].tolist(), b=b[i:i + m].tolist()) for i in range(0, len(b), m) if len(b) - i >= 150]


def after(sid, clause, v, x, ax, lag):
    """the bits that follow a one, and those that follow a zero"""
    m, out = x.shape[ax], []
    if m > lag:
        a, b, vb = np.take(x, range(m - lag), ax), np.take(x, range(lag, m), ax), np.take(v, range(lag, m), ax)
        for bit in (0, 1):
            out += law_lines(sid, clause, vb[a == bit][:, None], b[a == bit])
    return out


def law(sc):
    sid, out = sc["sid"], []
    n, d = sc["n"], sc["d"]
    for xs, vs, pos in record(sc):
        if xs.shape[1:] != (n, d) or vs.shape[1:] != (n, d):
            return [dict(sid=sid, k="fact", clause="C16.shape", ok=False)]
        ok = bool(((xs == 0) | (xs == 1)).all() and ((pos == 0) | (pos == 1)).all())
        out.append(dict(sid=sid, k="fact", clause="C16.binary", ok=ok))
        if not ok:
            return out
        x, v = xs[1:], vs[1:]
        if not np.isfinite(v).all():
            return out
        out.append(dict(sid=sid, k="fact", clause="C16.saturated", ok=bool((x[v >= 50] == 1).all() and (x[v <= -50] == 0).all())))
        out += law_lines(sid, "C16.law", v[..., None], x)
        if sc.get("each"):
            for i in range(n):
                for j in range(d):
                    out += law_lines(sid, "C16.law_each", v[:, i, j, None], x[:, i, j])
        # independence along every axis: what an earlier bit is, makes no
        # difference to the law of a later one (its velocity may depend on it)
        for ax in range(3):
            for lag in (1, 2):
                out += after(sid, "C16.independent", v, x, ax, lag)
    return out


def fair(sc):
    """Generated bits: fair and independent (the swarm a run starts with)."""
    import optrun

    sid, out = sc["sid"], []
    cfg = dict(opt="bin", n=sc["n"], d=sc["d"], options=sc["options"])
    opt = optrun.build(cfg)
    xs = [np.array(opt.swarm.position, dtype=float)]
    for _ in range(sc["resets"]):
        opt.reset()
        xs.append(np.array(opt.swarm.position, dtype=float))
    x = np.array(xs)
    if x.shape[1:] != (sc["n"], sc["d"]):
        return [dict(sid=sid, k="fact", clause="C16.shape", ok=False)]
    out.append(dict(sid=sid, k="fact", clause="C16.binary", ok=bool(((x == 0) | (x == 1)).all())))
    zero = np.zeros(x.shape + (1,))
    out += law_lines(sid, "C16.fair", zero, x)
    for ax in range(3):
        out += after(sid, "C16.fair_independent", np.zeros(x.shape), x, ax, 1)
    return out


def rare(sc):
    """Bits that are hardly ever drawn, counted by the million."""
    import optrun

    sid, n, d = sc["sid"], sc["n"], sc["d"]
    opt = optrun.build(dict(opt="bin", n=n, d=d, options=sc["options"]))
    m = np.array(sc["levels"])[np.arange(d) % len(sc["levels"])]
    v = np.broadcast_to(m * sc["sign"], (n, d)).astype(float).copy()
    opt.swarm.velocity = v.copy()
    odd, seen, ok = np.zeros(d, dtype=int), [0], [True]

    def f(x):
        x = np.asarray(x, dtype=float)
        if seen[0]:
            odd[:] += (x == (1 if sc["sign"] < 0 else 0)).sum(axis=0)
            ok[0] = ok[0] and bool(((x == 0) | (x == 1)).all()) and bool((np.asarray(opt.swarm.velocity) == v).all())
        seen[0] += 1
        return x.sum(axis=1)

    opt.optimize(f, sc["iters"], verbose=False)
    out = [dict(sid=sid, k="fact", clause="C16.binary", ok=ok[0])]
    for a in sorted(set(sc["levels"])):
        out.append(dict(sid=sid, k="rare", m=int(a), count=int(odd[m == a].sum()), total=int((seen[0] - 1) * n * (m == a).sum())))
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 16])
    sc = []

    def opts(n, **kw):
        return dict(dict(c1=0.0, c2=0.0, w=1.0, k=int(rng.integers(1, n + 1)), p=int(rng.integers(1, 3))), **kw)

    for j in range(40 if thor else 6):
        # velocities that never change: the law of every single bit
        n, d = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        sc.append(dict(kind="law", n=n, d=d, options=opts(n), vel=np.round(rng.normal(size=(n, d)) * 2, 2).tolist(), each=True, runs=[1100],
                       objective=dict(kind="hash", m=100)))
        # most of them at rest
        sc.append(dict(kind="law", n=n, d=d, options=opts(n), vel=(np.round(rng.normal(size=(n, d)), 2) * (rng.random(size=(n, d)) < 0.4)).tolist(), each=True,
                       runs=[500], objective=dict(kind="hash", m=100)))
        # velocities that change a lot, so that only those of the move will do
        n, d = int(rng.integers(2, 12)), int(rng.integers(2, 9))
        sc.append(dict(kind="law", n=n, d=d, options=opts(n, c1=float(rng.uniform(1, 4)), c2=float(rng.uniform(1, 4)), w=float(rng.uniform(-1, 1))),
                       runs=[60, 60], objective=dict(kind="noise", m=30, seed=int(rng.integers(1 << 30)))))
        # an inertia that turns the velocity round in every iteration
        sc.append(dict(kind="law", n=n, d=d, options=opts(n, w=-1.0), vel=np.round(rng.normal(size=(n, d)) * 3, 2).tolist(), runs=[120],
                       objective=dict(kind="quad", c=0.5)))
        # a wide swarm, velocities around zero
        m, e = int(rng.integers(25, 60)), int(rng.integers(4, 20))
        sc.append(dict(kind="law", n=m, d=e, options=opts(m), vel=np.round(rng.normal(size=(m, e)), 2).tolist(), runs=[60], objective=dict(kind="hash", m=100)))
        # clamped, also per dimension and one-sided
        lo = -rng.uniform(0, 3, size=d)
        hi = lo + rng.uniform(0.1, 5, size=d)
        sc.append(dict(kind="law", n=n, d=d, options=opts(n, c1=5.0, c2=5.0, w=0.9), clamp=[lo.tolist(), hi.tolist()], runs=[100],
                       objective=dict(kind="noise", m=5, seed=int(rng.integers(1 << 30)))))
        # far beyond what the exponential function can represent
        sc.append(dict(kind="law", n=n, d=d, options=opts(n), vel=(rng.choice([-1, 1], size=(n, d)) * 10.0 ** rng.integers(0, 6, size=(n, d))).tolist(),
                       runs=[40], objective=dict(kind="hash", m=3)))
        sc.append(dict(kind="fair", n=int(rng.integers(2, 30)), d=int(rng.integers(2, 20)), options=opts(2), resets=30))
    for j in range(12 if thor else 2):
        levels = [6, 8, 10, 12] + [int(rng.integers(14, 30))] * 12
        sc.append(dict(kind="rare", n=50, d=2000, options=opts(50), levels=levels, sign=-1 if j % 2 else 1, iters=81))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    base = dict(R=16, Vels="Levels", MaxMoves=1, Fault='"none"')
    inv = ["StaysBinary", "Law", "Independent"]
    V.add_mc("Binary", vlib.model_check("Binary", scratch, dict(base, R=16 if thor else 8), inv, timeout=3000))
    for f, broken in (("shared", "Independent"), ("stale", "Law"), ("mirrored", "Law"), ("moved", "StaysBinary")):
        r = vlib.tlc("Binary", vlib.cfg_text("Spec", dict(base, R=8, Fault='"%s"' % f), inv), scratch, workers=2)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Binary/planted-" + f, r)


MIX = [dict(opts=("bin",)), dict(opts=("bin",), clamp=True, iters=12), dict(opts=("bin",), init=True),
       dict(opts=("bin",), kinds=["noise", "hash", "nanpart"], tol=True, iters=12), dict(opts=("bin",), vh="adjust")]


def check(V, scratch):
    thor, seed = vlib.tier() == "thorough", vlib.seed()
    bg = Background(design, V, scratch)
    sc = hist.replay_scenarios(V, scratch, ("costs", "window2", "windowS"), ("bin",), cap=None if thor else 300, seed=seed)
    for s in sc:
        s["sid"] += 100000
    sc += hist.configs("C16", 3000 if thor else 250, MIX, seed)
    # whatever holds for a continuous optimiser holds for a binary one
    drive(V, sc, scratch, "PSOTrace", others=True, total=3000, vtimeout=3000)
    drive(V, scenarios(thor, seed), scratch, "BinaryTrace", total=3000, vtimeout=3000)
    bg.join()
    V.assumptions += ["the probability of a bit is judged at 7.7 standard deviations, velocities rounded to 1/64"]
