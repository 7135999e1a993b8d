"""Generated swarms: shape, range, law of the draws, and refused requests."""
import numpy as np

import vlib
from checks import draws
from checks.common import Background, drive


def run(sc):
    return {"asked": asked, "made": made, "law": law, "discrete": discrete, "dlaw": dlaw, "perms": perms}[sc["kind"]](sc)


# ------------------------------------------------------------- refused requests
def init_of(r, rng, lb, ub):
    if not r["init"]:
        return None
    sh = tuple(r["init"])
    if r["kind"] == "cont":
        x = rng.uniform(-0.9, 0.9, size=sh)
        cell = tuple(int(rng.integers(q)) for q in sh)
        if r["where"] == "edge":
            x[cell] = [-1.0, 1.0][int(rng.integers(2))]
        elif r["where"] == "below":
            x[cell] = [-1.0 - 1e-9, -7.0, -np.inf][int(rng.integers(3))]
        elif r["where"] == "above":
            x[cell] = [1.0 + 1e-9, 5.0, np.inf][int(rng.integers(3))]
        elif r["where"] == "nan":
            x[cell] = np.nan
        return x
    x = rng.integers(0, 2, size=sh)
    if r["kind"] == "discrete":
        return x * 3
    cell = tuple(int(rng.integers(q)) for q in sh)
    if r["where"] in ("below", "above"):
        x[cell] = -1 if r["where"] == "below" else 2
    elif r["where"] == "nan":
        x = x.astype(float)
        x[cell] = np.nan
    elif r["where"] == "fraction":
        x = x.astype(float)
        x[cell] = 0.5
    return x


def asked(sc):
    import pyswarms as ps
    import pyswarms.backend as P
    import pyswarms.backend.topology as T

    out = []
    rng = np.random.default_rng(sc["seed"])
    for r in sc["cases"]:
        n, d = r["n"], r["d"]
        as_ = np.array if rng.random() < 0.5 else list
        bounds = None if r["lb"] == -1 else (as_([-1.0] * r["lb"]), as_([1.0] * r["ub"]))
        clamp = None if r["clamp"] == -1 else (np.full(r["clamp"], -0.5), np.full(r["clamp"], 0.5))
        init = init_of(r, rng, -1, 1)
        opts = dict(c1=0.5, c2=0.5, w=0.5)
        ways = []
        if r["kind"] == "cont":
            ways.append(lambda: P.create_swarm(n, d, bounds=bounds, init_pos=init, clamp=clamp).position)
            if clamp is None:
                ways.append(lambda: P.generate_swarm(n, d, bounds=bounds, init_pos=init))
            ways.append(lambda: ps.single.GlobalBestPSO(n, d, opts, bounds=bounds, velocity_clamp=clamp, init_pos=init).swarm.position)
            ways.append(lambda: ps.single.LocalBestPSO(n, d, dict(opts, k=1, p=2), bounds=bounds, velocity_clamp=clamp, init_pos=init).swarm.position)
            ways.append(lambda: ps.single.GeneralOptimizerPSO(n, d, opts, T.Star(), bounds=bounds, velocity_clamp=clamp, init_pos=init).swarm.position)
        else:
            b = r["kind"] == "binary"
            ways.append(lambda: P.create_swarm(n, d, discrete=True, binary=b, init_pos=init, clamp=clamp).position)
            if clamp is None:
                ways.append(lambda: P.generate_discrete_swarm(n, d, binary=b, init_pos=init))
            if b:
                ways.append(lambda: ps.discrete.BinaryPSO(n, d, dict(opts, k=1, p=2), velocity_clamp=clamp, init_pos=init).swarm.position)
        if clamp is not None and init is None and bounds is None and r["kind"] == "cont":
            ways.append(lambda: P.generate_velocity(n, d, clamp=clamp))
        for w, f in enumerate(ways):
            try:
                x = np.asarray(f())
                refused = False
            except Exception:
                refused = True
            out.append(dict(sid=sc["sid"], k="asked", r=r, refused=refused, way=w))
            if not refused:
                ok = x.shape == (n, d)
                if ok and init is not None:
                    ok = bool(np.array_equal(np.asarray(x, float), np.asarray(init, float), equal_nan=True))
                out.append(dict(sid=sc["sid"], k="fact", clause="C18.init" if init is not None else "C18.shape", ok=bool(ok)))
    return out


# -------------------------------------------------------------- generated swarms
def arrays(sc):
    """Positions and velocities of several swarms in a row, and their ranges."""
    import pyswarms.backend as P
    import optrun

    n, d = sc["n"], sc["d"]
    bounds = None
    if sc.get("bounds"):
        bounds = optrun.make_bounds(sc)
    clamp = optrun.make_clamp(sc)
    center = np.array(sc["center"]) if isinstance(sc.get("center"), list) else sc.get("center", 1.0)
    xs, vs = [], []
    way = sc["way"]
    if way == "opt":
        opt = optrun.build(dict(sc["cfg"], n=n, d=d, **{q: sc[q] for q in ("bounds", "clamp", "center") if sc.get(q) is not None}))
        for q in range(sc["calls"]):
            if q:
                opt.reset()
            xs.append(np.array(opt.swarm.position)), vs.append(np.array(opt.swarm.velocity))
    elif way == "create":
        for _ in range(sc["calls"]):
            s = P.create_swarm(n, d, bounds=bounds, clamp=clamp, center=center)
            xs.append(np.array(s.position)), vs.append(np.array(s.velocity))
    else:
        for _ in range(sc["calls"]):
            xs.append(np.array(P.generate_swarm(n, d, bounds=bounds, center=center)))
            vs.append(np.array(P.generate_velocity(n, d, clamp=clamp)))
    if bounds is not None:
        lo, hi = np.asarray(bounds[0], float) * center, np.asarray(bounds[1], float) * center
    else:
        lo, hi = np.zeros(d), np.ones(d) * center
    vlo, vhi = (0.0, 1.0) if clamp is None else (np.asarray(clamp[0], float), np.asarray(clamp[1], float))
    return xs, vs, (lo, hi), (np.broadcast_to(vlo, (d,)), np.broadcast_to(vhi, (d,)))


def cells(sid, clause, a, lo, hi, cap=150):
    """Cells as integers 0 .. 2^30 from low to high; rounding keeps order."""
    w = hi - lo
    with np.errstate(all="ignore"):
        v = (a - lo) / np.where(w == 0, 1, w)
    v = np.where(a < lo, np.minimum(v, -1e-6), np.where(a > hi, np.maximum(v, 1 + 1e-6), np.clip(v, 0, 1)))
    v = np.clip(np.nan_to_num(v, nan=-1.0), -0.9, 1.9)
    q = np.round(np.ravel(v) * 2 ** 30).astype(np.int64)
    keep = np.argsort(q)
    if len(keep) > cap:      # the extreme ones decide
        keep = np.concatenate([keep[: cap // 2], keep[-cap // 2:]])
    return [dict(sid=sid, k="cells", clause=clause, v=[[0, 2 ** 30, int(q[i])] for i in keep])]


def made(sc):
    sid, out = sc["sid"], []
    n, d = sc["n"], sc["d"]
    xs, vs, (lo, hi), (vlo, vhi) = arrays(sc)
    out.append(dict(sid=sid, k="fact", clause="C18.shape", ok=bool(all(x.shape == (n, d) for x in xs + vs))))
    if not out[-1]["ok"]:
        return out
    for x, v in zip(xs, vs):
        if d >= 3 and np.all(lo != hi):
            out.append(dict(sid=sid, k="fact", clause="C18.rows_differ", ok=bool(len(np.unique(x, axis=0)) == n == len(np.unique(v, axis=0)))))
        out += cells(sid, "C18.position_range", x, np.minimum(lo, hi), np.maximum(lo, hi)) + cells(sid, "C18.velocity_range", v, vlo, vhi)
    return out


def law(sc):
    sid, out = sc["sid"], []
    xs, vs, (lo, hi), (vlo, vhi) = arrays(sc)
    u = (np.array(xs) - lo) / (hi - lo)
    w = (np.array(vs) - vlo) / (vhi - vlo)
    out += draws.block(sid, "C18.position", u) + draws.block(sid, "C18.velocity", w)
    out += draws.pairs(sid, "C18.position_velocity_independent", u, w)
    out += draws.distinct(sid, "C18.position_velocity_distinct", np.concatenate([u.ravel()[:500], w.ravel()[:500]]))
    return out


def discrete(sc):
    import pyswarms.backend as P

    sid, out = sc["sid"], []
    n, d = sc["n"], sc["d"]
    xs = []
    for q in range(sc["calls"]):
        b = bool(sc["binary"])
        x = np.array(P.create_swarm(n, d, discrete=True, binary=b).position if q % 2 else P.generate_discrete_swarm(n, d, binary=b))
        if x.shape != (n, d):
            return [dict(sid=sid, k="fact", clause="C18.shape", ok=False)]
        whole = bool((x == np.round(x)).all())
        out.append(dict(sid=sid, k="fact", clause="C18.whole", ok=whole))
        if not whole:
            return out
        out.append(dict(sid=sid, k="binary" if b else "perm", clause="C18.binary" if b else "C18.permutation", d=d, rows=x.astype(int).tolist()[:60]))
        xs.append(x)
        # 40 bits agree by chance about once in 2^40 pairs
        if d >= 40:
            out.append(dict(sid=sid, k="fact", clause="C18.rows_differ", ok=len({r.tobytes() for r in x.astype(int)}) == n))
    return out


def scenarios(V, scratch, thor, seed):
    import gen

    rng = np.random.default_rng([seed, 18])
    sc = []
    for n, d in [(3, 2), (2, 3), (1, 1), (1, 2), (2, 1), (3, 3)]:
        cases, r = vlib.generate("Generator", scratch, dict(R=2, N=n, D=d, Fault='"none"'), invariants=["Emit"]) if n * d <= 6 else \
            vlib.generate("Generator", scratch, dict(R=1, N=n, D=d, Fault='"none"'), invariants=["Emit"])
        V.add_mc("Generator/cases-%dx%d" % (n, d), r)
        rs = [c["r"] for c in cases]
        seen, uniq = set(), []
        for q in rs:
            if str(q) not in seen and 0 not in q["init"]:
                seen.add(str(q)), uniq.append(q)
        rng.shuffle(uniq)
        for c in draws.chunks(uniq, 60):
            sc.append(dict(kind="asked", cases=c))
    opts = [dict(opt="gb", options=dict(c1=1, c2=1, w=1)), dict(opt="lb", options=dict(c1=1, c2=1, w=1, k=1, p=1)),
            dict(opt="gen", top="random", options=dict(c1=1, c2=1, w=1, k=1)), dict(opt="gen", top="pyramid", options=dict(c1=1, c2=1, w=1))]
    for j in range(2000 if thor else 200):
        n, d = int(rng.choice([1, 2, 3, 8, 25, 70] + [200, 330] * (j % 4 == 0))), int(rng.choice([1, 2, 5, 12] + [40] * (j % 4 < 2)))
        s = dict(kind="made", n=n, d=d, way=["opt", "create", "generate"][j % 3], calls=3)
        if s["way"] == "opt":
            s["cfg"] = opts[(j // 3) % 4]
        if rng.random() < 0.6:
            s["bounds"] = gen.bounds_of(rng, d)
        if rng.random() < (0.2 if "bounds" in s else 0.5):
            s["center"] = float(rng.integers(-10, 40)) / 8 if rng.random() < 0.5 else [float(v) for v in rng.integers(-10, 40, size=d) / 8]
            if rng.random() < 0.15:
                s["center"] = [0, 0.0, [0.0] * d][int(rng.integers(3))]
        if rng.random() < 0.6:
            s["clamp"] = gen.clamp_of(rng, d, False)
            if rng.random() < 0.3:   # on one side of zero
                a, b = float(rng.integers(1, 8)) / 8, float(rng.integers(9, 20)) / 8
                s["clamp"] = [a, b] if rng.random() < 0.5 else [[-b] * d, [-a] * d]
        sc.append(s)
        if j % 5 == 0 and np.all(np.asarray(s.get("center", 1)) != 0):
            t = dict(s, kind="law", n=int(rng.integers(5, 40)), calls=int(rng.integers(4, 12)))
            sc.append(t)
        if j % 25 == 0:
            sc.append(dict(kind="discrete", n=int(rng.integers(70, 400)), d=int(rng.integers(40, 50)), binary=j % 50 == 0, calls=2))
            sc.append(dict(kind="discrete", n=int(rng.integers(1, 4)), d=[140, 300, 250, 700, 200, 400, 129, 257][j // 25 % 8], binary=False, calls=2))
        if j % 4 == 0:
            sc.append(dict(kind="discrete", n=n, d=d, binary=j % 8 == 0, calls=4))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def dlaw(sc):
    """Discrete draws: every entry uniform, rows and swarms independent."""
    import pyswarms.backend as P

    sid, out = sc["sid"], []
    n, d, B = sc["n"], sc["d"], sc["B"]
    xs = np.array([np.array(P.generate_discrete_swarm(n, d, binary=sc["binary"]), dtype=float) for _ in range(sc["calls"])])
    if xs.shape[1:] != (n, d):
        return [dict(sid=sid, k="fact", clause="C18.shape", ok=False)]
    u = (xs + 0.5) / (2 if sc["binary"] else d)
    for c in draws.chunks(u.ravel()):
        out.append(dict(sid=sid, k="hist", clause="C18.discrete_uniform", b=draws.bins(c, B), p=[4096 // B] * B))
    for j in range(d):
        for c in draws.chunks(u[:, :, j].ravel()):
            if len(c) >= 150:
                out.append(dict(sid=sid, k="hist", clause="C18.discrete_uniform", b=draws.bins(c, B), p=[4096 // B] * B))
    axes = (0, 1, 2) if sc["binary"] else (0, 1)
    for ax in axes:
        m = u.shape[ax]
        out += draws.pairs(sid, "C18.discrete_independent", np.take(u, range(m - 1), ax), np.take(u, range(1, m), ax), B=min(B, 4))
    return out


def perms(sc):
    """All six orders of three coordinates are equally likely."""
    import pyswarms.backend as P

    code = []
    while len(code) < 1200:
        x = np.array(P.generate_discrete_swarm(sc["n"], 3))
        code += [2 * int(r[0]) + int(r[1] > r[2]) for r in x]
    return [dict(sid=sc["sid"], k="hist", clause="C18.orders_uniform", b=code[:1200], p=[683] * 6)]


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    base = dict(R=4, N=2, D=2, Fault='"none"')
    inv = ["WithinBounds", "NeverMisfit", "ExactInit", "AllSwarms"]
    V.add_mc("Generator", vlib.model_check("Generator", scratch, dict(base, R=6 if thor else 4), inv, timeout=3000))
    for f in ("rows", "wide", "lenient"):
        r = vlib.tlc("Generator", vlib.cfg_text("Spec", dict(base, Fault='"%s"' % f), inv), scratch)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Generator/planted-" + f, r)


def check(V, scratch):
    thor, seed = vlib.tier() == "thorough", vlib.seed()
    bg = Background(design, V, scratch)
    sc = scenarios(V, scratch, thor, seed)
    drive(V, [s for s in sc if s["kind"] != "law"], scratch, "GeneratorTrace", total=3000, vtimeout=3000)
    rng = np.random.default_rng([seed, 180])
    laws = [s for s in sc if s["kind"] == "law"]
    for j in range(60 if thor else 8):
        binary = bool(j % 2)
        B = 2 if binary else int(rng.choice([2, 4, 8]))
        laws.append(dict(kind="dlaw", n=int(rng.integers(10, 40) if j % 4 < 2 else rng.integers(41, 130)), d=int(rng.integers(2, 10)) if binary else B, B=B, binary=binary, calls=int(rng.integers(5, 12)),
                         sid=100000 + j, seed=int(rng.integers(1 << 30))))
    for j in range(12 if thor else 3):
        laws.append(dict(kind="perms", n=[7, 150, 1200][j % 3], sid=200000 + j, seed=int(rng.integers(1 << 30))))
    drive(V, laws, scratch, "DrawsTrace", total=3000, vtimeout=3000)
    bg.join()
