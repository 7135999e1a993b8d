"""Random configurations and histories for the optimisers (all JSON)."""
import numpy as np

BH = ["nearest", "random", "shrink", "reflective", "intermediate", "periodic"]


def pick(rng, xs, p=None):
    return xs[int(rng.choice(len(xs), p=p))]


def rnd(rng, lo, hi, q=1024):
    return float(np.round(rng.uniform(lo, hi) * q) / q)


def bounds_of(rng, d, kinds=("array", "list", "intarray")):
    kind = pick(rng, list(kinds))
    style = int(rng.integers(6))
    if kind == "intarray" or style == 0:
        lb = rng.integers(-6, 4, size=d).astype(float)
        ub = lb + rng.integers(1, 9, size=d)
    elif style == 1:
        lb, ub = np.zeros(d), np.ones(d)
    elif style == 2:   # tiny and huge ranges, per dimension
        lb = rng.normal(size=d) * 10.0 ** rng.integers(-3, 3, size=d)
        ub = lb + 10.0 ** rng.integers(-4, 4, size=d)
    elif style == 3:   # all negative or all positive
        s = 1 if rng.random() < 0.5 else -1
        a, b = rng.uniform(1, 3, size=d), rng.uniform(4, 9, size=d)
        lb, ub = (a, b) if s > 0 else (-b, -a)
    elif style == 4 and rng.random() < 0.4:    # zero just outside
        lb, ub = -rng.uniform(1, 3, size=d), -rng.uniform(0.01, 0.4, size=d)
        if rng.random() < 0.5:
            lb, ub = -ub, -lb
    elif style == 4:
        lb = -rng.uniform(0.1, 2, size=d)
        ub = rng.uniform(0.1, 2, size=d)
    else:
        lb = rng.normal(size=d)
        ub = lb + rng.uniform(0.05, 3, size=d)
    return dict(lb=[float(v) for v in lb], ub=[float(v) for v in ub], **{"as": kind})


def clamp_of(rng, d, one_sided=True):
    s = int(rng.integers(6))
    if s == 5 and one_sided:       # no velocity is zero, or they are all the same
        a = rnd(rng, 0.01, 1)
        b = a if rng.random() < 0.2 else a + rnd(rng, 0.01, 2)
        s = 3
        if rng.random() < 0.5:
            return [a, b] if rng.random() < 0.5 else [-b, -a]
        side = rng.random(d) < 0.5
        return [[a if q else -b for q in side], [b if q else -a for q in side]]
    if s == 0:
        return [-rnd(rng, 0.01, 1), rnd(rng, 0.01, 1)]
    if s == 1:
        return [[-rnd(rng, 0.01, 1) for _ in range(d)], [rnd(rng, 0.01, 2) for _ in range(d)]]
    if s == 2:
        return [0, 1]
    if s == 3:
        return [-4.0, 4.0]
    return [-rnd(rng, 0.001, 0.1), rnd(rng, 0.5, 3)]


def objective_of(rng, n, iters, kinds=None, p=None):
    kinds = kinds or ["quad", "plateau", "hash", "noise", "stairs", "raw", "rawneg", "fine", "big", "penal", "nanpart"]
    k = pick(rng, kinds, p)
    o = dict(kind=k, seed=int(rng.integers(1 << 30)))
    if k == "quad":
        o["c"] = rnd(rng, -1, 1)
    elif k == "plateau":
        o["g"] = pick(rng, [1, 2, 8])
    elif k == "hash":
        o["m"] = pick(rng, [2, 5, 40, 1000])
    elif k == "noise":
        o.update(m=pick(rng, [1, 3, 30]), pinf=pick(rng, [0, 0.2, 0.6]), pnan=pick(rng, [0, 0.2, 0.4]),
                 pninf=pick(rng, [0, 0, 0.03]))
    elif k == "fine":
        o["base"], o["unit"] = pick(rng, [(1024.0, 2.0 ** -40), (-3.0, 2.0 ** -50), (0.0, 2.0 ** -60), (0.0, 2.0 ** -1040), (1e15, 0.125), (-2.0 ** 60, 256.0), (0.0, 1e300)])
        o["m"] = pick(rng, [3, 30, 1000])
    elif k == "stairs":
        o["drop"] = [int(v) for v in rng.choice([0, 0, 0, 1, 2, 8, 40], size=iters + 3)]
    elif k == "penal":
        o["at"] = pick(rng, [0.5, -0.5, -100.0])
    return o


def options_of(rng, n, hi=2.5):
    return dict(c1=rnd(rng, 0, hi), c2=rnd(rng, 0, hi), w=rnd(rng, 0, 1.2))


def config(rng, sid, opts=("gb", "lb", "gen", "bin"), n=None, d=None, ops=None, iters=None, bounded=None,
           kinds=None, vh=None, clamp=None, tol=None, top=None, init=None):
    opt = pick(rng, list(opts))
    n = n or pick(rng, [1, 2, 3, 4, 5, 7, 10])
    d = d or (n if rng.random() < 0.12 else pick(rng, [1, 2, 3, 4, 6]))
    cfg = dict(sid=sid, seed=int(rng.integers(1 << 30)), opt=opt, n=n, d=d, options=options_of(rng, n))
    o = cfg["options"]
    if opt in ("lb", "bin"):
        o.update(k=int(rng.integers(1, n + 1)), p=pick(rng, [1, 2]))
        if opt == "lb":
            cfg["static"] = bool(rng.random() < 0.5)
    if opt == "gen":
        tops = ["star", "ring"]
        if n > 1:
            tops.append("vn")
        if n >= 2:
            tops.append("random")
        if d >= 2 and (n <= 10 or d <= 3):
            tops.append("pyramid")
        t = cfg["top"] = top if top in tops else pick(rng, tops)
        cfg["static"] = bool(rng.random() < 0.5)
        if t == "ring":
            o.update(k=int(rng.integers(1, n + 1)), p=pick(rng, [1, 2]))
        elif t == "random":
            o.update(k=int(rng.integers(1, n)))
        elif t == "vn":
            from optrun import delannoy
            rs = [r for r in (0, 1, 2, 3) if delannoy(d, r) <= n]
            o.update(r=pick(rng, rs), p=pick(rng, [1, 2]))
    if bounded is None:
        bounded = rng.random() < 0.5
    if opt != "bin":
        if bounded:
            cfg["bounds"] = bounds_of(rng, d)
            cfg["bh"] = pick(rng, BH)
        elif rng.random() < 0.2:
            cfg["center"] = rnd(rng, 0.5, 3)
    if clamp is None:
        clamp = rng.random() < 0.5
    if clamp:
        cfg["clamp"] = clamp_of(rng, d)
    if vh is None and opt != "bin":
        vh = pick(rng, ["unmodified", "unmodified", "invert", "zero", "adjust"]) if bounded else pick(rng, ["unmodified"] * 4 + ["adjust"])
    if vh:
        cfg["vh"] = vh
        if vh == "zero" and clamp:
            lo, hi = cfg["clamp"]
            if np.min(hi) < 0 or np.max(lo) > 0:
                cfg["clamp"] = clamp_of(rng, d, False)
    if init is None:
        init = rng.random() < 0.3
    if init:
        if opt == "bin":
            cfg["init_pos"] = rng.integers(0, 2, size=(n, d)).tolist()
            cfg["init_int"] = True
        elif bounded:
            lb, ub = np.array(cfg["bounds"]["lb"]), np.array(cfg["bounds"]["ub"])
            u = rng.random((n, d))
            u[rng.random((n, d)) < 0.2] = 0
            u[rng.random((n, d)) < 0.1] = 1
            x = np.clip(lb + (ub - lb) * u, lb, ub)
            if rng.random() < 0.3 and all(float(v).is_integer() for v in cfg["bounds"]["lb"]):
                x = np.clip(np.round(x), lb, np.floor(ub))
                cfg["init_int"] = True
                x = x.astype(int)
            cfg["init_pos"] = x.tolist()
        else:
            if rng.random() < 0.5:
                cfg["init_pos"] = rng.integers(-4, 5, size=(n, d)).tolist()
                cfg["init_int"] = True
            else:
                x = rng.normal(size=(n, d))
                if n > 2 and rng.random() < 0.4:
                    x[1:] = x[0] if rng.random() < 0.5 else x[rng.integers(0, 2, size=n - 1)]
                cfg["init_pos"] = x.tolist()
    if iters is None:
        iters = pick(rng, [1, 2, 3, 6, 12])
    cfg["objective"] = objective_of(rng, n, 3 * iters, kinds)
    if tol is None:
        tol = rng.random() < 0.35
    if tol:
        cfg["ftol"] = pick(rng, [[1, 8], [1, 64], [0, 1], [1, 1], [1, 1024], [3, 1]])
        cfg["ftol_iter"] = pick(rng, [1, 1, 2, 3, 5])
    cfg["ops"] = ops if ops is not None else history(rng, n, iters)
    if cfg.get("ftol") and cfg["objective"]["kind"] not in ("quad", "plateau", "hash", "table", "noise", "stairs", "penal", "nanpart"):
        del cfg["ftol"], cfg["ftol_iter"]
    return cfg


def large(rng, m):
    """overrides that make a configuration wide or long"""
    if rng.random() < 0.5:
        if rng.random() < 0.25:
            return dict(m, n=pick(rng, [40, 70, 110]), d=pick(rng, [20, 33, 40]), iters=2)
        return dict(m, n=pick(rng, [13, 20, 33, 48, 64]), d=pick(rng, [1, 2, 3, 7, 12, 24]), iters=3)
    return dict(m, n=pick(rng, [1, 2, 3, 4]), d=pick(rng, [1, 2]), iters=pick(rng, [60, 110, 160]))


def endless(rng, m, i):
    """more iterations than anything in the code may count up to"""
    m = {q: w for q, w in m.items() if q in ("opts", "bounded", "clamp", "vh", "init")}
    o = m.get("opts", ("gb", "lb", "gen", "bin"))
    m["opts"] = (o[i % len(o)],)
    it = int(rng.integers(1030, 1300))
    return dict(m, n=pick(rng, [1, 2, 3]), d=pick(rng, [1, 2]), tol=False, kinds=["quad", "hash", "noise", "plateau"], iters=it,
                ops=[["run", it, {}], ["reset", {"seed": int(rng.integers(1 << 30))}], ["run", 4, {}]])


def history(rng, n, iters, fail=0.08):
    ops = []
    for _ in range(pick(rng, [1, 1, 2, 2, 3, 4])):
        if ops and rng.random() < 0.35:
            ops.append(["reset", {"seed": int(rng.integers(1 << 30))}])
        o = {}
        if rng.random() < 0.2:
            o["kwargs"] = pick(rng, [{"a": 1}, {"a": 2.5, "b": "s"}, {"weights": [1, 2], "flag": False}, {"a": None, "n": 0}, {"t": "", "e": []}])
        it = int(rng.integers(1, iters + 1))
        if rng.random() < fail:
            o["fail"] = int(rng.integers(0, it))
        if len(ops) and rng.random() < 0.15:
            o["objective"] = objective_of(rng, n, 3 * iters, ["quad", "hash", "noise", "plateau"])
        ops.append(["run", it, o])
    return ops
