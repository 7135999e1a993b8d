"""The checks that record histories of runs and validate them with PSOTrace,
and replay the behaviours enumerated by PSOGen."""
import json

import numpy as np

import vlib
from checks.common import Background, drive, planted

DESIGN = {  # pid -> (invariants, properties)
    "C01": (["ResultIsBest"], []),
    "C02": (["PbestIsOwnBest"], ["PbestMonotone"]),
    "C03": (["BestIsBest"], ["BestMonotone"]),
    "C05": (["BestIsBest"], []),
    "C11": (["HistoryFaithful"], ["HistoryAppendOnly"]),
    "C12": (["StopsExactly"], []),
    "C13": (["Budget"], []),
    "C14": (["ResultIsBest", "HistoryFaithful"], ["HistoryAppendOnly"]),
    "C25": (["FailedRunRecordsCompleted"], []),
}
BASE = dict(N=2, MaxIter=3, MaxRuns=1, Costs="AllCosts", K=2, F=1, Num=1, Den=2, Scale=1, CanFail="TRUE", Fault='"none"')
CONFIGS = {
    "one": BASE,
    "runs": dict(BASE, MaxIter=2, MaxRuns=2, Costs="FewCosts"),
    "nbh": dict(BASE, N=3, MaxIter=2, Costs="FewCosts"),
    "window": dict(BASE, N=1, MaxIter=6, K=1, F=2, Costs="StepCosts"),
}
# mistakes the properties of the design must see, and where
FAULTS = {"C01": [("carry", "runs"), ("any", "one")], "C02": [("last", "one"), ("carry", "runs")], "C03": [("any", "one"), ("any", "nbh")],
          "C11": [("rewrite", "one")], "C12": [("window", "window")], "C13": [("still", "one")], "C14": [("carry", "runs"), ("rewrite", "runs")],
          "C25": [("half", "runs")]}
THOROUGH = {
    "runs": dict(BASE, MaxIter=2, MaxRuns=3, Costs="FewCosts"),
    "nbh": dict(BASE, N=3, MaxIter=2, K=2, Costs="AllCosts"),
    "long": dict(BASE, N=2, MaxIter=4, Costs="FewCosts"),
    "window": dict(BASE, N=1, MaxIter=8, K=1, F=3, Costs="StepCosts"),
}


def design(V, scratch, pid, names):
    inv, props = DESIGN.get(pid, ([], []))
    for nm in names:
        V.add_mc("PSO/" + nm, vlib.model_check("PSO", scratch, CONFIGS[nm], inv, props, workers=2))
    for fault, nm in FAULTS.get(pid, ()) if names else ():
        planted(V, scratch, "PSO", CONFIGS[nm], inv, [fault], props)
    if vlib.tier() == "thorough":
        for nm in THOROUGH:
            V.add_mc("PSO/thorough-" + nm, vlib.model_check("PSO", scratch, THOROUGH[nm], inv, props, workers=4, timeout=3000))


# --------------------------------------------------- replay of spec behaviours
GEN = {
    "costs": dict(N=2, T=2, Costs="AllCosts", F=99, Num=-1, Den=1, Scale=8),
    "deep": dict(N=1, T=4, Costs="AllCosts", F=99, Num=-1, Den=1, Scale=8),
    "signs": dict(N=2, T=2, Costs="FourCosts", F=99, Num=-1, Den=1, Scale=8),
    "three": dict(N=3, T=1, Costs="FourCosts", F=99, Num=-1, Den=1, Scale=8),
    "window1": dict(N=1, T=5, Costs="StepCosts", F=1, Num=1, Den=8, Scale=8),
    "window2": dict(N=1, T=5, Costs="StepCosts", F=2, Num=1, Den=8, Scale=8),
    "window3": dict(N=1, T=6, Costs="StepCosts", F=3, Num=1, Den=4, Scale=8),
    "window0": dict(N=1, T=4, Costs="StepCosts", F=1, Num=0, Den=1, Scale=8),
    "windowS": dict(N=1, T=4, Costs="SignedCosts", F=1, Num=1, Den=2, Scale=8),
    "windowS2": dict(N=1, T=4, Costs="SignedCosts", F=2, Num=1, Den=1, Scale=8),
}


def gen_cases(V, scratch, name):
    k = dict(GEN[name], Sample=1)
    if k["Num"] < 0:
        k["Num"] = "NoTol"   # TLC configuration files hold no negative numbers
    r = vlib.tlc("PSOGen", vlib.cfg_text("Spec", k, ["BestIsLowest", "Emit"]), scratch)
    if not r.ok:
        raise vlib.Machinery("PSOGen: " + r.out[-2000:])
    cases = []
    for ln in r.prints:
        if ln.startswith('<<"CASE", '):
            cases.append(json.loads(json.loads(ln[len('<<"CASE", '):-2].strip())))
    V.add_mc("PSOGen/" + name, r)
    return cases


def replay_scenarios(V, scratch, names, opts, cap=None, chunk=60, seed=1):
    rng = np.random.default_rng(seed + 77)
    out = []
    for name in names:
        cases = gen_cases(V, scratch, name)
        if cap and len(cases) > cap:
            cases = [cases[i] for i in rng.choice(len(cases), cap, replace=False)]
        g = GEN[name]
        for o in opts:
            for c0 in range(0, len(cases), chunk):
                out.append(dict(kind="replay", opt=o, gen=name, N=g["N"], T=g["T"], F=g["F"], num=g["Num"], den=g["Den"],
                                scale=g["Scale"], seed=int(rng.integers(1 << 30)), cases=cases[c0:c0 + chunk], sid=len(out)))
    return out


def _val(c, scale):
    return {1000000000: np.inf, -1000000000: -np.inf, -1999999999: np.nan}.get(c, c / scale)


def _same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())


OPTS = {"gb": dict(opt="gb"), "lb": dict(opt="lb", k=2), "bin": dict(opt="bin", k=2), "gstar": dict(opt="gen", top="star"),
        "gring": dict(opt="gen", top="ring", k=1), "gvn": dict(opt="gen", top="vn"), "grandom": dict(opt="gen", top="random"),
        "gpyr": dict(opt="gen", top="pyramid")}


def opt_cfg(name, N, d=2):
    o = dict(OPTS[name])
    k = o.pop("k", None)
    options = dict(c1=0.5, c2=0.75, w=0.5)
    if k:
        options.update(k=min(k, N), p=2)
    if o.get("top") == "vn":
        options.update(r=0, p=2)
    if o.get("top") == "random":
        options.update(k=max(1, N - 1))
    return dict(o, n=N, d=d, options=options)


def replay(sc):
    """Steps the real optimiser through generated behaviours and compares."""
    from optrun import build, snap, histories

    bad = []
    N, S = sc["N"], sc["scale"]
    if sc["opt"] == "grandom" and N < 2:
        return {"bad": [], "count": 0}
    tol = {} if sc["F"] == 99 else dict(ftol=[sc["num"], sc["den"]], ftol_iter=sc["F"])
    for ci, case in enumerate(sc["cases"]):
        cfg = dict(opt_cfg(sc["opt"], N), **tol)
        opt = build(cfg)
        xs, snaps, calls = [], [], [0]
        tab = np.array([[_val(c, S) for c in row] for row in case["c"]], dtype=float)

        def f(x):
            t = calls[0]
            calls[0] += 1
            if t > 3 * sc["T"] + 20:
                raise RuntimeError("far more evaluations than requested")
            xs.append(np.array(x, dtype=float))
            snaps.append(snap(opt))
            return tab[min(t, len(tab) - 1)].copy()

        cost, pos = opt.optimize(f, sc["T"], verbose=False)
        snaps.append(snap(opt))
        h = histories(opt)

        def note(clause, what):
            if len(bad) < 20:
                bad.append([clause, "%s generator %s case %d: %s; table %s" % (sc["opt"], sc["gen"], ci, what, case["c"])])

        if calls[0] != case["n"]:
            note("C12.stopped", "%d iterations instead of %d" % (calls[0], case["n"]))
            note("C13.evaluations", "%d evaluations instead of %d" % (calls[0], case["n"]))
            continue
        if any(x.shape != (N, 2) for x in xs):
            note("C13.whole_swarm", "wrong shape")
            continue
        for t, st in enumerate(case["steps"]):
            s = snaps[t + 1]
            want = [_val(c, S) for c in st["pbc"]]
            if not _same(s["pbest_cost"], want):
                note("C02.cost", "iteration %d personal best costs %s instead of %s" % (t, s["pbest_cost"].tolist(), want))
            else:
                for i in range(N):
                    if st["at"][i] > 0 and not _same(s["pbest_pos"][i], xs[st["at"][i] - 1][i]):
                        note("C02.position", "iteration %d particle %d" % (t, i))
            if not _same(s["best_cost"], _val(st["best"], S)):
                note("C03.best", "iteration %d best cost %s" % (t, s["best_cost"]))
        last = case["steps"][-1]
        if not _same(cost, _val(last["best"], S)):
            note("C01.cost", "returned %s instead of %s" % (cost, _val(last["best"], S)))
        low = [(t, i) for t in range(calls[0]) for i in range(N) if tab[t, i] == cost]
        if np.isfinite(cost) and not any(_same(pos, xs[t][i]) for t, i in low):
            note("C01.position", "returned position was not evaluated with the returned cost")
        if np.shape(pos) != (2,):
            note("C01.shape", "position of shape %s" % (np.shape(pos),))
        if not _same(h["c"], [_val(st["best"], S) for st in case["steps"]]):
            note("C11.cost", "history %s" % h["c"])
        if len(h["x"]) != calls[0] or any(not _same(a, b) for a, b in zip(h["x"], xs)):
            note("C11.position", "position history differs from what was evaluated")
        want = [_mean(st["m"], S, N) for st in case["steps"]]
        if len(h["m"]) != len(want) or not np.allclose(h["m"], want, rtol=1e-9, equal_nan=True):
            note("C11.mean", "mean history %s instead of %s" % (h["m"], want))
        if not _same(h["q"], [_val(st["best"], S) for st in case["steps"]]):
            note("C11.neighbour", "neighbour history %s" % h["q"])
    return {"bad": bad, "count": len(sc["cases"])}


def _mean(m, S, N):
    v = _val(m, S)
    return v / N if np.isfinite(v) else v


# ------------------------------------------------------------------ scenarios
def run(sc):
    if sc.get("kind") == "replay":
        return replay(sc)
    from optrun import project

    return project(sc)


def configs(pid, count, mixes, seed):
    import gen

    rng = np.random.default_rng([seed, int(pid[1:]), 11])
    out = []
    wide, long = count // 20, max(8, count // 200)
    for i in range(count + wide + long):
        m = dict(mixes[i % len(mixes)])
        endless = i >= count + wide
        if i >= count:
            m = gen.endless(rng, m, i // 2) if endless else gen.large(rng, m)
        post = m.pop("post", None)
        c = gen.config(rng, i, **m)
        if post:
            post(c, rng)
        if endless and i % 2:    # and a window that is longer than any other
            c.update(ftol=[1, 1024], ftol_iter=int(rng.choice([60, 300, 300, 600, 800])),
                     objective=dict(kind="stairs", seed=i, drop=[0] * int(rng.integers(5, 60)) + [80, 0]))
        out.append(c)
    return out


def check(V, scratch, pid, mixes, gens=("costs",), designs=("one",), opts=tuple(OPTS), quick=420, thorough=6000, cap=256, seed=None,
          extra=None):
    thor = vlib.tier() == "thorough"
    seed = vlib.seed() if seed is None else seed
    bg = Background(design, V, scratch, pid, designs)
    sc = replay_scenarios(V, scratch, gens, opts, cap=None if thor else cap, seed=seed)
    for s in sc:
        s["sid"] += 100000
    sc += configs(pid, thorough if thor else quick, mixes, seed)
    if extra:
        sc += extra(seed, thor)
    res, lines = drive(V, sc, scratch, "PSOTrace", shards=4 if not thor else 8, workers=6, total=3000 if thor else 600, vtimeout=3000 if thor else 700)
    # what of the replayed behaviours belongs to other properties is not counted here
    V.violations = [v for v in V.violations if v["clause"].startswith(pid + ".") or v["clause"] == vlib.UNTRACEABLE]
    bg.join()
    V.assumptions += ["costs are compared exactly as integers (multiples of 1/8) or by rank", "positions are compared bit for bit"]
    return lines
