"""Scenarios for TwinTrace."""
import numpy as np

import gen
import vlib

ROWWISE = ["quad", "plateau", "hash", "raw", "rawneg", "big", "penal"]
OH = ["lin_variation", "nonlin_mod", "exp_decay", "random"]
FAULTS = ["cell", "verbose", "stale", "compound"]


def design(V, scratch, faults=True):
    """Twin satisfies its two functions, and any planted fault breaks them."""
    thor = vlib.tier() == "thorough"
    base = dict(Opts="{1, 2}", Rngs="{0, 1}", Args="{0, 1}", MaxOps=6 if thor else 5, Leak='"none"')
    inv = ["HistoryDecides", "SwarmDecides"]
    for st in ("FALSE", "TRUE"):
        V.add_mc("Twin/static=" + st, vlib.model_check("Twin", scratch, dict(base, Static=st), inv, workers=2, timeout=3000))
        for lk in FAULTS if faults else ():
            r = vlib.tlc("Twin", vlib.cfg_text("Spec", dict(base, Static=st, MaxOps=5, Leak='"%s"' % lk), inv), scratch, workers=2)
            if "is violated" not in r.out:
                raise vlib.Machinery("the functions of Twin do not see the planted fault " + lk)
            V.add_mc("Twin/planted-%s-%s" % (lk, st), r)


def conf(rng, i, **kw):
    if "n" not in kw and "d" not in kw and rng.random() < 0.05:
        kw = gen.large(rng, kw)
    c = gen.config(rng, i, tol=kw.pop("tol", None), **kw)
    for q in ("ops", "objective"):
        c.pop(q, None)
    if c.get("clamp") and np.array_equal(*c["clamp"]):      # or the first velocities need no draw
        c["clamp"][0] = (np.array(c["clamp"][0]) - 0.25).tolist()
    if c["opt"] != "bin" and rng.random() < 0.35:
        c["oh"] = {q: gen.pick(rng, OH) for q in ("w", "c1", "c2") if rng.random() < 0.6} or {"w": "random"}
        c["options"] = {q: (v if q not in "wc1c2" else max(v, 0.01)) for q, v in c["options"].items()}
    return c


def run_args(rng, n, kinds=None, fail=0.0, iters=None):
    it = iters or int(rng.integers(1, 7) if rng.random() < 0.97 or n > 10 else rng.integers(40, 140))
    a = dict(seed=int(rng.integers(1 << 30)), iters=it, objective=gen.objective_of(rng, n, max(10, it), kinds))
    if rng.random() < 0.2:
        a["kwargs"] = gen.pick(rng, [{"a": 1}, {"a": 2.5, "b": "s"}, {"a": None, "t": ""}])
    if fail and rng.random() < fail:
        a["fail"] = int(rng.integers(0, it))
    return a


def lasting(rng, i, every=18):
    """Now and then a run of more iterations than anything may count up to: what to configure, and its iterations."""
    if i % every != every // 2:
        return {}, None
    return dict(n=int(rng.integers(2, 4)), d=int(rng.integers(1, 3)), opts=(("gb", "lb", "gen", "bin")[i // every % 4],)), int(rng.integers(1030, 1300))


def seed_of(rng):
    return int(rng.integers(1 << 30))


def c14(rng, i):
    kw, it = lasting(rng, i)
    c = conf(rng, i, **kw)
    n = c["n"]
    # costs may be infinite or no numbers throughout, which leaves bests alone
    a, b, x = run_args(rng, n), run_args(rng, n), run_args(rng, n, fail=0 if it else 0.3, iters=it)
    if rng.random() < 0.4:
        b["objective"] = dict(kind="noise", seed=seed_of(rng), m=3, pinf=0.7, pnan=0.3)
    s1 = seed_of(rng)
    if rng.random() < 0.1:
        x.pop("fail", None)
    st = [[1, "new", dict(seed=s1)], [2, "new", dict(seed=seed_of(rng))], [3, "new", dict(seed=seed_of(rng))],
          [1, "run", a], [1, "run", b], [2, "run", x]]
    for j in range(3):
        st += [[2, "reset", dict(seed=s1)]] + [[2, "reset", {}]] * j + [[2, "run", a], [2, "run", b], [2, "run", x]][: 2 + j % 2]
    # a swarm taken over from another optimiser is continued in the same way
    y = run_args(rng, n)
    st += [[3, "run", x], [3, "plant", {"from": 1}], [1, "run", y], [3, "run", y], [3, "plant", {"from": 2}], [2, "run", y], [3, "run", y],
           [4, "new", dict(seed=seed_of(rng))], [4, "plant", {"from": 1}], [1, "run", b], [4, "run", b]]
    return dict(cfgs=[c], parts=[dict(script=st)], asnew=True)


def c24(rng, i):
    kw, it = lasting(rng, i)
    c = conf(rng, i, **kw)
    n = c["n"]
    if i % 10 == 0 and c["opt"] != "bin":    # several draws for the coefficients of one step
        c["oh"] = {q: "random" for q in (("w", "c1", "c2"), ("c1", "c2"))[i // 10 % 2]}
    s1, s2 = seed_of(rng), seed_of(rng)
    a, b, e = run_args(rng, n, iters=it), run_args(rng, n, fail=0.2), run_args(rng, n)
    b.pop("seed")     # goes on with the state the first run left behind
    st = [[1, "new", dict(seed=s1)], [1, "run", a], [1, "run", b], [1, "reset", {}], [1, "run", e]]
    other = [[2, "new", dict(seed=s2)], [2, "run", a]]
    again = [[3, "burn", dict(seed=i)]] + [[3, op, q] for _, op, q in st]
    sc = dict(cfgs=[c], parts=[dict(script=st + other), dict(script=again)])
    if i % 5 == 0:
        sc["parts"].append(dict(script=other + st, process=1 + i))
    return sc


def c20(rng, i):
    kw, it = lasting(rng, i)
    c = conf(rng, i, **kw)
    n = c["n"]
    s = seed_of(rng)
    a, b, e = run_args(rng, n, iters=it), run_args(rng, n), run_args(rng, n)
    b.pop("seed")
    if rng.random() < 0.3:
        b["fail"] = int(rng.integers(0, b["iters"]))
    V, Q = dict(verbose=True), dict(verbose=False)
    st = []
    for o, pat in ((1, (Q, Q, Q)), (2, (V, V, V)), (3, (Q, V, Q)), (4, (V, Q, V))):
        st += [[o, "new", dict(seed=s)], [o, "run", dict(a, **pat[0])], [o, "run", dict(b, **pat[1])], [o, "reset", {}], [o, "run", dict(e, **pat[2])]]
    if i % 12 == 0:
        for q in (a, e):
            q["objective"] = gen.objective_of(rng, n, 10, ROWWISE)
        q = [5, "run", dict(a, nproc=2, verbose=bool(i % 24))]
        st = [[1, "new", dict(seed=s)], [1, "run", dict(a, **Q)], [5, "new", dict(seed=s)], q]
    return dict(cfgs=[c], parts=[dict(script=st)])


def shared_options(rng, n, d):
    from optrun import delannoy

    r = max(q for q in (0, 1) if delannoy(d, q) <= n)
    return dict(gen.options_of(rng, n), k=int(rng.integers(1, n)), p=gen.pick(rng, [1, 2]), r=r)


def solo_and_mixed(sc, script, seeds, args):
    """The script of pairs, first each optimiser alone, then interleaved."""
    idx, own = {}, []
    for o, op in script:
        j = idx[o] = idx.get(o, -1) + 1
        q = dict(seed=seeds[o][j])
        if op.startswith("run"):
            q.update(args[o][j % len(args[o])], seed=seeds[o][j])
            if op == "runv":
                q["verbose"] = True
            op = "run"
        elif op == "call":
            q.update(args[o][j % len(args[o])], first=j == 1)
        own.append((o, op, q))
    solo = []
    for o in sorted(idx):
        solo.append(dict(script=[[100 + o if len(sc["cfgs"]) == 1 else 100 + o, op, q] for p, op, q in own if p == o and op != "poke"]))
    sc["parts"] = solo + [dict(script=[list(t) for t in own])]
    return sc


def c19(rng, i, scripts):
    n, d = gen.pick(rng, [4, 5, 7, 10]), gen.pick(rng, [2, 3])
    o = shared_options(rng, n, d)
    binary = rng.random() < 0.2
    share = bool(rng.random() < 0.6)
    script = scripts[int(rng.integers(len(scripts)))]
    cfgs, proto = [], None
    for q in range(2):
        c = conf(rng, i, n=n, d=d, opts=("bin",) if binary else ("gb", "lb", "gen"), bounded=proto["bounds"] is not None if proto else None,
                 init=(proto["init_pos"] is not None) if proto else None, clamp=proto["clamp"] is not None if proto else None)
        if share or rng.random() < 0.5:
            c["options"] = o
        if proto is None:
            proto = {q: c.get(q) for q in ("bounds", "clamp", "init_pos", "init_int")}
        elif share:
            for q in ("bounds", "clamp", "init_pos", "init_int"):
                c.pop(q, None)
                if proto[q] is not None:
                    c[q] = proto[q]
            if proto["bounds"] and c.get("init_pos") and not proto["init_pos"]:
                c.pop("init_pos")
        cfgs.append(c)
    if rng.random() < 0.4:
        cfgs[1] = dict(cfgs[0])
    seeds = {p: [seed_of(rng) for _ in range(8)] for p in (1, 2)}
    args = {p: [run_args(rng, n, iters=int(rng.integers(1, 4))) for _ in range(3)] for p in (1, 2)}
    return solo_and_mixed(dict(cfgs=[cfgs[1], cfgs[0]], share=share), script, seeds, args)


def c19_objects(rng, i, scripts):
    n, d = gen.pick(rng, [4, 6, 9]), 2
    kind = ["bh", "vh", "oh", "top", "swarm"][i % 5]
    cfgs = []
    for q in range(2):
        c = dict(obj=kind, n=n, d=d)
        if kind == "bh":
            c["strategy"] = gen.pick(rng, gen.BH)
        elif kind == "vh":
            c["strategy"] = gen.pick(rng, ["unmodified", "invert", "zero", "adjust"])
        elif kind == "oh":
            c.update(strategy={k: gen.pick(rng, OH) for k in ("w", "c1", "c2")}, start=dict(c1=1.5, c2=0.7, w=0.9))
        elif kind == "top":
            c.update(top=gen.pick(rng, ["star", "ring", "vn", "random", "pyramid"]), static=bool(rng.random() < 0.5))
            if n < 5 and c["top"] == "vn":
                c["top"] = "ring"
        cfgs.append(c)
    if rng.random() < 0.6:
        cfgs[1] = dict(cfgs[0])
    seeds = {p: [seed_of(rng) for _ in range(10)] for p in (1, 2)}
    args = {p: [dict(x=int(rng.integers(1000)), i=int(rng.integers(10))) for _ in range(4)] for p in (1, 2)}
    script = [(o, {"new": "make"}.get(op, "call")) for o, op in scripts[int(rng.integers(len(scripts)))]]
    return solo_and_mixed(dict(cfgs=[cfgs[1], cfgs[0]]), script, seeds, args)


def scripts(V, scratch, kinds='{"reset", "run", "runv", "poke"}', length=7):
    cases, r = vlib.generate("TwinGen", scratch, dict(Opts=2, Kinds=kinds, Length=length), invariants=["Emit"])
    V.add_mc("TwinGen", r)
    return cases


def finish(pid, sc):
    for i, s in enumerate(sc):
        s.update(sid=i, pid=pid, kind="twin")
    return sc
