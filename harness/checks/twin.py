"""Scripts of operations on several optimisers, recorded for TwinTrace."""
import hashlib
import json
import os
import random
import re
import subprocess
import sys
import tempfile

import numpy as np


def dig(*parts):
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, np.ndarray):
            a = np.ascontiguousarray(np.asarray(p, dtype=float) + 0.0)
            h.update(str(a.shape).encode() + a.tobytes())
        elif isinstance(p, (list, tuple)):
            h.update(b"(" + dig(*p).encode() + b")")
        elif isinstance(p, dict):
            h.update(json.dumps({str(k): dig(v) for k, v in p.items()}, sort_keys=True).encode())
        elif isinstance(p, (float, int, np.floating, np.integer, np.bool_)):
            h.update(repr(float(p)).encode())
        else:
            h.update(repr(p).encode())
        h.update(b";")
    return h.hexdigest()[:16]


def rng_dig():
    s = np.random.get_state()
    return dig(s[0], np.array(s[1], dtype=float), s[2], s[3], s[4])


class Fds:
    """What is written to the descriptors 1 and 2."""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush()
        self.f = [tempfile.TemporaryFile() for _ in (1, 2)]
        self.old = [os.dup(1), os.dup(2)]
        for i in (0, 1):
            os.dup2(self.f[i].fileno(), i + 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(), sys.stderr.flush()
        for i in (0, 1):
            os.dup2(self.old[i], i + 1)
            os.close(self.old[i])
            self.f[i].seek(0)
        self.text = "".join(f.read().decode(errors="replace") for f in self.f)
        for f in self.f:
            f.close()


# strictly increasing, and exact on the multiples of 1/8 up to some thousands
GAINS = {"double": lambda c: c * 2.0, "tiny": lambda c: c * 2.0 ** -40, "huge": lambda c: c * 2.0 ** 40, "up": lambda c: c + 4096.0,
         "down": lambda c: c - 65536.0, "cube": lambda c: c * 64.0 * c * c, "rank": lambda c: np.sign(c) * np.floor(np.abs(c) * 8) ** 2}


class Rows:
    """A picklable objective that evaluates row by row and records."""

    def __init__(self, spec, fail, log, unit=1.0, gain=None):
        import optrun

        self.obj, self.fail, self.log, self.optrun, self.unit, self.gain = optrun.Objective(spec), fail, log, optrun, unit, gain

    def __call__(self, x, **kw):
        t = len(self.log)
        x = np.array(x, dtype=float) / self.unit
        self.log.append((x, dict(kw)))
        if t > 2000:
            raise RuntimeError("far more evaluations than requested")
        if self.fail is not None and t == self.fail:
            raise self.optrun.boom(t + x.shape[0])
        c = self.obj.costs(np.array(x, order="C"), t)
        return GAINS[self.gain](c) if self.gain else c


class Plain:
    """For worker processes: records nothing."""

    def __init__(self, spec):
        import optrun

        self.obj = optrun.Objective(spec)

    def __call__(self, x, **kw):
        return self.obj.costs(np.array(x, dtype=float, order="C"), 0)


class Point:
    """The objective at one point, to be decorated."""

    def __init__(self, spec):
        import optrun

        self.obj, self.t = optrun.Objective(spec), 0

    def __call__(self, x, **kw):
        return float(self.obj.costs(np.array(x, dtype=float)[None, :], 0)[0])


def inputs_of(cfg):
    import optrun

    o = dict(cfg["options"])
    return o, optrun.make_bounds(cfg), optrun.make_clamp(cfg), optrun.make_init(cfg)


def inputs_dig(p):
    o, b, c, i = p
    return dig({k: [type(v).__name__, v] for k, v in o.items()}, repr(type(b)), b if b is None else [list(map(float, q)) for q in b],
               repr(type(c)), c if c is None else [np.asarray(q, float) for q in c], i if i is None else [str(i.dtype), i])


def keyed(cfg):
    """What of a configuration the behaviour may depend on; configurations said
    to be equivalent share the name of their class."""
    if "cls" in cfg:
        return dig(cfg["cls"])
    return dig(json.dumps({k: v for k, v in cfg.items() if k not in ("sid", "seed", "ops", "objective", "rank")}, sort_keys=True))


def static_of(cfg):
    if "stat" in cfg:
        return bool(cfg["stat"])
    return bool(cfg.get("static", False) or cfg.get("top") == "vn")


def histories(opt):
    import optrun

    h = optrun.histories(opt)
    return h


def hist_dig(h, lo, cfg=None):
    cfg = cfg or {}
    u = cfg.get("unit", 1.0)
    return dig(*[[h[q][i] / u if q in "xv" else h[q][i] for i in range(lo, len(h[q]))] for q in ("xv" if cfg.get("moves") else "cmqxv")])


def execute(sc, script):
    """Performs a script; returns raw lines with digests."""
    import optrun

    out, opts, shared, last = [], {}, None, {}
    if sc.get("share"):
        shared = inputs_of(sc["cfgs"][0])
        before = inputs_dig(shared)
    obj = {}
    for step in script:
        o, op, a = step
        cfg = sc["cfgs"][(o % 100) % len(sc["cfgs"])]
        if op == "burn":
            random.seed(a.get("seed", 0))
            random.random()
            continue
        if a.get("seed") is not None:
            np.random.seed(a["seed"])
        line = dict(k="op", pid=sc["pid"], o=o, op=op, cfg=keyed(cfg) if "obj" not in cfg else dig(json.dumps(cfg, sort_keys=True)),
                    static="obj" not in cfg and static_of(cfg),
                    drawn=bool("obj" not in cfg and cfg.get("init_pos") is None and not (cfg["opt"] == "bin" and cfg["n"] * cfg["d"] < 60)),
                    rng=rng_dig(), at="-", ev="-", res="-", hist="-", args="-")
        first = op in ("new", "reset")
        if op == "make" or op == "call":
            _object_step(obj, o, cfg, op, a, line)
            out.append(line)
            continue
        if op == "new":
            own = shared if shared else inputs_of(cfg)
            parts = {"shared": own}
            b0 = inputs_dig(own)
            with Fds() as f:
                opts[o] = optrun.build(cfg, parts)
            last[o] = (None, own, b0)
            line.update(ev=dig(np.array(opts[o].swarm.position) / cfg.get("unit", 1.0)))
            if sc["pid"] == "C20":
                out.append(dict(k="shown", pid="C20", verbose=False, bytes=len(f.text)))
        elif op == "reset":
            opts[o].reset()
            h = histories(opts[o])
            line.update(ev=dig(np.array(opts[o].swarm.position) / cfg.get("unit", 1.0)), hist="-" if not any(len(v) for v in h.values()) else hist_dig(h, 0))
        elif op == "plant":
            src = opts[a["from"]].swarm
            opts[o].swarm.position = np.array(src.position)
            opts[o].swarm.velocity = np.array(src.velocity)
            line.update(args=dig(np.array(src.position), np.array(src.velocity)))
        elif op == "poke":
            res = last[o][0]
            h0 = hist_dig(histories(opts[o]), 0)
            s0 = optrun.snap(opts[o])
            if res is not None:
                np.asarray(res[1])[...] = 77
            ok = h0 == hist_dig(histories(opts[o]), 0) and dig(s0) == dig(optrun.snap(opts[o]))
            out.append(dict(k="fact", clause=sc["pid"] + ".returned_position", ok=bool(ok)))
            continue
        elif op == "run":
            _run(sc, cfg, opts[o], o, a, line, out, last)
        if first and sc["pid"] == "C14":
            have = opts[o].swarm.options
            out.append(dict(k="fact", clause="C14.options", ok=bool(set(have) == set(cfg["options"]) and all(have[q] == v for q, v in cfg["options"].items()))))
        u = cfg.get("unit", 1.0)
        line.update(rng2=rng_dig(), swarm=dig(np.array(opts[o].swarm.position) / u, np.array(opts[o].swarm.velocity) / u))
        out.append(line)
        if not shared:
            out.append(dict(k="inputs", pid=sc["pid"], before=last[o][2], after=inputs_dig(last[o][1])))
    if shared:
        out.append(dict(k="inputs", pid=sc["pid"], before=before, after=inputs_dig(shared)))
    return out


def _run(sc, cfg, opt, o, a, line, out, last):
    import optrun
    import pyswarms as ps

    kw = a.get("kwargs", {})
    u = cfg.get("unit", 1.0)
    log = []
    nproc = a.get("nproc")
    how = a.get("how", "vector")
    if nproc is not None:
        f = Plain(a["objective"])
    else:
        f = Rows(a["objective"], a.get("fail"), log, u, cfg.get("gain"))
        if how == "decorated":
            pt = Point(a["objective"])

            def each(x, **k):
                log.append((np.array(x, dtype=float), dict(k)))
                return pt(x, **k)

            f = ps.cost(each)
    h0 = histories(opt)
    lo = len(h0["c"])
    line.update(args=dig(a["iters"], json.dumps(a["objective"], sort_keys=True), json.dumps(kw, sort_keys=True), repr(a.get("fail"))),
                at=dig(np.array(opt.swarm.position) / u, np.array(opt.swarm.velocity) / u))
    extra = {} if nproc is None else {"n_processes": nproc}
    verbose = bool(a.get("verbose", False))
    res = None
    with Fds() as fd:
        try:
            res = opt.optimize(f, a["iters"], verbose=verbose, **extra, **kw)
            line["res"] = dig(np.asarray(0.0 if cfg.get("moves") else res[0]), np.asarray(res[1]) / u)
        except optrun.Boom:
            line["res"] = "raised"
    h = histories(opt)
    # evaluations, in one form for all ways to write an objective
    if nproc is not None:
        ev = np.concatenate(h["x"][lo:]) if len(h["x"]) > lo else np.zeros((0, cfg["d"]))
        kws = None
    else:
        rows = [x if how == "vector" else x[None, :] for x, _ in log]
        ev = np.concatenate(rows) if rows else np.zeros((0, cfg["d"]))
        if any(k != kw for _, k in log):
            out.append(dict(k="fact", clause=sc["pid"] + ".kwargs", ok=False))
    line.update(ev=dig(ev), hist=hist_dig(h, lo, cfg))
    last[o] = (res, last[o][1], last[o][2])
    if sc["pid"] == "C20" and res is not None:
        text = fd.text
        shown = [_g(v) for v in re.findall(r"best_cost=\s*([-+.\w]+)", text)]
        words = re.sub(r"best_cost=\s*[-+.\w]+", "", text)
        out.append(dict(k="shown", pid="C20", verbose=verbose, bytes=len(text), shown=shown, costs=[_g(v) for v in h["c"][lo:]],
                        params=bool(all(str(v) in words and str(k) in words for k, v in cfg["options"].items()) and re.search(r"\b%d\b" % a["iters"], words)),
                        final=bool(str(float(res[0])) in words)))


def _g(v):
    try:
        return "%.3g" % (float(v) + 0.0)
    except ValueError:
        return str(v)


# -------------------------------------------------- handlers, topologies, swarms
def _object_step(obj, o, cfg, op, a, line):
    import pyswarms.backend as P
    from pyswarms.backend.handlers import BoundaryHandler, OptionsHandler, VelocityHandler
    from pyswarms.backend.swarms import Swarm
    from optrun import make_topology

    kind = cfg["obj"]
    line.update(args=dig(json.dumps({k: v for k, v in a.items() if k != "seed"}, sort_keys=True)))
    if op == "make":
        if kind == "bh":
            obj[o] = BoundaryHandler(strategy=cfg["strategy"])
        elif kind == "vh":
            obj[o] = VelocityHandler(strategy=cfg["strategy"])
        elif kind == "oh":
            obj[o] = OptionsHandler(strategy=dict(cfg["strategy"]))
        elif kind == "top":
            obj[o] = make_topology(cfg)
        elif kind == "swarm":
            obj[o] = P.create_swarm(n_particles=cfg["n"], dimensions=cfg["d"])
        line.update(rng2=rng_dig(), swarm="-")
        return
    rng = np.random.default_rng(a["x"])
    n, d = cfg["n"], cfg["d"]
    x = np.round(rng.normal(size=(n, d)) * 3, 3)
    v = np.round(rng.normal(size=(n, d)), 3)
    if a["x"] % 4 == 1:         # others are partly at the same places
        x[[0, -1][a["x"] % 8 // 4]] = 0.25
    elif a["x"] % 4 == 2:
        x[:, 0] = np.arange(n)
    lb, ub = -np.ones(d), np.ones(d) * 1.5
    if kind == "bh":
        if a.get("first") and a["i"] % 3:
            obj[o].memory = np.clip(x, lb, ub)
        r = obj[o](x, (lb, ub), velocity=v)
    elif kind == "vh":
        if a.get("first") and a["i"] % 3:
            obj[o].memory = x * 0.5
        r = obj[o](v, (-2.0, 2.0), position=x, bounds=(lb, ub))
    elif kind == "oh":
        r = np.array([float(q) for _, q in sorted(obj[o](dict(cfg["start"]), iternow=a["i"], itermax=10).items())])
    elif kind == "top":
        sw = Swarm(x, v, options={})
        sw.pbest_pos, sw.pbest_cost = x.copy(), np.round((x ** 2).sum(axis=1), 3)
        sw.current_cost = sw.pbest_cost.copy()
        kw = {"ring": dict(p=2, k=3), "vn": dict(p=2, r=1), "random": dict(k=2)}.get(cfg["top"], {})
        bp, bc = obj[o].compute_gbest(sw, **kw)
        r = np.concatenate([np.ravel(bp), [float(bc)]])
    else:
        s = obj[o]
        r = np.concatenate([np.ravel(s.position), np.ravel(s.velocity), [len(s.options), float(s.best_cost)], np.ravel(s.pbest_cost), np.ravel(s.best_pos)])
        s.options["w%d" % a["x"]] = 1.0
        s.pbest_cost = np.full(n, float(a["x"]))
        s.best_cost = float(a["x"])
        s.position = s.position + 1
    line.update(res=dig(np.asarray(r)), rng2=rng_dig(), swarm="-")


# ------------------------------------------------------------------------ running
TOKENS = ("cfg", "rng", "rng2", "args", "at", "ev", "res", "hist", "swarm", "before", "after")


def tokenise(sid, raw):
    tok, lines = {}, [dict(sid=sid, k="begin")]
    for r in raw:
        r = dict(r, sid=sid)
        for q in TOKENS:
            if q in r:
                r[q] = tok.setdefault(r[q], len(tok) + 1)
        for q in ("shown", "costs"):
            if q in r:
                r[q] = [tok.setdefault("s" + v, len(tok) + 1) for v in r[q]]
        lines.append(r)
    return lines


def run(sc):
    raw = []
    for part in sc["parts"]:
        if part.get("process"):
            env = dict(os.environ, PYTHONHASHSEED=str(part["process"]))
            d = tempfile.mkdtemp(dir=os.getcwd())
            p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps([sc, part["script"]]), text=True,
                               capture_output=True, env=env, cwd=d, timeout=50)
            if p.returncode:
                raise RuntimeError("another process failed: " + p.stderr[-800:])
            raw += json.loads(p.stdout.splitlines()[-1])
        else:
            raw += execute(sc, part["script"])
    if sc.get("asnew"):
        raw.append(dict(k="asnew", pid=sc["pid"]))
    return tokenise(sc["sid"], raw)


if __name__ == "__main__":
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    sc, script = json.load(sys.stdin)
    import pyswarms  # noqa: F401

    logging.disable(logging.CRITICAL)
    np.random.seed(987)
    got = execute(sc, script)
    print(json.dumps(got))
