"""Runs with worker processes, for C13 and C25."""
import hashlib
import json
import multiprocessing
import os
import time

import numpy as np

import vlib
from checks import hist
from checks.common import planted


class Refused(Exception):
    """The scripted failure of a parallel objective."""


class RefusedValue(Refused, ValueError):
    pass


class RefusedKey(Refused, KeyError):
    pass


class RefusedStop(Refused, StopIteration):
    pass


class RefusedType(Refused, TypeError):
    pass


REFUSALS = [Refused, RefusedValue, RefusedStop, RefusedKey, RefusedType]


def refuse(q):
    return REFUSALS[q % len(REFUSALS)]("scripted", q)


class LoggedObjective:
    """Row-wise objective that logs every call and sleeps as scripted."""

    def __init__(self, path, delays, first, kwargs, fail=None, fail_from=0, sleep=0.0):
        self.path, self.delays, self.first, self.kwargs = path, delays, first, kwargs
        self.fail, self.fail_from, self.sleep = fail, fail_from, sleep

    def __call__(self, x, **kw):
        x = np.asarray(x, dtype=float)
        rows = [r.tobytes().hex() for r in np.ascontiguousarray(x)]
        if self.delays is not None and rows and rows[0] in self.first:
            time.sleep(self.delays[self.first[rows[0]]])
        elif self.sleep and rows:
            time.sleep((int(hashlib.md5(rows[0].encode()).hexdigest(), 16) % 4) * self.sleep)
        if self.fail is not None and any(self._fails(r) for r in x):
            raise refuse(int(round(self.fail * 10)))
        rec = dict(rows=rows, kw=(kw == self.kwargs), pid=os.getpid(), shape=list(x.shape))
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, (json.dumps(rec) + "\n").encode())
        finally:
            os.close(fd)
        return np.array([self.cost(r) for r in x], dtype=float)

    def cost(self, r):
        h = 0
        for v in r.tolist():
            h += int(abs(v) * 64) % 9
        return h / 8.0 + sum(v * v for v in r.tolist())

    def _fails(self, r):
        return float(np.abs(r).sum()) > self.fail


PATIENCE = [25.0]  # seconds: a busy machine lets workers exit late


def children():
    until = time.monotonic() + PATIENCE[0]
    while multiprocessing.active_children():
        if time.monotonic() > until:
            PATIENCE[0] = 3.0
            return len(multiprocessing.active_children())
        time.sleep(0.05)
    return 0


def read(path):
    try:
        with open(path) as f:
            return [json.loads(ln) for ln in f]
    except FileNotFoundError:
        return []


def run(sc):
    import gc

    import optrun

    cfg, sid = sc["cfg"], sc["sid"]
    n, d = cfg["n"], cfg["d"]
    path = os.path.join(os.getcwd(), "pool_%d.log" % sid)
    first = {}
    if cfg.get("init_pos"):
        x0 = np.array(cfg["init_pos"], dtype=float)
        # the slice a row begins, by the rank of the row
        cuts = np.array_split(np.arange(n), sc["workers"])
        first = {np.ascontiguousarray(x0[c[0]]).tobytes().hex(): k for k, c in enumerate(cuts) if len(c)}
    outs = []
    fact = lambda c, ok: dict(sid=sid, k="fact", clause=c, ok=bool(ok))  # noqa: E731
    lines = []
    for par in (False, True):
        np.random.seed(cfg["seed"] % 2 ** 32)
        opt = optrun.build(cfg)
        if os.path.exists(path):
            os.unlink(path)
        f = LoggedObjective(path, sc.get("delays") if par else None, first, sc["kwargs"], sleep=sc.get("sleep", 0) if par else 0)
        rec = dict(c=[], x=[], h=[], r=[])
        runs = []
        for it in sc["runs"]:
            log0 = len(read(path))
            cost, pos = opt.optimize(f, it, n_processes=sc["workers"] if par else None, verbose=False, **sc["kwargs"])
            h = optrun.histories(opt)
            tok = lambda a: hashlib.md5(np.ascontiguousarray(a, dtype=float).tobytes()).hexdigest()[:12]  # noqa: E731
            rec["c"].append(tok(h["c"]))
            rec["x"].append(tok(np.array(h["x"])))
            rec["h"].append([tok(h["m"]), tok(h["q"]), tok(np.array(h["v"]))])
            rec["r"].append([tok([cost]), tok(pos)])
            runs.append((h["x"], read(path)[log0:]))
        outs.append(rec)
        if par:
            k = children()
            done = 0
            ids = {}
            num = lambda r: ids.setdefault(r, len(ids) + 1)  # noqa: E731
            for xs, log in runs:
                xs = xs[done:]
                done += len(xs)
                log = [q for q in log if q["rows"]]
                at = 0
                for x in xs:
                    lines.append(dict(sid=sid, k="iter", x=[num(np.ascontiguousarray(r).tobytes().hex()) for r in x]))
                    got = 0
                    while got < n and at < len(log):
                        lines.append(dict(sid=sid, k="task", x=[num(r) for r in log[at]["rows"]], kw=log[at]["kw"]))
                        got += len(log[at]["rows"])
                        at += 1
                for q in log[at:]:
                    lines.append(dict(sid=sid, k="task", x=[num(r) for r in q["rows"]], kw=q["kw"]))
            lines.append(dict(sid=sid, k="done", children=k))
    lines.append(dict(sid=sid, k="pair", a=outs[0], b=outs[1]))
    return lines


def run_fail(sc):
    """A parallel objective that raises: the exception arrives, nobody is
    left behind, and the optimiser can be used again."""
    import gc

    import optrun

    cfg, sid = sc["cfg"], sc["sid"]
    fact = lambda c, ok: dict(sid=sid, k="fact", clause=c, ok=bool(ok))  # noqa: E731
    path = os.path.join(os.getcwd(), "pool_%d.log" % sid)
    np.random.seed(cfg["seed"] % 2 ** 32)
    opt = optrun.build(cfg)
    lines = []
    it = 5
    done = None
    f = LoggedObjective(path, None, {}, {}, fail=sc["fail"])
    try:
        opt.optimize(f, it, n_processes=sc["workers"], verbose=False)
        raised = None
    except Refused as e:
        raised = (type(e), e.args)
    except Exception as e:
        raised = repr(e)
    # serial reference: at which iteration does the failure come?
    h = optrun.histories(opt)
    np.random.seed(cfg["seed"] % 2 ** 32)
    ref = optrun.build(cfg)
    try:
        ref.optimize(LoggedObjective(path, None, {}, {}, fail=sc["fail"]), it, verbose=False)
        ref_raised = None
    except Refused as e:
        ref_raised = (type(e), e.args)
    hr = optrun.histories(ref)
    lines.append(fact("C25.parallel_raises", raised == ref_raised and (raised is None or raised == (type(refuse(raised[1][1])), refuse(raised[1][1]).args))))
    lines.append(fact("C25.parallel_histories", h["c"] == hr["c"] and len(h["x"]) == len(hr["x"]) and len(h["v"]) == len(hr["v"]) and all((a == b).all() for a, b in zip(h["x"], hr["x"]))))
    gc.collect()
    lines.append(fact("C25.parallel_workers_gone", children() == 0))
    # usable afterwards, with the same results as the serial one
    opt.reset()
    np.random.seed(5)
    opt.reset()
    a = opt.optimize(LoggedObjective(path, None, {}, {}), 3, n_processes=sc["workers"], verbose=False)
    np.random.seed(5)
    ref.reset()
    b = ref.optimize(LoggedObjective(path, None, {}, {}), 3, verbose=False)
    lines.append(fact("C25.parallel_usable", a[0] == b[0] and (a[1] == b[1]).all()))
    lines.append(fact("C25.parallel_workers_gone", children() == 0))
    return lines


def share(cpus):
    try:
        os.sched_setaffinity(0, cpus)
    except OSError:  # refused: the race is only less likely to show
        pass


class QuickObjective:
    """Answers, or raises, before the thread that sent the task looks up."""

    def __init__(self, fail):
        self.fail = fail

    def __call__(self, x):
        if self.fail and len(x):
            raise refuse(x.shape[1])
        return (x ** 2).sum(axis=1)


def run_again(sc):
    """Many short runs in a row: whether the last reference to a pool is
    dropped by its own thread is a race that few runs do not show."""
    import gc

    import optrun

    cfg, sid = sc["cfg"], sc["sid"]
    clause = "C25.parallel_workers_gone" if sc["fail"] else "C13.workers_gone"
    lines = []
    np.random.seed(cfg["seed"] % 2 ** 32)
    opt = optrun.build(cfg)
    # threads and workers that share a processor overtake each other
    cpus = os.sched_getaffinity(0)
    share({sorted(cpus)[sid % len(cpus)]})
    for _ in range(sc["rounds"]):
        kept = None  # also while the caller holds on to the exception
        try:
            opt.optimize(QuickObjective(sc["fail"]), 3, n_processes=sc["workers"], verbose=False)
        except Refused as e:
            kept = e
        gc.collect()
        ok = children() == 0 and (kept is not None) == sc["fail"]
        lines.append(dict(sid=sid, k="fact", clause=clause, ok=ok))
        if not ok:
            break
        opt.reset()
    share(cpus)
    return lines


def again_scenarios(thor, seed, fail):
    rng = np.random.default_rng([seed, 26 if fail else 14])
    sc = []
    for i, (name, w) in enumerate([("gb", 1), ("lb", 1), ("gstar", 2), ("bin", 1)] * (3 if thor else 1)):
        c = hist.opt_cfg(name, 3, 2)
        c["seed"] = int(rng.integers(1 << 30))
        sid = 700000 + i
        c["sid"] = sid
        sc.append(dict(kind="pool_again", cfg=c, workers=w, fail=fail, rounds=60 if thor else 30, sid=sid, seed=i))
    return sc


def orders(V, scratch, n, w):
    cases, r = vlib.generate("Pool", scratch, dict(N=n, W=w, Iters=1, CanFail="FALSE", Fault='"none"'), invariants=["SameAsSerial", "EachOnce", "NobodyLeft", "Emit"])
    V.add_mc("Pool/orders-%d-%d" % (n, w), r)
    seen = []
    for c in cases:
        if c["order"] not in seen:
            seen.append(c["order"])
    return seen


def scenarios(V, scratch, thor, seed):
    rng = np.random.default_rng([seed, 13])
    sc = []
    rint = lambda: int(rng.integers(1 << 30))  # noqa: E731

    def cfg(name, n, d=2, init=False):
        c = hist.opt_cfg(name, n, d)
        if name == "gpyr":
            c["d"] = d = max(2, d)
        c["seed"] = rint()
        if init:
            if name == "bin":
                c["init_pos"] = rng.integers(0, 2, size=(n, d)).tolist()
                c["init_int"] = True
            else:
                c["init_pos"] = rng.normal(size=(n, d)).tolist()
        return c

    # every order of completion the specification allows
    for n, w in ((5, 3), (4, 2), (2, 3)) + (((6, 4),) if thor else ()):
        for o in orders(V, scratch, n, w):
            delays = [0.0] * w
            for rank, k in enumerate(o):
                delays[k - 1] = 0.06 * rank
            sc.append(dict(kind="pool", cfg=cfg("gb", n, init=True), workers=w, delays=delays, runs=[2], kwargs={}))
    names = list(hist.OPTS)
    for i in range(160 if thor else 26):
        name = names[i % len(names)]
        n = int(rng.choice([2, 3, 4, 7, 10]))
        w = int(rng.choice([1, 2, 3, 4, 6, n + 1, n + 3]))
        d = int(rng.integers(1, 4))
        sc.append(dict(kind="pool", cfg=cfg(name, n, d, init=bool(rng.random() < 0.3)), workers=w, sleep=0.01 if i % 3 == 0 else 0.0,
                       runs=[int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 3)))], kwargs={} if i % 2 else {"a": 1, "b": "z"}))
    for i, s in enumerate(sc):
        s["sid"] = 500000 + i
        s["seed"] = i
        s["cfg"]["sid"] = s["sid"]
    return sc


def fail_scenarios(thor, seed):
    rng = np.random.default_rng([seed, 25])
    sc = []
    for i in range(30 if thor else 8):
        name = list(hist.OPTS)[i % 8]
        c = hist.opt_cfg(name, 5, 2)
        c["seed"] = int(rng.integers(1 << 30))
        sc.append(dict(kind="pool_fail", cfg=c, workers=int(rng.choice([1, 2, 3, 7])), fail=float(rng.choice([0.0, 1.2, 1.9, 2.5])), sid=600000 + i, seed=i))
        c["sid"] = 600000 + i
    return sc


def design(V, scratch, fail):
    thor = vlib.tier() == "thorough"
    inv = ["SameAsSerial", "EachOnce", "NobodyLeft", "OnlyCompleted"]
    for c in [dict(N=5, W=3, Iters=2, CanFail="TRUE" if fail else "FALSE"), dict(N=2, W=4, Iters=2, CanFail="FALSE")] + \
            ([dict(N=7, W=5, Iters=3, CanFail="TRUE")] if thor else []):
        V.add_mc("Pool", vlib.model_check("Pool", scratch, dict(c, Fault='"none"'), inv, ["Ends"] if c["CanFail"] == "FALSE" else [], timeout=1500))
    planted(V, scratch, "Pool", dict(N=5, W=3, Iters=2, CanFail="TRUE"), inv, ["arrival", "hurry", "again", "leak"])
    for w in (1, 2, 3) + ((5,) if thor else ()):
        V.add_mc("PoolEnd", vlib.model_check("PoolEnd", scratch, dict(W=w, Owned="TRUE"), ["NobodyLeft"], ["AllGone"]))
    # a pool that nobody waits for: the specification shows how workers stay
    r = vlib.tlc("PoolEnd", vlib.cfg_text("Spec", dict(W=2, Owned="FALSE"), [], ["AllGone"]), scratch)
    if r.ok or "AllGone" not in r.out and "emporal" not in r.out:
        raise vlib.Machinery("PoolEnd holds without an owner")
