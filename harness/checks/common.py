"""What the checks share."""
import threading

import vlib


class Background:
    """Runs a function in a thread; join() returns its value or raises."""

    def __init__(self, fn, *a, **k):
        self.val = self.err = None

        def go():
            try:
                self.val = fn(*a, **k)
            except BaseException as e:  # handed to the main thread
                self.err = e

        self.t = threading.Thread(target=go, daemon=True)
        self.t.start()

    def join(self):
        self.t.join()
        if self.err:
            raise self.err
        return self.val


def planted(V, scratch, module, consts, invariants, faults, properties=()):
    """Every mistake planted in a design must break one of its properties."""
    for f in faults:
        r = vlib.tlc(module, vlib.cfg_text("Spec", dict(consts, Fault='"%s"' % f), list(invariants), list(properties)), scratch, workers=2)
        if not any(q in r.out for q in ("is violated", "properties were violated")):
            raise vlib.Machinery("the properties of %s do not see the planted fault %s" % (module, f))
        V.add_mc("%s/planted-%s" % (module, f), r)


def slim(sc):
    """A scenario as it goes into replay files."""
    import json

    s = json.dumps(sc, default=str)
    return sc if len(s) < 20000 else {"abridged": s[:20000]}


def drive(V, scenarios, scratch, module=None, shards=4, workers=6, constants=None, per_scenario=60, total=700,
          vtimeout=700, keep=None, others=()):
    """Runs the scenarios on the code, and validates what they recorded.

    Only clauses of the property itself (and of `others`, True: all) count; a scenario
    that raises, hangs or dies counts whatever the property."""
    pid = V.pid
    res = vlib.run_scenarios(pid, scenarios, scratch, workers=workers, per_scenario=per_scenario, total=total)
    lines, owner, traces, replays = [], [], 0, 0
    for sc, r in zip(scenarios, res):
        if "error" in r:
            V.violation("%s.%s" % (pid, r["kind"]), r["error"][-700:], slim(sc))
            continue
        for clause, detail in r.get("bad", []):
            V.violation(clause, detail, slim(sc))
        replays += r.get("count", 0)
        ls = r.get("lines") or []
        if ls:
            traces += 1
        lines += ls
        owner += [sc] * len(ls)
    V.cov["traces_validated_against_impl"] += traces + replays
    if replays:
        V.cov["spec_behaviours_replayed"] = V.cov.get("spec_behaviours_replayed", 0) + replays
    V.cov["trace_lines"] = V.cov.get("trace_lines", 0) + len(lines)
    V.cov["scenarios"] = V.cov.get("scenarios", 0) + len(scenarios)
    if len(V.cov["samples"]) < 3:
        V.cov["samples"] += [slim(s) for s in scenarios[:2]]
        if lines:
            V.cov["samples"].append({"recorded": lines[0]})
    if lines:
        fails, states, wall = vlib.validate(module, lines, scratch, constants=constants, shards=shards, timeout=vtimeout)
        V.cov["states"] += states
        V.cov["transitions"] += len(lines)
        V.cov["validation_wall_s"] = round(V.cov.get("validation_wall_s", 0) + wall, 1)
        for i, clause, detail in fails:
            if clause == vlib.UNTRACEABLE or clause.startswith(pid + ".") or (others is True or clause in others):
                V.violation(clause, detail or "line %d" % i, slim(owner[i]), [lines[i]])
    return res, lines


def near_ranks(values, rel=1e-9, tiny=1e-12):
    """Ranks of values (NaN: 0) in which neighbours closer than rounding share one."""
    import math

    v = [float(x) for x in values]
    order = sorted((i for i in range(len(v)) if v[i] == v[i]), key=lambda i: v[i])
    out, rank, last = [0] * len(v), 0, None
    for i in order:
        if last is None or not (v[i] == last or (math.isfinite(v[i]) and v[i] - last <= tiny + rel * abs(v[i]))):
            rank += 1
        last = v[i]
        out[i] = rank
    return out
