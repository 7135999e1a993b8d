"""Reporters and the log."""
import io
import logging
import os
import pprint
import re
import sys
import tempfile

import numpy as np

import vlib
from checks.common import Background, drive

KEEP_LOGGING = True
HEAD = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d[,.]\d+ - (\S+) - (\w+|Level \d+) - (.*)$", re.S)
BUILDS = ["gb", "lb", "bin", "top", "handler", "swarm"]
KINDS = ["path", "loud", "quiet", "console"]
TEXTS = ["plain", "größer → ∞", "100 % of it", "a - b - INFO - c", "", "{'w': 0.9}", "x" * 300]


def run(sc):
    import yaml
    import pyswarms                       # noqa: F401  brings its own configuration
    from pyswarms.utils.reporter.reporter import Reporter

    sid, out = sc["sid"], []
    d = tempfile.mkdtemp(dir=os.getcwd())
    was = os.getcwd(), sys.stderr, sys.stdout, os.environ.pop("LOG_CFG", None), logging.root.level, logging.root.handlers[:]
    err, std = io.StringIO(), io.StringIO()
    tok = {}

    def t(s):
        return tok.setdefault(s, len(tok) + 1)

    files = {p: os.path.join(d, p + ".log") for p in sc["paths"]}
    files["report"] = os.path.join(d, "report.log")
    mark = [0, 0]       # run messages are told by what they say

    def records(text):
        recs, cur = [], None
        for ln in text.split("\n"):
            m = HEAD.match(ln)
            if m:
                cur = [m.group(3), getattr(logging, m.group(2), None) or int(m.group(2).split()[-1]), m.group(1)]
                recs.append(cur)
            elif cur is not None and ln:
                cur[0] += "\n" + ln
            elif ln.strip():
                recs.append([ln, -1, "?"])
        return [[t(a), b, t(c)] for a, b, c in recs]

    def content(p):
        s = ""
        for i in range(25, -1, -1):     # what has been moved on is still there
            q = files[p] + (".%d" % i if i else "")
            if os.path.exists(q):
                s += open(q, encoding="utf8").read()
        return records(s)

    def state():
        return dict(files={p: content(p) for p in files}, console=records(re.sub(r"\r[^\n]*?(?=\d{4}-\d\d-\d\d |\n|$)", "", err.getvalue())))

    def config(kind, target):
        """The configuration file of the user."""
        path = os.path.join(d, "%s-%s.yaml" % (kind, target))
        f = dict(path=("INFO", "INFO", "INFO"), loud=("DEBUG", "WARNING", "DEBUG"), quiet=("INFO", None, "WARNING"), console=(None, "DEBUG", "INFO"))[kind]
        c = dict(version=1, disable_existing_loggers=False, handlers={},
                 formatters=dict(s=dict(format="%(asctime)s - %(name)s - %(levelname)s - %(message)s")), loggers={"": dict(level=f[2], handlers=[])})
        if f[0]:
            c["handlers"]["f"] = {"class": "logging.FileHandler", "level": f[0], "formatter": "s", "filename": files[target], "encoding": "utf8"}
        if f[1]:
            c["handlers"]["c"] = {"class": "logging.StreamHandler", "level": f[1], "formatter": "s"}
        c["loggers"][""]["handlers"] = sorted(c["handlers"])
        with open(path, "w") as g:
            yaml.safe_dump(c, g)
        return path

    loggers = []
    try:
        os.chdir(d)
        sys.stderr, sys.stdout = err, std
        for j, own in enumerate([0, 0, logging.WARNING, logging.DEBUG]):
            lg = logging.getLogger("app%d.s%d.part" % (j, sid))
            lg.setLevel(own)
            loggers.append((lg, own))
        opts = [build(q, d) for q in ("gb", "lb")]
        for fn in os.listdir(d):
            if fn.startswith("report.log"):
                os.truncate(fn, 0)
        out.append(dict(sid=sid, k="begin", **state()))
        err.truncate(0), err.seek(0)
        reps, num, runnable = [], 0, False
        for op in sc["script"]:
            if op[0] == "new":
                e = op[1]
                kw = {}
                if e.get("log_path"):
                    kw["log_path"] = files[e["log_path"]]
                if e["given"] != "none":
                    kw["config_path"] = config(e["given"], e["target"]) if e["given"] != "missing" else os.path.join(d, "nothing.yaml")
                if e["env"] != "none":
                    os.environ["LOG_CFG"] = config(e["env"], e["envtarget"]) if e["env"] != "missing" else os.path.join(d, "nowhere.yaml")
                lg = None
                if e["logger"] >= 0:
                    lg = loggers[e["logger"]]
                    kw["logger"] = lg[0]
                r = Reporter(**kw)
                os.environ.pop("LOG_CFG", None)
                reps.append((r, lg[1] if lg else 0, lg[0].name if lg else None))
                runnable = "loud" not in (e["given"], e["env"])
                out.append(dict(sid=sid, k="new", given=e["given"], env=e["env"], target=e.get("target", ""), envtarget=e.get("envtarget", ""),
                                path=e.get("log_path") or "report", **state()))
            elif op[0] == "build":
                build(op[1], d)
                runnable = False
                out.append(dict(sid=sid, k="build", **state()))
            elif op[0] == "send" and reps:
                r, own, name = reps[op[1] % len(reps)]
                lvl, num = op[2], num + 1
                text, args = "m%d.%d %s" % (sid, num, op[3] * (op[4] if len(op) > 4 else 1)), ()
                if lvl == 20 and num % 3 == 0:
                    r.log(text)
                elif num % 4 == 1:
                    text, args = text.replace("%", "%%") + " %d of %s", (num, "all")
                    r.log(text, lvl, *args)
                else:
                    r.log(text, lvl=lvl)
                text = text % args if args else text
                out.append(dict(sid=sid, k="send", msg=t(text), lvl=lvl, own=own, name=t(name or r.logger.name), **state()))
            elif op[0] == "run" and runnable:
                st = state()
                o, it, verbose = opts[op[1]], op[2], op[3]
                c, p = o.optimize(lambda x: (x ** 2).sum(axis=1), it, verbose=verbose)
                shown = std.getvalue()
                now = state()
                say, text = {v: k for k, v in tok.items()}, []
                # the parameters first, then the result
                for q, part in list(now["files"].items()) + [("", now["console"])]:
                    was_ = st["files"][q] if q else st["console"]
                    for i, rec in enumerate(part[len(was_):]):
                        s = say[rec[0]]
                        text.append(s)
                        good = str(it) in s if i == 0 else ("%s" % c)[:10] in s
                        rec[0], rec[2] = (t("start") if i == 0 else t("end")) if good else rec[0], t("run")
                out.append(dict(sid=sid, k="run", verbose=verbose, start=t("start"), end=t("end"), name=t("run"), **now))
                for q, part in now["files"].items():
                    pass
                # from here on the files are read again, with the texts as they are
                out.append(dict(sid=sid, k="begin2", **state()))
            elif op[0] == "print" and reps:
                r = reps[op[1] % len(reps)][0]
                msg = op[2]
                at = len(std.getvalue())
                if op[4] == 0:
                    r.print(msg, op[3])
                else:
                    r.print(msg, op[3], op[4]) if op[1] % 2 else r.print(msg, op[3], threshold=op[4])
                got = std.getvalue()[at:]
                out.append(dict(sid=sid, k="print", verbosity=op[3], threshold=op[4], msg=t(pprint.pformat(msg)), shown=[t(got[:-1])] if got else [], **state()))
            elif op[0] == "bar" and reps:
                r = reps[op[1] % len(reps)][0]
                at, ys, shown = len(err.getvalue()), [], []
                for i in r.pbar(op[2], desc=op[3]):
                    ys.append(i)
                    r.hook(best="v%03d" % (100 * op[1] + i))
                    shown.append(100 * op[1] + i)
                got = err.getvalue()[at:]
                pf = []
                for v in re.findall(r"best=v(\d+)", got):
                    if not pf or pf[-1] != int(v):
                        pf.append(int(v))
                out.append(dict(sid=sid, k="bar", iters=op[2], yields=ys, postfix=pf, shown=shown, **state()))
                out.append(dict(sid=sid, k="fact", clause="C29.bar_text", ok=op[3] in got and "%d/%d" % (op[2], op[2]) in got))
        if sc.get("custom"):
            class P:
                got = []

                def pprint(self, m):
                    self.got.append(m)
            p = P()
            r = Reporter(printer=p, log_path=files[sc["paths"][0]])
            r.print("hello", 2, 1), r.print("not", 1, 1), r.print("nor", 0)
            out.append(dict(sid=sid, k="fact", clause="C29.own_printer", ok=p.got == ["hello"]))
            a, b = Reporter(log_path=files[sc["paths"][0]]), Reporter(log_path=files[sc["paths"][-1]])
            out.append(dict(sid=sid, k="fact", clause="C29.own_path", ok=(a.log_path, b.log_path) == (files[sc["paths"][0]], files[sc["paths"][-1]])))
    finally:
        os.chdir(was[0])
        sys.stderr, sys.stdout = was[1], was[2]
        os.environ.pop("LOG_CFG", None)
        for h in logging.root.handlers[:]:
            logging.root.removeHandler(h)
            h.close()
        logging.root.setLevel(was[4])
        for lg, _ in loggers:
            lg.setLevel(0)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return out


def build(what, d):
    import pyswarms as ps
    import pyswarms.backend as P
    from pyswarms.backend.handlers import BoundaryHandler, VelocityHandler

    o = dict(c1=0.5, c2=0.3, w=0.9, k=2, p=2)
    if what == "gb":
        return ps.single.GlobalBestPSO(4, 2, o)
    if what == "lb":
        return ps.single.LocalBestPSO(4, 2, o)
    if what == "bin":
        return ps.discrete.BinaryPSO(4, 2, o)
    if what == "top":
        return P.topology.Ring()
    if what == "handler":
        return BoundaryHandler("periodic"), VelocityHandler("invert")
    return P.create_swarm(3, 2)


def reporter(rng, paths, kind=None, path=None):
    e = dict(given="none", env="none", logger=int(rng.integers(-1, 4)))
    kind = kind or ["path", "path", "loud", "quiet", "console", "missing", "none"][int(rng.integers(7))]
    path = path or paths[int(rng.integers(len(paths)))]
    e["log_path"] = path if rng.random() < 0.5 else ""
    how = rng.random()
    if kind == "path" and how < 0.5:
        e["log_path"] = path
    elif kind == "none":
        pass
    elif how < 0.8:
        e["given"], e["target"] = kind, path
        if rng.random() < 0.3:      # and another one in the environment, which does not count
            e["env"], e["envtarget"] = KINDS[int(rng.integers(4))], paths[int(rng.integers(len(paths)))]
    else:
        e["env"], e["envtarget"] = kind, path
    e.setdefault("target", ""), e.setdefault("envtarget", "")
    return ["new", e]


def scenarios(V, scratch, thor, seed):
    rng = np.random.default_rng([seed, 29])
    cases = []
    for kinds, n in (("{\"path\"}", 5 if thor else 4), ("{\"path\", \"loud\", \"quiet\", \"console\"}", 4 if thor else 3)):
        got, r = vlib.generate("Log", scratch, dict(Kinds=kinds, Levels="{10, 20, 30}", MaxOps=n, Fault='"none"'), invariants=["Emit"])
        V.add_mc("Log/scripts", r)
        cases += got
    take = rng.choice(len(cases), size=min(len(cases), 4000 if thor else 300), replace=False)
    sc = []
    for j in take:
        script = []
        for op in cases[j]:
            if op[0] == "new":
                script.append(reporter(rng, ["a", "b"], op[1], op[2]))
                script[-1][1]["logger"] = [0, 2][int(rng.integers(2))]
            else:
                # the text of a message is drawn, the reporter is the last or an earlier one
                script.append(["send", int(rng.integers(8)), op[1], TEXTS[int(rng.integers(len(TEXTS)))]])
        sc.append(dict(paths=["a", "b"], script=script))
    for j in range(1500 if thor else 150):
        paths = ["a", "b", "c"][: int(rng.integers(1, 4))]
        script = [reporter(rng, paths)]
        for _ in range(int(rng.integers(3, 14))):
            u = rng.random()
            if u < 0.22:
                script.append(reporter(rng, paths))
            elif u < 0.3:
                script.append(["build", BUILDS[int(rng.integers(len(BUILDS)))]])
            elif u < 0.38:
                script.append(["run", int(rng.integers(2)), int(rng.integers(1, 6)), bool(rng.random() < 0.6)])
            elif u < 0.46:
                script.append(["print", int(rng.integers(8)), ["text", dict(c1=0.5, w=0.9), [1.0, 2.5], 7][int(rng.integers(4))], int(rng.integers(0, 4)), int(rng.integers(0, 4))])
            elif u < 0.52:
                script.append(["bar", int(rng.integers(8)), int(rng.integers(1, 12)), ["run", "Büro", "a b"][int(rng.integers(3))]])
            else:
                script.append(["send", int(rng.integers(8)), int(rng.choice([10, 15, 20, 25, 30, 40, 50])), TEXTS[int(rng.integers(len(TEXTS)))]])
        sc.append(dict(paths=paths, script=script, custom=bool(j % 3 == 0)))
    for j in range(3 if thor else 1):      # more than fits into one file
        script = [["new", dict(given="none", env="none", logger=0, log_path="a", target="", envtarget="")]]
        script += [["send", 0, 30, "y", 1500000]] * 10
        sc.append(dict(paths=["a"], script=script))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    base = dict(Kinds='{"path", "loud", "quiet", "console"}', Levels="{10, 20, 30}", MaxOps=5 if thor else 4, Fault='"none"')
    V.add_mc("Log", vlib.model_check("Log", scratch, base, ["InOrderOnce"], ["NothingLost"], workers=2, timeout=3000))
    for fault in ("additive", "first", "truncate", "mute"):
        r = vlib.tlc("Log", vlib.cfg_text("Spec", dict(base, MaxOps=4, Fault='"%s"' % fault), ["InOrderOnce"], ["NothingLost"]), scratch, workers=2)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + fault)
        V.add_mc("Log/planted-" + fault, r)


def check(V, scratch):
    thor, seed = vlib.tier() == "thorough", vlib.seed()
    bg = Background(design, V, scratch)
    drive(V, scenarios(V, scratch, thor, seed), scratch, "LogTrace", total=3000, vtimeout=3000)
    bg.join()
