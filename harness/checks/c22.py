"""Plots: what matplotlib is given and what every frame of an animation holds."""
import os

import numpy as np

import vlib
from checks import pool
from checks.common import Background, drive, near_ranks

Q = 2 ** 16


def run(sc):
    return {"animate": animate, "history": history, "line": line, "again": again}[sc["kind"]](sc)


class Tok(dict):
    def __call__(self, a):
        a = np.ascontiguousarray(np.asarray(a, dtype=float) + 0.0)
        return self.setdefault((a.shape, a.tobytes()), len(self) + 1)


# picklable objectives
def bowl(x):
    x = np.asarray(x, dtype=float)
    return (x ** 2).sum(axis=1) + 0.5 * x[:, 0]


def slant(x):
    x = np.asarray(x, dtype=float)
    return 3.0 * x[:, 0] - x[:, 1] ** 3


def steps(x):
    x = np.asarray(x, dtype=float)
    return np.floor(x[:, 0] * 4) + np.floor(x[:, 1] * 8) * 100


FUNCS = dict(bowl=bowl, slant=slant, steps=steps)


def func_of(name):
    if name in FUNCS:
        return FUNCS[name]
    from pyswarms.utils.functions import single_obj as fx

    return getattr(fx, name)


def recorded(sc):
    """A history: of a real run, or made up."""
    rng = np.random.default_rng(sc["seed"])
    T, n = sc["T"], sc["n"]
    if sc["from"] == "run":
        import pyswarms as ps

        opt = ps.single.GlobalBestPSO(n, 2, dict(c1=0.5, c2=0.3, w=0.9))
        opt.optimize(bowl, T, verbose=False)
        return opt.pos_history
    x = np.round(rng.normal(size=(T, n, 2)), 3)
    if sc["from"] == "ints":
        return rng.integers(-9, 10, size=(T, n, 2))
    if sc["from"] == "repeat" and T > 2:
        x[1] = x[0]
    return x if sc["from"] == "array" else [np.array(a) for a in x]


def shown(fig, three, tok):
    """Tokens of the offsets of all scatter plots in the figure."""
    from matplotlib.collections import PathCollection

    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if not isinstance(c, PathCollection) or not c.get_visible():
                continue
            if hasattr(c, "_offsets3d"):
                if three:
                    out.append(tok(np.ma.filled(np.ma.array(c._offsets3d), np.nan).T if not isinstance(c._offsets3d, tuple)
                                   else np.array([np.ma.filled(np.ma.asarray(q, dtype=float), np.nan) for q in c._offsets3d]).T))
            elif not three:
                out.append(tok(np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)))
    return out


def animate(sc):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.animation import AbstractMovieWriter
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D
    from pyswarms.utils import plotters
    from pyswarms.utils.plotters import formatters

    sid, out, tok = sc["sid"], [], Tok()
    three = sc["plot"] == "surface"
    hist = recorded(sc)
    if three:
        hist = formatters.Mesher(func=func_of(sc["func"]) if sc["func"] in FUNCS else bowl).compute_history_3d(hist)
    before = [np.array(h) for h in hist]
    meshes = []

    def spy(cls, name):
        old = getattr(cls, name)

        def new(self, *a, **k):
            meshes.append([np.array(q, dtype=float) for q in (list(a) + [k.get(w) for w in ("X", "Y", "Z") if w in k])[:3]])
            return old(self, *a, **k)

        setattr(cls, name, new)
        return cls, name, old

    spies = [spy(Axes, "contour"), spy(Axes, "contourf"), spy(Axes3D, "plot_surface")]
    kw = {}
    try:
        if sc.get("canvas"):
            kw["canvas"] = plt.subplots(1, 1, figsize=(2, 2))
        else:
            kw["designer"] = formatters.Designer(figsize=(2, 2), limits=[(-2, 2), (-3, 2.5), (-5, 5)], label=["a", "b", "c"])
        if sc.get("title"):
            kw["title"] = "The %d" % sc["seed"]
        m = sc.get("mesh")
        if m:
            kw["mesher"] = formatters.Mesher(func=func_of(sc["func"]), delta=m["delta"], limits=[tuple(m["x"]), tuple(m["y"])], levels=[0.0, 1.0, 2.0])
            if sc.get("nproc"):
                kw["n_processes"] = sc["nproc"]
        if sc.get("mark"):
            kw["mark"] = tuple(sc["mark"])
        if sc.get("animator"):
            kw["animator"] = formatters.Animator(interval=20, repeat=bool(sc["animator"] % 2))
        anim = (plotters.plot_surface if three else plotters.plot_contour)(hist, **kw)
        frames, fig = [], None

        class Writer(AbstractMovieWriter):
            def setup(self, fig, outfile, dpi=None):
                self.f = fig

            def grab_frame(self, **k):
                frames.append(shown(self.f, three, tok))

            def finish(self):
                pass

        if sc.get("canvas"):
            fig = kw["canvas"][0]
        else:
            fig = plt.figure(plt.get_fignums()[-1])
        anim.save(os.path.join(os.getcwd(), "nothing.mp4"), writer=Writer())
    finally:
        for cls, name, old in spies:
            setattr(cls, name, old)
        plt.close("all")
    axes = [a for a in fig.axes if a.collections and hasattr(a, "get_zlim") == three]
    lims = [(-2, 2), (-3, 2.5), (-5, 5)] if "designer" in kw else [(-1, 1)] * 3
    labels = ["a", "b", "c"] if "designer" in kw else ["x-axis", "y-axis", "z-axis"]
    d = 3 if three else 2
    out.append(dict(sid=sid, k="fact", clause="C22.limits", ok=any(
        all(np.allclose(getattr(a, "get_%slim" % "xyz"[i])(), lims[i]) for i in range(d)) for a in axes)))
    out.append(dict(sid=sid, k="fact", clause="C22.labels", ok=any(
        all(getattr(a, "get_%slabel" % "xyz"[i])() == labels[i] for i in range(d)) and a.get_title() == kw.get("title", "Trajectory") for a in axes)))
    if sc.get("mark"):
        t = tok(np.array([sc["mark"]]))
        out.append(dict(sid=sid, k="fact", clause="C22.mark", ok=bool(all(t in f for f in frames))))
    belongs = len(fig.axes) > 0 and any(a.collections for a in fig.axes)
    out.append(dict(sid=sid, k="frames", pos=[tok(h) for h in before], frames=frames, belongs=bool(belongs)))
    out.append(dict(sid=sid, k="fact", clause="C22.history_unchanged", ok=bool(len(hist) == len(before) and all(np.array_equal(a, b) for a, b in zip(hist, before)))))
    if m:
        out.append(dict(sid=sid, k="fact", clause="C22.mesh_drawn", ok=len(meshes) == 1 and len(meshes[0]) == 3))
        if not out[-1]["ok"]:
            return out
        X, Y, Z = meshes[0]
        if X.ndim == 1:
            X, Y = np.meshgrid(X, Y)
        ok = X.shape == Y.shape == Z.shape and bool((X == X[0]).all() and (Y.T == Y[:, 0]).all())
        out.append(dict(sid=sid, k="fact", clause="C22.mesh_grid", ok=ok))
        if not ok:
            return out
        f = func_of(sc["func"])
        want = np.array([f(np.array([[a, b]]))[0] for a, b in zip(X.ravel(), Y.ravel())])
        rk = near_ranks(np.concatenate([Z.ravel(), want]))

        def q(v):
            return int(round(max(-3e4, min(3e4, float(v))) * Q))

        out.append(dict(sid=sid, k="mesh", x=[q(v) for v in X[0]], y=[q(v) for v in Y[:, 0]], xlo=q(m["x"][0]), xhi=q(m["x"][1]), ylo=q(m["y"][0]), yhi=q(m["y"][1]),
                        delta=q(m["delta"]), z=rk[:Z.size], want=rk[Z.size:]))
    return out


def history(sc):
    from pyswarms.utils.plotters.formatters import Mesher

    sid, tok = sc["sid"], Tok()
    hist = recorded(sc)
    before = [np.array(h) for h in hist]
    f = func_of(sc["func"])
    got = np.asarray(Mesher(func=f).compute_history_3d(hist, **({"n_processes": sc["nproc"]} if sc.get("nproc") else {})))
    T, n = sc["T"], sc["n"]
    gone = pool.children() == 0
    out = [dict(sid=sid, k="fact", clause="C22.workers_gone", ok=gone),
           dict(sid=sid, k="fact", clause="C22.history_shape", ok=got.shape == (T, n, 3)),
           dict(sid=sid, k="fact", clause="C22.history_unchanged", ok=bool(all(np.array_equal(a, b) for a, b in zip(hist, before))))]
    if got.shape == (T, n, 3):
        want = np.array([[f(h[i:i + 1])[0] for i in range(n)] for h in before])
        rk = near_ranks(np.concatenate([got[..., 2].ravel(), want.ravel()]))
        out.append(dict(sid=sid, k="history", pos=[tok(p) for h in before for p in h], shown=[tok(p[:2]) for h in got for p in h],
                        val=rk[:want.size], want=rk[want.size:]))
    return out


def again(sc):
    """Many short calls in a row on one processor, see pool.run_again."""
    import gc

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pyswarms.utils.plotters import formatters, plotters

    rng = np.random.default_rng(sc["seed"])
    cpus = os.sched_getaffinity(0)
    pool.share({sorted(cpus)[sc["sid"] % len(cpus)]})
    hist = rng.normal(size=(2, 3, 2))
    m = formatters.Mesher(func=func_of("bowl"), delta=0.5, limits=[(-1, 1), (-1, 1)], levels=[0.0, 1.0])
    ok = True
    for _ in range(sc["rounds"]):
        if sc["what"] == "history":
            m.compute_history_3d(hist, n_processes=sc["workers"])
        else:
            plotters.plot_contour(hist, mesher=m, canvas=plt.subplots(1, 1, figsize=(1, 1)), n_processes=sc["workers"])
            plt.close("all")
        gc.collect()
        ok = pool.children() == 0
        if not ok:
            break
    pool.share(cpus)
    return [dict(sid=sc["sid"], k="fact", clause="C22.workers_gone", ok=ok)]


def line(sc):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pyswarms.utils import plotters

    sid, vals = sc["sid"], {}
    rng = np.random.default_rng(sc["seed"])
    costs = [float(v) for v in np.sort(np.round(rng.normal(size=sc["T"]) * 100, 2))[::-1]]
    if sc["as"] == "array":
        costs = np.array(costs)
    kw = {}
    if sc.get("canvas"):
        kw["ax"] = plt.subplots(1, 1)[1]
    ax = plotters.plot_cost_history(costs, **kw)

    def r(v):
        return vals.setdefault(repr(float(v)), len(vals) + 1)

    out = [dict(sid=sid, k="line", costs=[r(v) for v in costs],
                lines=[dict(x=[int(v) for v in q.get_xdata()], y=[r(v) for v in q.get_ydata()]) for q in ax.lines]),
           dict(sid=sid, k="fact", clause="C22.given_axes", ok=bool("ax" not in kw or ax is kw["ax"])),
           dict(sid=sid, k="fact", clause="C22.axes_in_figure", ok=bool(ax in ax.figure.axes))]
    plt.close("all")
    return out


def scenarios(thor, seed):
    rng = np.random.default_rng([seed, 22])
    sc = []
    builtin = ["sphere", "rastrigin", "rosenbrock", "himmelblau", "ackley"]
    for j in range(600 if thor else 60):
        s = dict(kind="animate", plot=["contour", "surface"][j % 2], T=int(rng.integers(1, 9)), n=int(rng.integers(1, 6)),
                 func=["bowl", "slant", "steps"][int(rng.integers(3))])
        s["from"] = ["run", "array", "list", "repeat"][int(rng.integers(4))]
        s["canvas"] = bool(rng.random() < 0.4)
        s["title"] = bool(rng.random() < 0.5)
        if j % 20 == 0 or j % 20 == 1:
            s["T"] = int(rng.integers(101, 140))
        if rng.random() < 0.6:
            dx = float(rng.choice([0.25, 0.1, 0.5, 0.375]))
            a, b = float(rng.integers(-8, 8)) / 8, float(rng.integers(-8, 8)) / 8
            s["mesh"] = dict(delta=dx, x=[a, a + float(rng.integers(8, 24)) / 8], y=[b, b + float(rng.integers(8, 24)) / 8])
            if rng.random() < 0.4:
                s["func"] = builtin[int(rng.integers(len(builtin)))]
            if rng.random() < 0.3:
                s["nproc"] = int(rng.choice([1, 2, 3, 5]))
        if rng.random() < 0.3:
            s["mark"] = [[0.5, -0.25, 1.0], [0.0, 0.0, 0.0], np.round(rng.normal(size=3) * 6, 3).tolist()][int(rng.integers(3))][: 3 if s["plot"] == "surface" else 2]
        if rng.random() < 0.3:
            s["animator"] = int(rng.integers(1, 3))
        sc.append(s)
    for j in range(200 if thor else 40):
        s = dict(kind="history", T=int(rng.integers(1, 7)), n=int(rng.integers(1, 8)), func=["bowl", "slant", "steps", "sphere", "ackley"][int(rng.integers(5))])
        s["from"] = ["run", "array", "list", "ints"][int(rng.integers(4))]
        if s["func"] == "ackley":
            s["from"] = "run"
        if rng.random() < 0.35:
            s["nproc"] = int(rng.choice([1, 2, 3, 9]))
        sc.append(s)
    for j in range(12 if thor else 6):
        sc.append(dict(kind="again", what=["history", "mesh"][j % 2], workers=1 + j % 3, rounds=60 if j % 2 == 0 else 25))
    for j in range(60 if thor else 12):
        sc.append(dict(kind="line", T=int(rng.integers(1, 60) if j % 5 else rng.integers(250, 3000)), canvas=bool(j % 2), **{"as": ["list", "array"][j % 2]}))
    for i, s in enumerate(sc):
        s.update(sid=i, seed=int(rng.integers(1 << 30)))
    return sc


def design(V, scratch):
    thor = vlib.tier() == "thorough"
    base = dict(Iters=4 if thor else 3, Tokens="{1, 2, 3}", Lo=0, Hi=7, Delta=3, Workers=12 if thor else 10, Fault='"none"')
    inv = ["ShowsHistory", "Covers", "SameValues"]
    V.add_mc("Plot", vlib.model_check("Plot", scratch, base, inv, timeout=3000))
    for f in ("skip", "last", "front"):
        r = vlib.tlc("Plot", vlib.cfg_text("Spec", dict(base, Fault='"%s"' % f), inv), scratch)
        if "is violated" not in r.out:
            raise vlib.Machinery("planted fault not seen: " + f)
        V.add_mc("Plot/planted-" + f, r)


def check(V, scratch):
    bg = Background(design, V, scratch)
    drive(V, scenarios(vlib.tier() == "thorough", vlib.seed()), scratch, "PlotTrace", total=3000, vtimeout=3000)
    bg.join()
    V.assumptions += ["frames are read from matplotlib's own collections while it writes the animation; values are compared to ten digits"]
