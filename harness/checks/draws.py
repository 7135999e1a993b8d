"""Lines of DrawsTrace from draws u in [0, 1)."""
import numpy as np

U8 = [512] * 8
TRI = [128, 384, 640, 896, 896, 640, 384, 128]   # sum of two uniforms, bins of 1/4


def bins(u, B=8):
    return [int(v) for v in np.floor(np.clip(u, -1, 2) * B)]


def chunks(a, m=1500):
    return [a[i:i + m] for i in range(0, len(a), m)]


def uniform(sid, clause, u):
    return [dict(sid=sid, k="hist", clause=clause, b=bins(c), p=U8) for c in chunks(np.ravel(u)) if len(c) >= 200]


def triangle(sid, clause, s):
    return [dict(sid=sid, k="hist", clause=clause, b=bins(np.asarray(c) / 2), p=TRI) for c in chunks(np.ravel(s)) if len(c) >= 200]


def pairs(sid, clause, u, w, B=4):
    u, w = np.ravel(u), np.ravel(w)
    out = []
    for a, b in zip(chunks(u), chunks(w)):
        if len(a) >= 300:
            out.append(dict(sid=sid, k="pair", clause=clause, B=B, b=[list(q) for q in zip(bins(a, B), bins(b, B))]))
    return out


def distinct(sid, clause, u, slack=2):
    return [dict(sid=sid, k="distinct", clause=clause, slack=slack, v=[int(v) for v in np.floor(np.clip(c, -1, 1) * 2 ** 30)])
            for c in chunks(np.ravel(u), 1200)]


def unit_range(sid, clause, u):
    """in [0, 1), up to rounding"""
    return [dict(sid=sid, k="range", clause=clause, lo=-1, hi=2 ** 28, v=[int(v) for v in np.floor(np.clip(c, -2, 3) * 2 ** 28)])
            for c in chunks(np.ravel(u), 1200)]


def block(sid, clause, u):
    """All of it for an array of draws indexed [particle, dimension] or
    [time, particle, dimension], with neighbours along every axis."""
    u = np.asarray(u, dtype=float)
    out = uniform(sid, clause + "_uniform", u) + distinct(sid, clause + "_distinct", u) + unit_range(sid, clause + "_range", u)
    for ax in range(u.ndim):
        n = u.shape[ax]
        if n > 1:
            out += pairs(sid, clause + "_independent", np.take(u, range(n - 1), axis=ax), np.take(u, range(1, n), axis=ax))
    return out
