"""Fits move with their data."""
import itertools

import numpy as N
from attitude.orientation import PCAOrientation
from attitude.error.axes import sampling_axes

from ..engine import part_of, split, key64
from ..universe import GRID3, frame, layout, octa, rotz, spiral

BOUNDS = dict(
    quick="breadth-first search over all sequences of up to 2 of 26 transformations from 24 base clouds; each of 10 transformations from every 3-subset of {0,1,2}^3; the same subsets in 8 numeric types; all orders of 6 points",
    thorough="all sequences of up to 3 transformations; every transformation from every 3- and 4-subset of {0,1,2}^3; the same subsets in 8 numeric types; all orders of 7 points")
ASSUMPTIONS = ["direction-valued results are compared only where the eigenvalues they depend on are separated by 1%"]

I = N.eye(3)
OPS = {
    # name: (matrix, shift, repeats, permutation, (dtype, order))
    "shift": (I, (10., -20., 30.), 1, None, None),
    "shift-utm": (I, (500000.25, 4100000.5, 1500.125), 1, None, None),
    "shift-down": (I, (0, 0, -1000.), 1, None, None),
    "turn1": (rotz(1), None, 1, None, None),
    "turn30": (rotz(30), None, 1, None, None),
    "turn37": (rotz(37.3), None, 1, None, None),
    "turn90": (rotz(90), None, 1, None, None),
    "turn180": (rotz(180), None, 1, None, None),
    "turn270": (rotz(270), None, 1, None, None),
    "double": (2 * I, None, 1, None, None),
    "milli": (1e-3 * I, None, 1, None, None),
    "mega": (1e6 * I, None, 1, None, None),
    "third": (I / 3., None, 1, None, None),
    "nano": (1e-7 * I, None, 1, None, None),
    "mirror-x": (N.diag([-1., 1, 1]), None, 1, None, None),
    "mirror-y": (N.diag([1., -1, 1]), None, 1, None, None),
    "upside-down": (N.diag([1., 1, -1]), None, 1, None, None),
    "roll180": (N.diag([1., -1, -1]), None, 1, None, None),
    "point-reflect": (-I, None, 1, None, None),
    "twice": (I, None, 2, None, None),
    "five-times": (I, None, 5, None, None),
    "reverse": (I, None, 1, "rev", None),
    "cycle": (I, None, 1, "rot", None),
    "fortran": (I, None, 1, None, ("float64", "F")),
    "strided": (I, None, 1, "interleave", ("float64", "strided")),
    "readonly": (I, None, 1, None, ("float64", "readonly")),
}


def observe(arr):
    f = PCAOrientation(arr)
    return dict(axes=N.array(f.axes), s=N.array(f.singular_values), ev=N.array(f.eigenvalues), normal=N.array(f.normal),
                strike=f.strike_dip()[0], dip=f.strike_dip()[1], rake=f.rake(), err=N.array(f.angular_errors()),
                center=N.array(f.center), n=f.n, xv=f.explained_variance,
                samp=N.array(sampling_axes(f)), hyp=N.array(f.hyperbolic_axes))


def azdiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def compare(ctx, name, a, b, off):
    """a, b: observations before and after the transformation"""
    M, shift, rep, perm, lay = OPS[name]
    k = abs(N.linalg.det(M)) ** (1 / 3.)
    R = M / k
    L = max(a["s"][0], 1e-300)
    # relative rounding of coordinates that carry a large offset
    rt = 1e-9 + 40 * 2.3e-16 * off / L
    ctx.step()
    expect = M.dot(a["center"]) + (0 if shift is None else N.array(shift))
    ctx.close(b["center"], expect, "centre after " + name, tol=1e-12, scale=max(N.abs(expect).max(), off, L * k))
    ctx.close(b["s"], k * N.sqrt(rep) * a["s"], "singular values after " + name, tol=rt, scale=k * N.sqrt(rep) * L)
    ctx.require(b["n"] == rep * a["n"], "n")
    evf = k ** 2 * rep * (a["n"] - 1) / (rep * a["n"] - 1)
    ctx.close(b["ev"], evf * a["ev"], "eigenvalues after " + name, tol=2 * rt, scale=evf * a["ev"][0])
    ctx.close(b["xv"], a["xv"], "explained variance after " + name, tol=10 * rt)
    e = a["ev"] / a["ev"][0]
    gaps = [e[0] - e[1], min(e[0] - e[1], e[1] - e[2]), e[1] - e[2]]
    for i in range(3):
        if gaps[i] > 1e-2:
            v = R.dot(a["axes"][i])
            d = min(N.abs(v - b["axes"][i]).max(), N.abs(v + b["axes"][i]).max())
            ctx.require(d < 1e-7 + 100 * rt / gaps[i], "axis {} after {}: {} instead of {}", i, name, b["axes"][i], v)
    at = 1e-5 + 1e4 * rt
    if gaps[2] > 1e-2:
        nv = R.dot(a["normal"])
        if abs(nv[2]) < 1e-9:
            d = min(N.abs(nv - b["normal"]).max(), N.abs(nv + b["normal"]).max())
        else:
            d = N.abs((nv if nv[2] > 0 else -nv) - b["normal"]).max()
        ctx.require(d < 1e-7 + 100 * rt / gaps[2], "normal after {}", name)
        ctx.require(abs(a["dip"] - b["dip"]) < at / gaps[2], "dip {} became {} after {}", a["dip"], b["dip"], name)
        h = N.hypot(a["normal"][0], a["normal"][1])
        if h > 1e-3:
            st = strike_after(name, a["strike"])
            d = azdiff(b["strike"], st)
            if abs(a["dip"] - 90) < 1e-5:
                d = min(d, 180 - d)
            ctx.require(d < at / gaps[2] / h, "strike {} became {} instead of {} after {}", a["strike"], b["strike"], st % 360, name)
            if gaps[0] > 1e-2:
                ra, rb = min(a["rake"], 180 - a["rake"]), min(b["rake"], 180 - b["rake"])
                ctx.require(abs(ra - rb) < at / min(gaps) / h + 1e-4, "rake {} became {} after {}", a["rake"], b["rake"], name)
    # error statistics are scale free; they depend on the number of points
    if rep == 1 and a["n"] > 2:
        hf = k ** 2
        ctx.close(b["hyp"], hf * a["hyp"], "error axes after " + name, tol=20 * rt, scale=hf * max(N.abs(a["hyp"]).max(), a["ev"][0]))
        ctx.close(b["samp"], hf * a["samp"], "sampling error axes after " + name, tol=20 * rt, scale=hf * max(N.abs(a["samp"]).max(), a["ev"][0]))
        if a["hyp"].min() > 1e-6 * a["ev"][0]:
            ctx.close(b["err"], a["err"], "angular errors after " + name, tol=1e-4 + 1e6 * rt)


def strike_after(name, s):
    if name.startswith("turn"):
        return s + {"turn37": 37.3}.get(name, float(name[4:]) if name != "turn37" else 0)
    if name == "mirror-x":
        return 180 - s
    if name == "mirror-y":
        return -s
    if name == "upside-down":
        return s + 180
    if name == "roll180":
        # dip direction: down-dip vector (x,y,-z) -> (x,-y,z), so the new one is (-x,y,-z)
        return _from_dipvec(s, N.diag([1., -1, -1]))
    if name == "point-reflect":
        return s
    return s


def _from_dipvec(s, M):
    d = N.array([N.sin(N.radians(s + 90)), N.cos(N.radians(s + 90)), -1.0])
    v = M.dot(d)
    if v[2] > 0:
        v = -v
    return N.degrees(N.arctan2(v[0], v[1])) - 90


def apply(name, arr):
    M, shift, rep, perm, lay = OPS[name]
    p = N.array(arr).dot(M.T)
    if shift is not None:
        p = p + N.array(shift)
    if rep > 1:
        p = N.tile(p, (rep, 1))
    dt, od = lay or ("float64", "C")
    return layout(p, dt, od, perm or "id")


def bases():
    out = []
    fr = [(0, 0, 0), (20, 30, 40), (90, 90, 10), (200, 75, 100), (310, 3, 60), (45, 45, 0), (340, 89, 170), (150, 60, 95)]
    for i, f in enumerate(fr):
        for j, (sh, l, n) in enumerate([("octa", (5, 2, .3), 7), ("spiral", (50, 20, 3), 30), ("octa", (1, .7, .05), 60)]):
            out.append((sh, l, n, f))
    return out


def make(b):
    sh, l, n, f = b
    loc = octa(l, n)[0] if sh == "octa" else spiral(n, l)
    return loc.dot(frame(*f))


def search(ctx, base, depth):
    """BFS over transformation histories; the relation is checked on every edge"""
    arr0 = make(base)
    frontier = [((), arr0, observe(arr0), N.abs(arr0).max())]
    seen = {key64(N.round(arr0, 9).tobytes())}
    ctx.state((base, ()), "base")
    for d in range(depth):
        nxt = []
        for hist, arr, obs, off in frontier:
            for name in OPS:
                h = hist + (name,)
                with ctx.case(dict(base=base, history=h)):
                    a2 = apply(name, arr)
                    o2 = observe(a2)
                    M, shift = OPS[name][:2]
                    k = abs(N.linalg.det(M)) ** (1 / 3.)
                    off2 = max(off * k, N.abs(a2).max())
                    compare(ctx, name, obs, o2, off2 / k)
                    ctx.depth(d + 1)
                    key = key64(a2.tobytes() + str(a2.flags["C_CONTIGUOUS"]).encode())
                    if key not in seen:
                        seen.add(key)
                        ctx.state((base, h), name)
                        nxt.append((h, a2, o2, off2))
        frontier = nxt


TYPES = ["int64", "int32", "int16", "uint8", "float32", ">f8", "int8"]


def retype(arr, t):
    return arr.astype(t)


def types(ctx, k, part, parts):
    """Whole-numbered points given as other numeric types (each represents them exactly)"""
    for idx in ctx.cases(part_of(itertools.combinations(range(27), k), part, parts)):
        for f, off in ((1, 0), (20, 3)):
            pts = N.array([GRID3[i] for i in idx], dtype=float) * f + off
            with ctx.case(dict(subset=idx, factor=f), trace=False):
                a = observe(pts)
                ctx.state(("types", idx, f))
                if a["s"][1] < 1e-9:
                    continue
                for t in TYPES:
                    if t.startswith("float"):
                        # computed at the precision of the type
                        g = PCAOrientation(retype(pts, t)) if t == "float32" else None
                        if g is not None:
                            ctx.close(g.center, a["center"], "centre of " + t, tol=1e-5)
                            ctx.close(g.singular_values, a["s"], "singular values of " + t, tol=1e-5)
                        continue
                    compare(ctx, "readonly", a, observe(retype(pts, t)), 60)
                    ctx.traces += 1


FEW = ["shift", "turn37", "turn90", "milli", "mirror-x", "upside-down", "point-reflect", "twice", "reverse", "fortran"]


def lattice(ctx, k, part, parts, names=None):
    names = names or list(OPS)
    for idx in ctx.cases(part_of(itertools.combinations(range(27), k), part, parts)):
        pts = N.array([GRID3[i] for i in idx], dtype=float)
        with ctx.case(dict(subset=idx), trace=False):
            a = observe(pts)
            ctx.state(("lattice", idx))
            if a["s"][1] < 1e-9:
                continue
            for name in names:
                a2 = apply(name, pts)
                compare(ctx, name, a, observe(a2), max(N.abs(a2).max(), 2))
                ctx.traces += 1
            ctx.depth(1)


def orders(ctx, n):
    """Every order of the points of a small set"""
    loc = spiral(n, (5, 2, .5)).dot(frame(33, 44, 55))
    a = observe(loc)
    for p in ctx.cases(itertools.permutations(range(n))):
        with ctx.case(p):
            compare(ctx, "reverse", a, observe(loc[list(p)]), N.abs(loc).max())
            ctx.state(("perm", p))


TASKS = dict(types=types, search=search, lattice=lattice, orders=orders)


def shards(tier):
    b = bases()
    if tier == "quick":
        return ([("search", dict(base=x, depth=2)) for x in b] + split("lattice", 16, k=3, names=FEW)
                + split("types", 8, k=3)
                + [("orders", dict(n=6))])
    return ([("search", dict(base=x, depth=3)) for x in b] + split("lattice", 16, k=3)
            + split("lattice", 32, k=4) + split("types", 8, k=3) + split("types", 32, k=4)
            + [("orders", dict(n=7))])
