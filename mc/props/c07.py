"""A group fit pools the points of its members."""
import itertools

import numpy as N
from attitude.orientation import PCAOrientation, create_groups
from attitude.orientation.grouped import GroupedOrientation

from ..engine import part_of, split
from ..universe import GRID3, frame, layout, octa, spiral
from .c01 import check as check_fit

BOUNDS = dict(
    quick="all ordered selections of 1-3 members from 11 kinds of members (also weighted, restored and disabled ones) x 5 offset patterns x both modes x made directly, by create_groups, with repeated use; groups of 4-9, 12 and 25 members with up to 2501 points each; all pairs of 3-subsets from the first lattice points",
    thorough="all ordered selections of 1-4 members; all pairs of 3-subsets of the 12 first lattice points")
ASSUMPTIONS = ["members are full or deficient rank clouds from the shared universe"]

MEMBERS = {
    "a": lambda: spiral(5, (5., 2., .3)).dot(frame(20, 30, 40)),
    "b": lambda: spiral(12, (3., 2.5, .2)).dot(frame(25, 28, 80)),
    "line": lambda: N.outer(N.linspace(-4, 4, 6), [1., .5, .2]),
    "three": lambda: N.array([[0., 0, 0], [1, 0, .3], [0, 1, .1]]),
    "big": lambda: octa((40., 20., 1.), 301)[0].dot(frame(22, 31, 10)),
    "f32": lambda: layout(spiral(7, (5., 2., .3)), "float32"),
    "int": lambda: layout(N.round(10 * spiral(8, (5., 2., .3)).dot(frame(200, 60, 5))), "int64"),
    "flat": lambda: octa((5., 2., 0), 7)[0],
    "rep": lambda: N.repeat(spiral(5, (4., 3., .2)).dot(frame(40, 20, 10)), [1, 4, 1, 2, 1], axis=0),
    "wt": None,
    "off": None,
}
OFFSETS = {
    "none": lambda i: (0, 0, 0),
    "stack": lambda i: (0, 0, 10 * i),
    "scatter": lambda i: (100 * i, -37 * i * i, 5 * i + 2),
    "utm": lambda i: (500000 + 10 * i, 4100000 - 20 * i, 1500 + i),
    "same": lambda i: (7, 8, 9),
}


def member(name, i, off):
    """(fit, its points)"""
    if name == "wt":
        arr = MEMBERS["a"]() * 1.5 + N.array(OFFSETS[off](i))
        return PCAOrientation(arr, weights=N.array([1., 2., 3.])), arr
    if name == "off":
        # switched off, or re-created from its saved axes as well
        arr = spiral(6, (3., 2., .4)).dot(frame(130, 25, 60)) + N.array(OFFSETS[off](i))
        fit = PCAOrientation(arr)
        if i % 2:
            fit = PCAOrientation(arr, axes=fit.principal_axes)
        fit.disabled = True
        return fit, arr
    arr = MEMBERS[name]()
    o = N.array(OFFSETS[off](i))
    arr = arr + (o.astype(arr.dtype) if arr.dtype.kind == "i" else o.astype(arr.dtype))
    return PCAOrientation(arr), arr


def verify(ctx, g, arrs, same, order_free=None):
    big = [N.array(a, dtype=float) for a in arrs]
    f32 = any(a.dtype == N.float32 for a in arrs)
    allp = N.vstack(big)
    pooled = allp if same else N.vstack([a - a.mean(axis=0) for a in big])
    ctx.step()
    ctx.require(g.n == len(allp), "a group of {} points says {}", len(allp), g.n)
    off = N.abs(allp).max()
    C = pooled - pooled.mean(axis=0)
    L = N.sqrt((C ** 2).sum(axis=1)).max()
    t = (1e-9 if not f32 else 1e-5) * L + (4e-15 if not f32 else 4e-6) * off
    ctx.close(g.center, allp.mean(axis=0), "centre of the group is not the mean of all points", tol=1, scale=t)
    ctx.close(g.mean, allp.mean(axis=0), "mean", tol=1, scale=t)
    S = C.T.dot(C)
    A, s = N.asarray(g.axes), N.asarray(g.singular_values)
    rt = 10 * t / L
    ctx.close(A.dot(A.T), N.eye(3), "axes", tol=1e-6 if f32 else 1e-9)
    ctx.close(A.dot(S).dot(A.T), N.diag(s ** 2), "group axes are not those of the pooled {} points".format("raw" if same else "centred"),
              tol=max(1e-9, rt), scale=S.trace())
    ctx.close(g.eigenvalues, s ** 2 / (len(allp) - 1), "eigenvalues", tol=1e-6, scale=max(s[0] ** 2, 1e-300))
    ctx.close(g.centered_array, C, "centred points of the group", tol=1, scale=4 * t)
    ref = PCAOrientation(pooled)
    ctx.close(g.singular_values, ref.singular_values, "singular values vs. pooled fit", tol=max(1e-9, rt))
    if not f32:
        ctx.close(g.hyperbolic_axes, ref.hyperbolic_axes, "error axes vs. pooled fit", tol=max(1e-8, 10 * rt), scale=max(N.abs(ref.eigenvalues).max(), N.abs(ref.hyperbolic_axes).max()))


def select(ctx, part, parts, sizes, offs):
    it = part_of(((names, off, same, how) for r in sizes for names in itertools.product(MEMBERS, repeat=r)
                  for off in offs for same in (False, True) for how in ("direct", "helper", "inplace")), part, parts)
    for names, off, same, how in ctx.cases(it):
        if how != "direct" and (len(names) == 3 and off not in ("scatter", "none")):
            continue
        if "f32" in names and off == "utm":
            continue
        with ctx.case((names, off, same, how)):
            ms = [member(n, i, off) for i, n in enumerate(names)]
            fits, arrs = [m[0] for m in ms], [m[1] for m in ms]
            keep = [a.copy() for a in arrs]
            if how == "direct":
                g = GroupedOrientation(*fits, **(dict(same_plane=True) if same else {}))
            else:
                if len({f.hash for f in fits}) < len(fits):
                    # measurements that cannot be told apart
                    ctx.traces -= 1
                    continue
                extra = PCAOrientation(spiral(6) + 3.)
                kw = dict(same_plane=True) if same else {}
                g = create_groups([extra] + fits, [f.hash for f in fits], copy=how != "inplace", **kw)[-1]
            verify(ctx, g, arrs, same)
            ctx.require([m.n for m in g.members] == [len(a) for a in arrs], "members")
            for a, k in zip(arrs, keep):
                ctx.require(N.array_equal(a, k), "member points were modified")
            # members keep their own fits
            for f, a in zip(fits, arrs):
                ctx.close(f.center, N.array(a, dtype=float).mean(axis=0), "member centre", tol=1e-5)
            if len(fits) > 1 and how == "direct":
                h = GroupedOrientation(*[member(n, i, off)[0] for i, n in reversed(list(enumerate(names)))], same_plane=same)
                ctx.step()
                ctx.close(h.singular_values, g.singular_values, "member order matters", tol=1e-5 if "f32" in names else 1e-8, scale=N.abs(g.singular_values).max())
                ctx.close(h.hyperbolic_axes, g.hyperbolic_axes, "member order matters for errors", tol=1e-4 if "f32" in names else 1e-7,
                          scale=max(N.abs(g.eigenvalues).max(), N.abs(g.hyperbolic_axes).max()))
                d = min(N.linalg.norm(h.normal - g.normal), N.linalg.norm(h.normal + g.normal))
                e = g.eigenvalues
                if (e[1] - e[2]) / e[0] > 1e-3:
                    ctx.require(d < (1e-2 if "f32" in names else 1e-6), "member order matters for orientation")
            ctx.state((names, off, same, how), "same" if same else "centred")


def lattice(ctx, m, part, parts):
    """All pairs of small point sets"""
    subs = list(itertools.combinations(range(0, 27, 27 // m)[:m], 3))
    for a, b in ctx.cases(part_of(itertools.product(subs, subs), part, parts)):
        with ctx.case((a, b)):
            pa = N.array([GRID3[i] for i in a], dtype=float)
            pb = N.array([GRID3[i] for i in b], dtype=float) * 2 + (10, 0, -5)
            for same in (False, True):
                g = GroupedOrientation(PCAOrientation(pa), PCAOrientation(pb), same_plane=same)
                verify(ctx, g, [pa, pb], same)
            ctx.state(("lat", a, b))


def exhausted(ctx):
    """Weights given for the group"""
    for names, same in ctx.cases(itertools.product(itertools.product(("a", "b", "three"), repeat=2), (False, True))):
        with ctx.case((names, same)):
            w = N.array([1., 2., .5])
            ms = [member(n, i, "scatter") for i, n in enumerate(names)]
            g = GroupedOrientation(*[m[0] for m in ms], same_plane=same, weights=w)
            arrs = [m[1] for m in ms]
            allp = N.vstack(arrs)
            pooled = allp if same else N.vstack([a - a.mean(axis=0) for a in arrs])
            ref = PCAOrientation(pooled, weights=w)
            ctx.step()
            ctx.close(g.singular_values, ref.singular_values, "weighted group", tol=1e-9)
            ctx.close(N.abs(g.axes), N.abs(ref.axes), "weighted group axes", tol=1e-7)
            ctx.close(g.center, allp.mean(axis=0), "centre of weighted group", tol=1e-9)
            ctx.state(("w", names, same))


def many(ctx, counts, offs):
    """Any number of members, small and large"""
    cyc = ["a", "b", "three", "big", "rep", "line", "wt", "off", "flat"]
    for k, off, same, how, lead in ctx.cases(itertools.product(counts, offs, (False, True), ("direct", "helper", "inplace"), (0, 3, "huge"))):
        with ctx.case((k, off, same, how, lead)):
            ms = [member(cyc[(i + (lead if lead != "huge" else 0)) % len(cyc)], i, off) for i in range(k)]
            if lead == "huge":
                arr = octa((50., 30., 2.), 2501)[0].dot(frame(100, 40, 10)) + N.array(OFFSETS[off](k))
                ms[k // 2] = (PCAOrientation(arr), arr)
            # told apart by scale and place
            out = []
            for i, (f, a) in enumerate(ms):
                if i >= len(cyc):
                    a = a * (1 + .01 * i) + i
                    f = PCAOrientation(a)
                out.append((f, a))
            fits, arrs = [m[0] for m in out], [m[1] for m in out]
            kw = dict(same_plane=True) if same else {}
            if how == "direct":
                g = GroupedOrientation(*fits, **kw)
            else:
                if len({f.hash for f in fits}) < len(fits):
                    ctx.traces -= 1
                    continue
                extra = PCAOrientation(spiral(6) + 3.)
                g = create_groups([extra] + fits, [f.hash for f in fits], copy=how != "inplace", **kw)[-1]
            verify(ctx, g, arrs, same)
            ctx.require([m.n for m in g.members] == [len(a) for a in arrs], "members")
            ctx.state((k, off, same, how, lead), "many")


TASKS = dict(many=many, select=select, lattice=lattice, weighted=exhausted)


def shards(tier):
    if tier == "quick":
        return (split("select", 4, sizes=[1, 2], offs=list(OFFSETS)) + split("select", 12, sizes=[3], offs=["scatter", "utm"])
                + split("lattice", 8, m=6) + [("weighted", {})]
                + [("many", dict(counts=c, offs=["none", "scatter", "utm"])) for c in ([4, 5], [6, 7], [8, 9], [12, 25])])
    return (split("select", 16, sizes=[1, 2, 3], offs=list(OFFSETS)) + split("select", 32, sizes=[4], offs=["scatter"])
            + split("lattice", 32, m=10) + [("weighted", {})]
            + [("many", dict(counts=c, offs=list(OFFSETS))) for c in ([4, 5], [6, 7], [8, 9], [12, 25], [40], [60], [100])])
