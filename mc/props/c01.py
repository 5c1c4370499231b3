"""A plane fit is the total-least-squares plane of its points."""
import itertools

import numpy as N
from attitude.orientation import PCAOrientation, Orientation

from ..engine import deviations, part_of, split
from ..universe import GRID3, cube, directions, frame, layout, octa, spiral

BOUNDS = dict(
    quick="all 3- and 4-point subsets of {0,1,2}^3; every n=3..150 and designs with n=6..40,100,1000,10001,32769,65537,100003 points x axis lengths x orientations, "
          "<=2 deviations in offset/scale/dtype/memory layout/order; optimality against all integer directions up to 3",
    thorough="all 3-, 4- and 5-point subsets of {0,1,2}^3; designs with <=3 deviations and n up to 200003; directions up to 5")
ASSUMPTIONS = ["floating-point results are compared with tolerances relative to the extent and offset of the data",
               "data values outside the enumerated lattices and designs are not covered"]

DIRS = directions(3)


def check(ctx, fit, pts, tol=1e-9, dirs=None, scatter=None, E=None):
    """Everything the property says, from the definition"""
    P = N.array(pts, dtype=N.float64)
    n = len(P)
    off = N.abs(P).max()
    mean = P.mean(axis=0)
    C = P - mean
    L = max(N.sqrt((C ** 2).sum(axis=1)).max(), 1e-300)
    # centring error grows with the offset
    t = tol * L + 4e-16 * (1e7 if tol > 1e-7 else 1) * off * 10
    rt = t / L
    ctx.step()
    A = N.asarray(fit.axes)
    s = N.asarray(fit.singular_values, dtype=float)
    if not ctx.require(A.shape == (3, 3) and s.shape == (3,), "axes {} / singular values {}", A.shape, s.shape):
        return
    ctx.close(A.dot(A.T), N.eye(3), "axes are not orthonormal", tol=max(1e-9, tol))
    ctx.require(s[0] >= s[1] - t and s[1] >= s[2] - t and s[2] >= -t, "singular values not in order: {}", s)
    S = C.T.dot(C)
    D = A.dot(S).dot(A.T)
    sc = max(S.trace(), 1e-300)
    ctx.close(D, N.diag(s ** 2), "axes/singular values do not diagonalise the scatter of the data",
              tol=max(1e-9, 4 * rt, 4 * tol), scale=sc)
    ctx.close(fit.eigenvalues, s ** 2 / (n - 1), "eigenvalues are not sample variances", tol=max(tol, 1e-9),
              scale=max(s[0] ** 2 / (n - 1), 1e-300))
    ctx.close(N.sort(N.linalg.eigvalsh(S))[::-1], s ** 2, "singular values", tol=max(1e-9, 4 * rt, 4 * tol), scale=sc)
    nrm = N.asarray(fit.normal)
    # the smallest one on its own scale
    ctx.require(N.abs(N.sqrt(N.diag(D).clip(0)) - s) <= N.sqrt(n) * (t + 1e-11 * L) + 1e-8 * N.sqrt(max(sc, 0)), "singular values {} are not the extents {} along the axes", s, N.sqrt(N.diag(D).clip(0)))
    ctx.require(abs(N.linalg.norm(C.dot(A[2])) - s[2]) <= 4 * N.sqrt(n) * t, "third singular value {} instead of {}", s[2], N.linalg.norm(C.dot(A[2])))
    ctx.close(N.linalg.norm(nrm), 1.0, "normal is not a unit vector", tol=max(1e-9, tol))
    ctx.require(nrm[2] >= 0, "normal points down: {}", nrm)
    ctx.require(min(N.abs(nrm - A[2]).max(), N.abs(nrm + A[2]).max()) <= max(1e-9, tol), "normal is not the third axis")
    ctx.close(fit.center, mean, "centre is not the mean", tol=1, scale=t)
    ctx.close(fit.mean, mean, "mean", tol=1, scale=t)
    ctx.close(fit.centered_array, C, "centred points", tol=1, scale=t)
    ctx.require(fit.n == n, "n is {} for {} points", fit.n, n)
    # residuals, rotated data and reconstruction
    R = N.asarray(fit.residuals())
    ctx.close(R, N.outer(C.dot(nrm), nrm), "residuals are not the components along the normal", tol=1, scale=2 * t)
    ctx.close(fit.rotated(), C.dot(A.T), "rotated points", tol=1, scale=2 * t)
    if s[2] >= 0:
        ctx.close(N.dot(N.asarray(fit.U) * s, A), C, "U.sigma.V", tol=1, scale=3 * t + 1e-7 * L * (tol > 1e-7))
        ctx.close(N.dot(fit.U, N.dot(fit.sigma, fit.V)), C, "U.sigma.V", tol=1, scale=3 * t + 1e-7 * L * (tol > 1e-7))
    tot = (s ** 2).sum()
    if tot > (100 * t) ** 2:
        ctx.close(fit.explained_variance, (s[0] ** 2 + s[1] ** 2) / tot, "explained variance", tol=max(1e-9, tol))
    # no plane of the lattice is better
    if dirs is not None:
        q = ((C.dot(dirs.T)) ** 2).sum(axis=0)
        ctx.step(len(dirs))
        bad = q < s[2] ** 2 - max(1e-9, 4 * tol, 4 * rt) * sc
        if bad.any():
            i = int(N.argmax(bad))
            ctx.fail("plane with normal {} has squared distances {} < {} of the fit".format(
                dirs[i].tolist(), q[i], s[2] ** 2))
        if n > 2:
            # ... and none through another of the points
            qq = ((P - P[0]).dot(nrm) ** 2).sum()
            ctx.require(qq >= s[2] ** 2 - max(1e-9, 4 * tol, 4 * rt) * sc, "plane through another point is better")
    if scatter is not None:
        ctx.close(s ** 2, scatter, "scatter known in closed form", tol=max(1e-8, 10 * rt, 10 * tol), scale=max(scatter[0], 1e-300))
        for i in range(3):
            gap = min([abs(scatter[i] - scatter[j]) for j in range(3) if j != i]) / max(scatter[0], 1e-300)
            if gap > 1e-2 * (1 if tol < 1e-7 else 10):
                d = min(N.abs(A[i] - E[i]).max(), N.abs(A[i] + E[i]).max())
                ctx.require(d <= max(1e-8, 100 * rt, 100 * tol) / gap, "axis {} is {} instead of {}", i, A[i], E[i])


def small(ctx, k, part, parts, tier):
    it = part_of(itertools.combinations(range(27), k), part, parts)
    for idx in ctx.cases(it):
        pts = N.array([GRID3[i] for i in idx], dtype=float)
        with ctx.case(dict(subset=idx)):
            fit = PCAOrientation(pts)
            check(ctx, fit, pts, dirs=DIRS)
            rank = int((fit.singular_values > 1e-9).sum())
            ctx.state(("small", idx), "rank{}".format(rank))


LENS = [(5, 2, .3), (100, 10, 1), (1, 1, .01), (3, 2, 0), (7, 0, 0), (2, 2, 2), (4, 1, .999), (0, 0, 0), (5, 2, 1e-4), (5, 2, 1e-6), (5, 1e-5, 1e-6), (1e4, 1, 1e-3)]
FRAMES = [(0, 0, 0), (0, 90, 0), (90, 90, 30), (37, 12, 110), (180, 45, 45), (222, 88, 5), (301, 1, 77), (90, 0, 90), (135, 60, 0)]
DIMS = dict(
    offset=[(0, 0, 0), (10, -20, 30), (500123.5, 4100678.25, 1650.75), (-3e3, 2e3, -1e4), (0, 0, 1e6)],
    scale=[1.0, 1e-3, 1e3, 1e6, 1e-8],
    dtype=["float64", "float32", "int64", "int32"],
    order=["C", "F", "strided", "reversed-view", "readonly"],
    perm=["id", "rev", "rot", "interleave"],
    n=[13, 6, 7, 8, 9, 10, 11, 12, 14, 17, 25, 31, 40, 100, 101, 1000])


def build(c):
    E = frame(*c["frame"])
    if c.get("shape", "octa") == "octa":
        loc, sc = octa(c["lens"], c["n"])
    elif c["shape"] == "cube":
        loc, sc = cube(c["lens"])
    else:
        loc, sc = spiral(c["n"], c["lens"]), None
    pts = loc.dot(E) * c["scale"]
    pts = pts + N.array(c["offset"])
    integer = c["dtype"].startswith("int")
    if integer:
        pts = N.round(pts * 10)
        sc = None
    arr = layout(pts, c["dtype"], c["order"], c["perm"])
    ref = arr.astype(float)
    return arr, ref, (None if sc is None else sc * c["scale"] ** 2), E


def designs(ctx, k, part, parts, frames, lens, shapes, nbig=()):
    def gen():
        for sh in shapes:
            for f in frames:
                for l in lens:
                    for c in deviations(DIMS, k):
                        if c["dtype"] == "float32" and max(map(abs, c["offset"])) > 100:
                            continue
                        if c["scale"] < 1e-2 and (max(map(abs, c["offset"])) > 100 or c["dtype"].startswith("int")):
                            continue
                        if c["scale"] == 1e-8 and c["offset"] != (0, 0, 0):
                            continue
                        if c["dtype"] == "int32" and c["scale"] > 1e4:
                            continue
                        yield dict(c, frame=f, lens=l, shape=sh)
                    for n in nbig:
                        c = {d: v[0] for d, v in DIMS.items()}
                        yield dict(c, n=n, frame=f, lens=l, shape=sh)
    for c in ctx.cases(part_of(gen(), part, parts)):
        arr, ref, sc, E = build(c)
        with ctx.case(c):
            keep = arr.copy()
            fit = PCAOrientation(arr)
            check(ctx, fit, ref, tol=2e-6 if c["dtype"] == "float32" else 1e-9,
                  dirs=DIRS if c["n"] < 200 else None, scatter=sc, E=E)
            ctx.require(N.array_equal(arr, keep), "input array was modified")
            ctx.state(("design", c), "{}".format(c["shape"]))


def reject(ctx):
    for c in ctx.cases(dict(n=n, dtype=t, offset=o) for n in (0, 1, 2) for t in ("float64", "int64", "float32")
                       for o in (0, 5, 1e6)):
        arr = (N.arange(3 * c["n"]).reshape(c["n"], 3) * 2 + c["offset"]).astype(c["dtype"])
        with ctx.case(c):
            ctx.step()
            try:
                PCAOrientation(arr)
            except ValueError:
                ctx.state(("reject", c), "ValueError")
            else:
                ctx.fail("{} points were fitted".format(c["n"]))
    with ctx.case(dict(alias=True)):
        ctx.require(Orientation is PCAOrientation or issubclass(Orientation, PCAOrientation), "Orientation alias")


TASKS = dict(small=small, designs=designs, reject=reject)


def shards(tier):
    if tier == "quick":
        return (split("small", 1, k=3, tier=tier) + split("small", 8, k=4, tier=tier)
                + split("designs", 8, k=1, frames=FRAMES, lens=LENS, shapes=["octa"], nbig=[10001])
                + split("designs", 8, k=2, frames=FRAMES[3:5], lens=LENS[:1] + LENS[3:4], shapes=["octa"])
                + split("designs", 4, k=1, frames=FRAMES[:4], lens=LENS[:2], shapes=["cube", "spiral"], nbig=[4097])
                + split("designs", 3, k=0, frames=FRAMES[3:5], lens=LENS[:1], shapes=["octa"], nbig=[32769, 65537, 100003])
                + split("designs", 2, k=0, frames=FRAMES[3:5], lens=LENS[:1], shapes=["spiral"], nbig=list(range(3, 151)) + [199, 200, 201, 255, 256, 257, 499, 500, 501, 999, 1001])
                + [("reject", {})])
    return (split("small", 1, k=3, tier=tier) + split("small", 8, k=4, tier=tier) + split("small", 48, k=5, tier=tier)
            + split("designs", 32, k=2, frames=FRAMES, lens=LENS, shapes=["octa"], nbig=[10001, 20001, 65537, 200003])
            + split("designs", 16, k=3, frames=FRAMES[3:5], lens=LENS[:1], shapes=["octa"])
            + split("designs", 16, k=2, frames=FRAMES, lens=LENS[:4], shapes=["cube", "spiral"], nbig=[4097, 20001])
            + [("reject", {})])
