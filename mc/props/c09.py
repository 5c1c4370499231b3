"""A fit restored from saved axes equals the original fit."""
import itertools
import json

import numpy as N
from attitude.error.axes import noise_axes, sampling_axes
from attitude.orientation import Orientation, PCAOrientation

from ..engine import part_of, split
from ..universe import GRID3, cube, frame, layout, octa, spiral

BOUNDS = dict(
    quick="all full-rank 4-subsets of {0,1,2}^3; designs (4 clouds x 6 sizes) x 24 orientations x offset/type/layout; every sequence of up to 2 "
          "save/restore cycles over 6 storage formats, with each of 7 accessors read before saving",
    thorough="all full-rank 4- and 5-subsets of {0,1,2}^3; 96 orientations; every sequence of up to 3 cycles over 6 formats")
ASSUMPTIONS = ["point sets whose smallest singular value is below 1e-9 of the largest are not restorable and left out"]

FORMATS = {
    "same": lambda a: a,
    "copy": lambda a: N.array(a),
    "json": lambda a: N.array(json.loads(json.dumps(a.tolist()))),
    "text": lambda a: N.array([[float("%.17g" % i) for i in r] for r in a]),
    "fortran": lambda a: N.asfortranarray(a),
    "bytes": lambda a: N.frombuffer(a.tobytes()).reshape(3, 3),  # read-only
}


def observe(f):
    return dict(
        axes=N.array(f.axes), singular=N.array(f.singular_values), normal=N.array(f.normal),
        sdr=N.array(f.strike_dip_rake(), dtype=float), dipdir=N.array(f.dip_direction(), dtype=float),
        residuals=N.array(f.residuals()), rotated=N.array(f.rotated()), hyp=N.array(f.hyperbolic_axes),
        ang=N.array(f.angular_errors(), dtype=float), eig=N.array(f.eigenvalues), ev=N.array(f.explained_variance),
        U=N.array(f.U), center=N.array(f.center), centred=N.array(f.centered_array), principal=N.array(f.principal_axes),
        sampling=N.array(sampling_axes(f)), n=N.array(f.n))


READ = dict(
    none=lambda f: None, U=lambda f: f.U, residuals=lambda f: f.residuals(), hash=lambda f: f.hash, mapping=lambda f: f.to_mapping(),
    errors=lambda f: f.angular_errors(), coords=lambda f: f.error_coords(n=5))


def compare(ctx, a, b, cond):
    """cond: relative size of the smallest singular value"""
    size = {k: max(1e-300, N.abs(v).max()) for k, v in a.items()}
    for k in a:
        tol, sc = 1e-8, size[k]
        if k in ("U",):
            tol = 1e-12 / cond + 1e-9
        if k in ("residuals",):
            tol, sc = 1e-9, size["centred"]
        if k in ("hyp", "eig", "sampling", "singular"):
            # element by element
            if not ctx.require(N.abs(a[k] - b[k]) <= 1e-8 * N.abs(a[k]), "{}: {} instead of {}", k, b[k], a[k]):
                return
            continue
        if k in ("axes", "normal", "sdr", "dipdir", "ang"):
            tol, sc = 1e-8, max(1., size[k])
            if k == "sdr":
                # a strike next to north may come out as 0 or 360; the quadrant is that of the axes
                d = N.abs(a[k] - b[k])
                d[0] = min(d[0], 360 - d[0])
                if abs(a["normal"][2]) < 1e-9:
                    # a vertical plane has two strikes; rounding chooses
                    d[0] = min(d[0], abs(180 - d[0]))
                if not ctx.require(d < 1e-5, "strike, dip, rake {} instead of {}", b[k], a[k]):
                    return
                continue
            if k == "dipdir":
                d = N.abs(a[k] - b[k])
                d[0] = min(d[0], 360 - d[0])
                if abs(a["normal"][2]) < 1e-9:
                    # a vertical plane has two strikes; rounding chooses
                    d[0] = min(d[0], abs(180 - d[0]))
                if not ctx.require(d < 1e-5, "dip direction {} instead of {}", b[k], a[k]):
                    return
                continue
        if not ctx.close(b[k], a[k], "restored " + k, tol, sc):
            return


def cycles(ctx, pts, seqs, desc, reads=tuple(READ)):
    sv = N.linalg.svd(pts - N.mean(pts, axis=0, dtype=float), compute_uv=False)
    cond = sv[2] / sv[0]
    if cond < 1e-9:
        ctx.notes["left out: rank deficient"] += 1
        return False
    first = PCAOrientation(pts)
    base = observe(first)
    for read, seq in ctx.cases([(r, s) for r in reads for s in seqs if len(s) == 1 or r == "none"]):
        with ctx.case(dict(desc, read=read, cycles=seq)):
            f = PCAOrientation(pts)
            READ[read](f)
            for fmt in seq:
                ctx.step()
                ax = FORMATS[fmt](f.principal_axes)
                before = N.array(ax)
                f = PCAOrientation(pts, axes=ax)
                ctx.require(f.n == len(pts), "restored point count {}", f.n)
                got = observe(f)
                compare(ctx, base, got, cond)
                ctx.require(N.array_equal(before, ax), "restoring or reading the fit changed the axes it was given")
            ctx.depth(len(seq))
            ctx.state([desc, read, seq], outcome=seq[-1])
    return True


def lattice(ctx, k, part, parts, depth):
    seqs = [("json",)] if depth < 2 else list(itertools.product(("json", "same"), repeat=2))
    reads = ("none", "U") if k == 4 and depth < 2 else ("none",)
    for sub in part_of(itertools.combinations(GRID3, k), part, parts):
        with ctx.case(dict(points=sub)):
            cycles(ctx, N.array(sub, dtype=float), seqs, dict(points=sub), reads)


def designs(ctx, part, parts, step, depth):
    frames = list(itertools.product(range(0, 360, step), (0, 35, 90) if step > 45 else (0, 1, 20, 45, 70, 90), (0, 25)))
    clouds = [("spiral", n) for n in (4, 5, 9, 40)] + [("octa", 6), ("octa", 13), ("octa", 100), ("cube", 8)]
    lens = [(5., 2., .3), (1000., 10., .1), (3., 2.5, 2.), (100., 10., 1e-5)]
    dims = [(None, "float64", "C"), ((5e5, 4e6, 1e3), "float64", "C"), (None, "float64", "F"), (None, "float64", "readonly"), ((7, 8, 9), "float64", "strided"),
            (None, "int64", "C")]
    seqs = [s for d in range(1, depth + 1) for s in itertools.product(FORMATS, repeat=d)]
    for f, c, l, dim in part_of(itertools.product(frames, clouds, lens, dims), part, parts):
        if l[2] < 1e-3 and (dim[0] is not None or dim[1] == "int64"):
            continue
        desc = dict(frame=f, cloud=c, lens=l, dims=dim)
        ss = seqs if dim[0] is None and dim[2] == "C" and c in (("spiral", 9), ("octa", 13)) else [("json",), ("same",)]
        P = (spiral(c[1], l) if c[0] == "spiral" else octa(l, c[1])[0] if c[0] == "octa" else cube(l)[0]).dot(frame(*f))
        if dim[0] is not None:
            P = P + dim[0]
        if dim[1] == "int64":
            P = N.round(P * 20)
        with ctx.case(desc):
            cycles(ctx, layout(P, dim[1], dim[2]), ss, desc, tuple(READ) if len(ss) > 2 else ("none",))


def cross(ctx):
    """Axes saved for one set of points can be used with another one, without either influencing the other"""
    for i, j in ctx.cases(itertools.permutations(range(4), 2)):
        with ctx.case((i, j)):
            a = PCAOrientation(spiral(7 + i).dot(frame(30 * i, 20, 10)))
            ax = a.principal_axes
            b = Orientation(spiral(9 + j) + 5, axes=ax)
            c = PCAOrientation(spiral(12 + j) - 5, axes=ax)
            ctx.step(2)
            for q in (b, c):
                ctx.close(q.axes, a.axes, "axes", 1e-9)
                ctx.close(q.singular_values, a.singular_values, "singular values", 1e-9)
                ctx.close(q.U.dot(N.diag(q.singular_values)).dot(q.axes), q.centered_array, "U", 1e-7)
            ctx.close(c.mean, (spiral(12 + j) - 5).mean(axis=0), "mean", 1e-9)
            ctx.close(ax, a.principal_axes, "given axes", 0)
            ctx.state((i, j))


TASKS = dict(lattice=lattice, designs=designs, cross=cross)


def shards(tier):
    t = tier == "thorough"
    return (split("lattice", 32 if t else 16, k=4, depth=2 if t else 1) + (split("lattice", 64, k=5, depth=1) if t else [])
            + split("designs", 64 if t else 16, step=45 if t else 90, depth=3 if t else 2) + [("cross", {})])
