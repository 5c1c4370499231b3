"""Axis weights rescale the data and nothing else."""
import itertools

import numpy as N
from attitude.orientation import PCAOrientation

from ..engine import part_of, split
from ..universe import GRID3, frame, linedist, normal_vec, octa, spiral

BOUNDS = dict(
    quick="clouds with known axes in every 30th strike x 8 dips x 3 pitches, pre-multiplied by all 64 weight triples from {0.25, 1, 3, 40}; all 4-subsets of {0,1,2}^3 with a unique plane x 15 weight triples; unit and uniform weights in 9 "
          "number types and sizes x 7 clouds x offsets; every number of points 6..129 and to 20001; all sequences of up to 3 fits sharing one weight array",
    thorough="every 10th strike x 13 dips x 5 pitches x 125 weight triples; additionally all 5-subsets of the lattice; sequences of up to 4 fits")
ASSUMPTIONS = ["weights are positive arrays of length three", "orientation is compared where the plane is unique (third singular value of the rescaled data below the second)"]

SIGMA = (5., 2., .5)


def axes_match(ctx, got, exp, tol, msg):
    for i in range(3):
        ctx.require(linedist(got[i], exp[i]) < tol, "{}: axis {} is {} instead of {}", msg, i, got[i], exp[i])


def consistent(ctx, p, tol=1e-6):
    """Normal, strike and dip are those of the third axis"""
    n = N.array(p.axes[2])
    n = n if n[2] >= 0 else -n
    ctx.require(linedist(p.normal, n) < tol and p.normal[2] >= 0, "normal {} for third axis {}", p.normal, p.axes[2])
    s, d = p.strike_dip()
    ctx.require(linedist(normal_vec(s, d), n) < tol, "strike {} dip {} for normal {}", s, d, n)


def known(ctx, strikes, dips, pitches, wvals, part, parts):
    for s, d, pi in part_of(itertools.product(strikes, dips, pitches), part, parts):
        F = frame(s, d, pi)
        C = octa(SIGMA, 13)[0] @ F
        for w in ctx.cases(itertools.product(wvals, repeat=3)):
            with ctx.case(dict(strike=s, dip=d, pitch=pi, weights=w)):
                W = N.array(w, dtype=float)
                off = N.array([100., -200., 50.]) * (w[0] != w[1])
                data = C * W + off
                D0, W0 = data.copy(), W.copy()
                p = PCAOrientation(data, weights=W)
                ctx.step()
                axes_match(ctx, p.axes, F, 1e-7, "weighted fit")
                consistent(ctx, p)
                ctx.close(p.center, off, "centre", 1e-9, 300.)
                ctx.require(N.array_equal(data, D0) and N.array_equal(W, W0), "input was modified")
                if w[0] == w[1] == w[2]:
                    same_fit(ctx, p, PCAOrientation(data))
                ctx.state((s, d, pi, w), outcome=len(set(w)))


def sizes(ctx, counts):
    """Any number of points"""
    for n, w, f in ctx.cases(itertools.product(counts, ((1., 2., .5), (40., 3., 1.), (1e-3, 1., 1e3), (1e5, 3e4, 2e4), (2., 2., 2.)), ((40, 30, 20), (222, 80, 110)))):
        with ctx.case((n, w, f)):
            F = frame(*f)
            W = N.array(w)
            p = PCAOrientation((octa(SIGMA, n)[0] @ F) * W + (3., -4., 5.), weights=W)
            ctx.step()
            axes_match(ctx, p.axes, F, 1e-7, "weighted fit")
            consistent(ctx, p)
            ctx.require(p.n == n, "{} points instead of {}", p.n, n)
            ctx.state((n, w, f), outcome="n")


def same_fit(ctx, p, q):
    ctx.close(p.singular_values, q.singular_values, "singular values", 1e-9, max(q.singular_values))
    axes_match(ctx, p.axes, q.axes, 1e-6, "fit")
    ctx.close(p.eigenvalues, q.eigenvalues, "eigenvalues", 1e-9, max(q.eigenvalues))
    (s, d), (s0, d0) = p.strike_dip(), q.strike_dip()
    ctx.require(linedist(normal_vec(s, d), normal_vec(s0, d0)) < 1e-6 and abs(d - d0) < 1e-5, "strike and dip {} instead of {}", (s, d), (s0, d0))
    ctx.close(p.hyperbolic_axes, q.hyperbolic_axes, "error axes", 1e-7, max(1e-300, N.abs(q.hyperbolic_axes).max()))
    ctx.close(p.angular_errors(), q.angular_errors(), "angular errors", 1e-6)
    ctx.close(p.residuals(), q.residuals(), "residuals", 1e-7, max(1., N.abs(q.arr).max()))
    if d0 > 1e-3:
        # the sign of the first axis is free
        ctx.close(min(p.rake(), 180 - p.rake()), min(q.rake(), 180 - q.rake()), "rake", 1e-4, 1.)


WEIGHTS = [(2, 2, 2), (1, 2, 3), (3, 2, 1), (1, 1, .1), (1, 1, 10), (.1, 1, 1), (5, 1, 1), (1, 5, 1), (1, .2, 1), (100, 100, 1), (1, 100, 100), (.5, .25, .125), (1, 1, 1.005), (1.001, 1, 1), (1, .9999, 1)]


def lattice(ctx, k, part, parts):
    for sub in part_of(itertools.combinations(GRID3, k), part, parts):
        arr = N.array(sub, dtype=float)
        for w in ctx.cases(WEIGHTS):
            W = N.array(w, dtype=float)
            X = (arr - arr.mean(axis=0)) / W
            lam, vec = N.linalg.eigh(X.T @ X)
            lam, vec = lam[::-1], vec.T[::-1]
            if lam[1] - lam[2] < 1e-6 * lam[0]:
                ctx.notes["left out: plane not unique"] += 1
                continue
            with ctx.case(dict(points=sub, weights=w)):
                ctx.step()
                p = PCAOrientation(arr, weights=W)
                ctx.require(linedist(p.axes[2], vec[2]) < 1e-6, "third axis {} instead of {}", p.axes[2], vec[2])
                if lam[0] - lam[1] > 1e-6 * lam[0]:
                    axes_match(ctx, p.axes, vec, 1e-6, "weighted fit")
                ctx.close(N.array(p.axes) @ N.array(p.axes).T, N.eye(3), "axes are orthonormal", 1e-9)
                consistent(ctx, p)
                ctx.close(p.center, arr.mean(axis=0), "centre", 1e-12)
                ctx.state((sub, w), outcome=k)


CLOUDS = [spiral(9), spiral(40, (50, 20, 1)), octa((5, 2, .3), 12)[0] @ frame(40, 30, 20), octa((5, 2, .3), 6)[0] @ frame(0, 90, 0), octa((5, 2, .3), 6)[0] @ frame(200, 0, 45), spiral(12) * 1e-4, N.round(spiral(15) * 10).astype(int)]
UNITS = [N.ones(3), N.ones(3, dtype=int), N.ones(3, dtype="int8"), N.ones(3, dtype="float32"), N.array([1, 1, 1], dtype="uint16"), N.ones(6)[::2], 2 * N.ones(3), .001 * N.ones(3), 1e4 * N.ones(3), N.array([3, 3, 3])]


def uniform(ctx):
    for i, j, off in ctx.cases(itertools.product(range(len(CLOUDS)), range(len(UNITS)), (0, 1000))):
        with ctx.case((i, j, off)):
            arr = CLOUDS[i] + off
            W = UNITS[j]
            W0, A0 = W.copy(), arr.copy()
            q = PCAOrientation(arr)
            for p in (PCAOrientation(arr, weights=W), PCAOrientation(arr, W), PCAOrientation(arr, weights=None)):
                ctx.step()
                same_fit(ctx, p, q)
                consistent(ctx, p)
            if N.array_equal(W, N.ones(3)):
                ctx.close(p.to_mapping()["axes"], q.to_mapping()["axes"], "mapping", 1e-9)
            ctx.require(N.array_equal(W, W0) and W.dtype == W0.dtype and N.array_equal(arr, A0), "input was modified")
            ctx.state((i, j, off))


OPS = dict(a=lambda W: (CLOUDS[0], W), b=lambda W: (CLOUDS[1], W), c=lambda W: (CLOUDS[2] + 5, W), plain=lambda W: (CLOUDS[0], None))


def sharing(ctx, depth):
    """Fits that share one weight array, in any order, are those of fresh arrays"""
    W0 = N.array([1., 2., .5])
    def data(p):
        return N.concatenate([N.abs(p.axes).ravel(), p.singular_values, p.strike_dip(), p.hyperbolic_axes, p.eigenvalues])
    ref = {k: data(PCAOrientation(f(None)[0].copy(), weights=None if k == "plain" else W0.copy())) for k, f in OPS.items()}
    for d in range(1, depth + 1):
        for seq in ctx.cases(itertools.product(sorted(OPS), repeat=d)):
            with ctx.case(seq):
                W = W0.copy()
                fits = []
                for o in seq:
                    arr, w = OPS[o](W)
                    p = PCAOrientation(arr, weights=w)
                    # using the fit
                    p.U, p.residuals(), p.angular_errors(), p.to_mapping(), p.error_coords(n=4)
                    fits.append(p)
                    ctx.step()
                    ctx.require(N.array_equal(W, W0), "weights became {}", W)
                for o, p in zip(seq, fits):
                    ctx.close(data(p), ref[o], "fit {} in {}".format(o, seq), 1e-9, N.abs(ref[o]).max())
                ctx.depth(d)
                ctx.state(seq)


TASKS = dict(sizes=sizes, known=known, lattice=lattice, uniform=uniform, sharing=sharing)


def shards(tier):
    t = tier == "thorough"
    st = list(range(0, 360, 10 if t else 30))
    dips = [0, 1, 15, 30, 45, 60, 75, 80, 85, 89, 90, 5, 50] if t else [0, 1, 20, 45, 60, 75, 89, 90]
    out = split("known", 64 if t else 16, strikes=st, dips=dips, pitches=[0, 20, 45, 90, 130] if t else [0, 40, 110], wvals=[.25, 1., 3., 40., 1000.] if t else [.25, 1., 3., 40.])
    out += split("lattice", 8, k=4)
    if t:
        out += split("lattice", 32, k=5)
    out += [("sizes", dict(counts=list(range(6, 130)) + [200, 333, 1001, 20001])), ("uniform", {}), ("sharing", dict(depth=4 if t else 3))]
    return out
