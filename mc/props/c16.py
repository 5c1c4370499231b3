"""Linear regression solves the normal equations, in any access order."""
import itertools
from fractions import Fraction

import numpy as N
from attitude.orientation import PCAOrientation
from attitude.orientation.linear import LinearOrientation, Regression

from ..engine import key64, part_of, split
from ..universe import GRID3, cosd, frame, normal_vec, octa, rotz, sind, spiral

BOUNDS = dict(
    quick="all 3- and 4-subsets of {0,1,2}^3 with an invertible normal matrix; every sequence of up to 3 accessor calls on 8 point sets x 7 input forms; planes with every "
          "10th strike x dips 0..89 x 2 sizes; every number of points 3..79 and to 1001 x 3 shapes, some also very small, very large and nearly horizontal; plan views as narrow as 3e-5; turns by 24 angles of noisy clouds",
    thorough="all 3-, 4- and 5-subsets of {0,1,2}^3; every sequence of up to 4 accessor calls; every 2nd strike x integer dip; turns by 72 angles")
ASSUMPTIONS = ["point sets with vertical or collinear plan view are not regressions and left out", "a 3 x 3 input is three points in rows"]


def exact(pts):
    """Coefficients (a, b, c) about the mean, residuals and inverse normal matrix in rational arithmetic; None if singular"""
    P = [[Fraction(x) for x in r] for r in pts]
    n = len(P)
    m = [sum(r[i] for r in P) / n for i in range(3)]
    C = [[r[i] - m[i] for i in range(3)] for r in P]
    sxx, syy, sxy = (sum(r[i] * r[j] for r in C) for i, j in ((0, 0), (1, 1), (0, 1)))
    sxz, syz = (sum(r[i] * r[2] for r in C) for i in (0, 1))
    det = sxx * syy - sxy * sxy
    if det == 0:
        return None
    a = (sxz * syy - syz * sxy) / det
    b = (syz * sxx - sxz * sxy) / det
    inv = [[syy / det, -sxy / det, 0], [-sxy / det, sxx / det, 0], [0, 0, Fraction(1, n)]]
    res = [r[2] - a * r[0] - b * r[1] for r in C]
    f = lambda x: N.array(x, dtype=object).astype(float)
    return f([a, b, 0]), f(C), f(res), f(inv), float(sum(r * r for r in res))


ACCESS = dict(
    coefficients=lambda r: r.coefficients, predictions=lambda r: r.predictions, residuals=lambda r: r.residuals,
    covariance=lambda r: r.covariance_matrix, errors=lambda r: r.standard_errors())


def expected(pts):
    e = exact(pts)
    if e is None:
        return None
    co, C, res, inv, sse = e
    cov = N.zeros((3, 3)) if len(C) == 3 else sse * inv
    return dict(coefficients=co, predictions=N.array([C[:, 0], C[:, 1], C[:, 2] - res]), residuals=res, covariance=cov, errors=N.sqrt(N.diagonal(cov)), Z=C[:, 2])


def compare(ctx, name, got, exp, tol=1e-8):
    g = N.array(got, dtype=float)
    s = max(1., N.abs(exp["Z"]).max()) if name in ("residuals", "predictions") else max(1e-300, N.abs(exp[name]).max())
    if name in ("covariance", "errors"):
        # an exact fit has residuals of the order of rounding
        s += 1e-6 * max(1., N.abs(exp["Z"]).max())
    return ctx.close(g, exp[name], name, tol, max(s, 1. if name == "coefficients" else 0))


def lattice(ctx, k, part, parts):
    for sub in part_of(itertools.combinations(GRID3, k), part, parts):
        e = expected(sub)
        if e is None:
            ctx.notes["left out: singular"] += 1
            continue
        with ctx.case(dict(points=sub)):
            r = Regression(N.array(sub, dtype=float))
            for n in ACCESS:
                ctx.step()
                compare(ctx, n, ACCESS[n](r), e)
            l = LinearOrientation(N.array(sub))
            a, b, _ = e["coefficients"]
            s, d = l.strike_dip()
            linear(ctx, l, a, b)
            ctx.state(sub, outcome=k)


def linear(ctx, l, a, b, tol=1e-7):
    """a, b: slope of the plane towards east and north"""
    g = N.hypot(a, b)
    s, d = l.strike_dip()
    ctx.require(abs(d - N.degrees(N.arctan(g))) < 1e-6, "dip {} instead of {}", d, N.degrees(N.arctan(g)))
    if g > 1e-9:
        n = normal_vec(s, d)
        t = N.array([-a, -b, 1]) / N.sqrt(1 + g * g)
        ctx.require(N.linalg.norm(n - t) < 1e-6, "strike {} dip {}: plane has normal {} instead of {}", s, d, n, t)
    ds, dd = l.dip_direction()
    ctx.require(abs(ds - s - 90) < 1e-9 and dd == d, "dip direction {} for strike {}", ds, s)
    az, sl = l.gradient()
    ctx.close(N.degrees([az, sl]), [s, d], "gradient", 1e-9)
    u = l.strike_dip(uncertainties=True)
    ctx.require(tuple(u[0]) == (s, d) and N.allclose(u[1], l.errors(), equal_nan=True), "uncertainties {}", u)
    u = l.dip_direction(uncertainties=True)
    ctx.require(tuple(u[0]) == (ds, dd) and N.allclose(u[1], l.errors(), equal_nan=True), "uncertainties {}", u)


SETS = [[(0, 0, 0), (1, 0, 2), (0, 1, 5)], [(0, 0, 0), (4, 1, 2), (1, 3, 5), (2, 2, 2)], [(0, 0, 1), (4, 1, 2), (1, 3, 5), (2, 2, 2), (7, -3, .5)],
        [(float(a), float(b), float(c)) for a, b, c in N.round(spiral(9) * 64) / 64], [(float(a) + 1024, float(b) - 4096, float(c) + 512) for a, b, c in N.round(spiral(12) * 64) / 64],
        [(i, j, 3) for i in range(3) for j in range(3)], [(i, j, 2 * i - j) for i in range(3) for j in range(3)], [(i * 1000, j * 1000, (i * j) % 7) for i in range(4) for j in range(5)]]
FORMS = dict(
    rows=lambda p: N.array(p, dtype=float), lists=lambda p: [list(i) for i in p], tuples=lambda p: tuple(tuple(i) for i in p),
    fortran=lambda p: N.asfortranarray(N.array(p, dtype=float)), columns=lambda p: N.array(p, dtype=float).T.copy(), columnview=lambda p: N.array(p, dtype=float).T,
    columnlist=lambda p: [list(i) for i in zip(*p)])


def orders(ctx, depth, part, parts):
    for i, form in part_of(itertools.product(range(len(SETS)), sorted(FORMS)), part, parts):
        if form.startswith("column") and len(SETS[i]) <= 3:
            continue
        e = expected(SETS[i])
        for d in range(1, depth + 1):
            for seq in ctx.cases(itertools.product(sorted(ACCESS), repeat=d)):
                with ctx.case(dict(set=i, form=form, calls=seq)):
                    data = FORMS[form](SETS[i])
                    before = N.array(data)
                    r = Regression(data)
                    for n in seq:
                        ctx.step()
                        compare(ctx, n, ACCESS[n](r), e)
                    ctx.require(N.array_equal(before, N.array(data)), "input was changed")
                    ctx.depth(d)
                    ctx.state([i, form, seq], outcome=form)
        with ctx.case(dict(set=i, form=form)):
            l = LinearOrientation(FORMS[form](SETS[i]))
            linear(ctx, l, *e["coefficients"][:2])
            ctx.close(l.covariance_matrix, e["covariance"], "covariance", 1e-7, max(1e-6, N.abs(e["covariance"]).max()))


def planes(ctx, strikes, dips, part, parts):
    """On exact planes the regression, the principal-component fit and the truth agree"""
    for s in part_of(strikes, part, parts):
        for d, size in itertools.product(dips, (1., 250.)):
            with ctx.case((s, d, size)):
                n = normal_vec(s, d)
                xy = spiral(11, (size, size * .7, 0))[:, :2] + (40., -30.)
                z = -(xy[:, 0] * n[0] + xy[:, 1] * n[1]) / n[2] + 7
                P = N.column_stack([xy, z])
                l = LinearOrientation(P)
                ctx.step()
                S, D = l.strike_dip()
                ctx.require(N.linalg.norm(normal_vec(S, D) - n) < 1e-6, "strike {} dip {}", S, D)
                if d:
                    # the azimuth of a gentle slope is known to the rounding of the heights
                    g = N.tan(N.radians(d))
                    t = (S - s + 180) % 360 - 180
                    ctx.require(abs(t) < 1e-6 + N.degrees(2e-14 * 50 / size / g), "strike {} instead of {}", S, s)
                    ctx.require(abs(D - d) < 1e-8 + 1e-12 / size * 57, "dip {} instead of {}", D, d)
                # in the plane the first two axes need not be distinguishable; only the normal is compared
                q = PCAOrientation(P)
                ctx.require(N.linalg.norm(normal_vec(*q.strike_dip()) - normal_vec(S, D)) < 1e-5, "{} by regression, {} by principal components", (S, D), q.strike_dip())
                ctx.state((s, d, size), outcome=d == 0)


def turns(ctx, angles, part, parts):
    """The statistics belong to the plane: turning the data turns the azimuth and leaves the errors alone"""
    clouds = [spiral(20, (10., 8., .5)).dot(frame(30, d, p)) for d in (5, 30, 60) for p in (0, 40)] + [octa((9., 5., 1.), 14)[0].dot(frame(200, d, 20)) for d in (10, 45)]
    for c, a in part_of(itertools.product(range(len(clouds)), angles), part, parts):
        with ctx.case((c, a)):
            P = clouds[c]
            l0, l1 = LinearOrientation(P), LinearOrientation(P.dot(rotz(a).T) + (100., 50., -3.))
            ctx.step()
            (s0, d0), (s1, d1) = l0.strike_dip(), l1.strike_dip()
            turn = (s1 - s0 - a) % 360
            ctx.require(min(turn, 360 - turn) < 1e-6, "strike turns by {} instead of {}", s1 - s0, a)
            ctx.require(abs(d0 - d1) < 1e-7, "dip changes from {} to {}", d0, d1)
            ctx.close(l1.errors(), l0.errors(), "errors", 1e-7)
            ctx.close(l1.standard_errors(), l0.standard_errors(), "standard errors", 1e-7)
            ctx.close(l1.rotated_covariance, l0.rotated_covariance, "rotated covariance", 1e-7)
            # variance of the slope up the gradient, from first principles
            X = P - P.mean(axis=0)
            g = N.array([cosd(90 - (s0 + 90)), sind(90 - (s0 + 90))])
            U = N.column_stack([X[:, :2].dot(g), X[:, :2].dot([-g[1], g[0]])])
            inv = N.linalg.inv(U.T.dot(U))
            co = inv.dot(U.T.dot(X[:, 2]))
            res = X[:, 2] - U.dot(co)
            ctx.close(l0.standard_errors()[:2], N.sqrt(res.dot(res) * N.diagonal(inv)), "standard errors down dip and along strike", 1e-7)
            ctx.close(l0.errors(), N.degrees(N.sqrt(res.dot(res) * N.diagonal(inv))), "errors in degrees", 1e-7)
            ctx.state((c, a))


def sizes(ctx, counts, part, parts):
    """Any number of points, in rows or columns"""
    shapes = [((10., 8., .5), 25, 1.), ((1., .8, 3.), 25, 1.), ((900., 4., .01), 25, 1.), ((10., 8., .5), 25, 2.**-24), ((10., 8., .5), 25, 2.**16), ((900., 800., .01), .01, 1.)]
    for n, (sc, dip, k) in part_of(itertools.product(counts, shapes), part, parts):
        if (k != 1 or dip < 1) and n % 7:
            continue
        with ctx.case((n, sc, dip, k)):
            # exact in binary
            P = N.round((spiral(n, sc).dot(frame(40, dip, 10)) + (100., 50., 20.)) * 1024) / 1024 * k
            e = expected([tuple(map(float, r)) for r in P])
            if e is None:
                ctx.notes["left out: singular"] += 1
                continue
            for form in ("rows", "columns") if n > 3 else ("rows",):
                r = Regression(FORMS[form](P))
                for what in ACCESS:
                    ctx.step()
                    compare(ctx, what, ACCESS[what](r), e)
                a, b = e["coefficients"][:2]
                ctx.require(N.abs(N.array(r.coefficients)[:2] - (a, b)) <= 1e-9 * max(abs(a), abs(b)) + 1e-11, "coefficients {} instead of {}", r.coefficients, (a, b))
                l = LinearOrientation(FORMS[form](P))
                linear(ctx, l, *e["coefficients"][:2])
            ctx.state((n, sc, dip, k), outcome=n < 4)


def narrow(ctx):
    """Points almost on one line in plan view: still a regression, only with fewer digits"""
    for eps, a, n, off in ctx.cases(itertools.product((.1, .01, 1e-3, 3e-4, 1e-4, 3e-5), (0, 30, 90, 137), (4, 9, 40), (0., 512.))):
        with ctx.case((eps, a, n, off)):
            i = N.arange(n)
            L = N.column_stack([10 * N.sin(1 + 2.4 * i), 10 * eps * N.cos(.7 * i * i + .3), 2 * N.sin(3.1 * i) + .5 * N.cos(.7 * i * i + .3)])
            P = L.dot(rotz(a).T) + off
            e = expected([tuple(map(float, r)) for r in P])
            tol = 1e-8 + 1e-13 / eps ** 2 * (1 + off / 10)
            if tol > .01:
                continue
            r = Regression(P)
            for k in ("coefficients", "residuals", "covariance", "errors"):
                ctx.step()
                compare(ctx, k, ACCESS[k](r), e, tol)
            ctx.state((eps, a, n, off), outcome=eps)


TASKS = dict(narrow=narrow, sizes=sizes, lattice=lattice, orders=orders, planes=planes, turns=turns)


def shards(tier):
    t = tier == "thorough"
    return (split("lattice", 4, k=3) + split("lattice", 16, k=4) + (split("lattice", 64, k=5) if t else []) + split("orders", 16 if t else 8, depth=4 if t else 3)
            + split("planes", 16 if t else 6, strikes=list(range(0, 360, 2 if t else 10)), dips=list(range(0, 90)) if t else list(range(0, 90, 5)) + [1, 89, .1, 1e-3, 1e-5, 1e-6, 1e-7])
            + split("sizes", 16 if t else 4, counts=list(range(3, 400)) + [1000, 5000] if t else list(range(3, 80)) + [100, 101, 150, 256, 500, 1001])
            + [("narrow", {})] + split("turns", 8 if t else 2, angles=list(range(0, 360, 5 if t else 15))))
