"""Error axes and angular errors follow the stated statistics."""
import itertools

import numpy as N
from scipy import special
from attitude.orientation import PCAOrientation, ReconstructedPlane
from attitude.error import axes as X
from attitude.error import to_normal_errors, from_normal_errors

from ..engine import part_of, split
from ..universe import frame, octa, spiral

BOUNDS = dict(
    quick="all n in 3..66 plus 100,200,500,1000,1001,5000,10001,32769,100003 x 6 axis ratios x 12 confidence levels x dof 1..4 x option combinations of every method",
    thorough="all n in 3..400 plus 1000..20001 x 10 axis ratios x 14 confidence levels x dof 1..5 x every option combination")
ASSUMPTIONS = ["quantiles are cross-checked by closed forms for two degrees of freedom and by the distribution functions otherwise"]

RATIOS = [(5, 2, .3), (100, 10, 1), (1, 1, .01), (3, 2, 1.9), (1000, 1, .001), (2, 2, 2), (10, .2, .1), (1e4, 5e3, 2), (1, .5, 1e-5), (7, 6, 5), (1e6, 5e5, 10), (1e-4, 5e-5, 1e-6), (2e4, 3, 1), (100, 60, .002)]


def quantile(n, p, dof=2, chisq=False):
    """Independent of the code: F(dof, n-dof) or chi-squared"""
    if chisq:
        return -2 * N.log(1 - p) if dof == 2 else 2 * special.gammaincinv(dof / 2., p)
    if dof == 2:
        # F(2,m) in closed form
        m = n - 2
        return m / 2. * ((1 - p) ** (-2. / m) - 1)
    x = special.betaincinv(dof / 2., (n - dof) / 2., p)
    return (n - dof) * x / (dof * (1 - x))


def ref_scaling(ev, err, n, voa=True):
    nom = N.array(ev, dtype=float)
    if not voa:
        nom[2] = nom[2] / (n - 1)
    return N.abs(N.array([nom[0] - err[0], nom[1] - err[1], -nom[2] - err[2]]))


def ref_noise(ev, n, p=.95, dof=2, chisq=False, voa=True):
    # (a `dof` of the quantile does not enter the noise variance)
    return ref_scaling(ev, quantile(n, p, dof, chisq) * N.sqrt(4 * ev * ev[2] / (n - 2)), n, voa)


def ref_sampling(ev, n, p=.95, dof=2, chisq=False, voa=True):
    return ref_scaling(ev, quantile(n, p, dof, chisq) * N.sqrt(2. / (n - 1)) * ev, n, voa)


def ref_francq(ev, n, p=.95, voa=True):
    return ref_scaling(ev, ev * N.sqrt(2 * quantile(n, p) / (n - 2)), n, voa)


def ref_baba(ev, n, p=.95):
    return ev * 2 * quantile(n, p) / (n - 2) * (n ** 2 - 1) / n


def cloud(n, lens, f=(25, 35, 45)):
    if n >= 6:
        return octa(lens, n)[0].dot(frame(*f)) + (1, 2, 3)
    return spiral(n, lens).dot(frame(*f)) + (1, 2, 3)


def same(ctx, got, want, what, ev):
    """Differences of nearly equal terms lose relative accuracy"""
    ctx.step()
    got = N.asarray(got, dtype=float)
    if not ctx.require(got.shape == want.shape, "{}: shape {}", what, got.shape):
        return False
    return ctx.require(N.abs(got - want) <= 1e-7 * N.abs(want) + 1e-9 * ev + 1e-300, "{}: got {}, expected {}", what,
                       got.tolist(), want.tolist())


def methods(ctx, part, parts, ns, ratios, ps, dofs):
    it = part_of(itertools.product(ns, ratios), part, parts)
    for n, lens in ctx.cases(it):
        with ctx.case((n, lens)):
            fit = PCAOrientation(cloud(n, lens))
            ev = N.array(fit.eigenvalues)
            N0 = ev.copy()
            # defaults
            same(ctx, X.noise_axes(fit), ref_noise(ev, n), "noise_axes", ev)
            same(ctx, X.sampling_axes(fit), ref_sampling(ev, n), "sampling_axes", ev)
            same(ctx, X.statistical_axes(fit), ref_noise(ev, n), "statistical_axes", ev)
            same(ctx, X.francq_axes(fit), ref_francq(ev, n), "francq_axes", ev)
            same(ctx, X.babamoradi_axes(fit), ref_baba(ev, n), "babamoradi_axes", ev)
            same(ctx, fit.hyperbolic_axes, ref_noise(ev, n), "hyperbolic_axes of a fit", ev)
            same(ctx, X.hyperbolic_axes(fit), ref_noise(ev, n), "hyperbolic_axes()", ev)
            same(ctx, X.hyperbolic_axes(fit, type='noise'), ref_noise(ev, n), "hyperbolic_axes(noise)", ev)
            same(ctx, X.hyperbolic_axes(fit, type='sampling'), ref_sampling(ev, n), "hyperbolic_axes(sampling)", ev)
            same(ctx, X.eigenvalue_axes(fit), ev, "eigenvalue_axes", ev)
            same(ctx, X.variance_axes(fit), ev, "variance_axes", ev)
            same(ctx, X.sampling_covariance(fit), 2. / (n - 1) * ev ** 2, "sampling_covariance", ev ** 2)
            for dof in dofs:
                if n > dof:
                    same(ctx, X.noise_covariance(fit, dof=dof), 4 * ev * ev[2] / (n - dof), "noise_covariance", ev ** 2)
            s = N.array(fit.singular_values)
            cv = 4 * s * s ** 2 / n
            ctx.close(fit.covariance_matrix, N.diag(cv), "covariance matrix of a fit", tol=1e-9, scale=cv[0])
            # angular errors
            hyp = ref_noise(ev, n)
            if hyp.min() > 1e-7 * ev[0]:
                ang = N.arctan(N.sqrt(hyp[2] / hyp[:2]))
                ctx.close(fit.angular_errors(degrees=False), ang, "angular errors (radians)", tol=1e-6)
                ctx.close(fit.angular_errors(), N.degrees(ang), "angular errors", tol=1e-6, scale=60)
                ctx.close(fit.angular_errors(True), N.degrees(ang), "angular errors", tol=1e-6, scale=60)
                ctx.require(isinstance(fit.angular_errors(), tuple) and len(fit.angular_errors()) == 2, "angular errors are a pair")
                if hyp[0] >= hyp[1] * (1 + 1e-6):
                    a = fit.angular_errors()
                    ctx.require(a[0] < a[1], "angular errors {} are not (minimum, maximum)", a)
                for l in (1e-3, .5, 1, 7, 1e4):
                    ctx.close(fit.angular_error(l), N.arctan2(hyp[2], l), "angular error for an axis length", tol=1e-7)
                    ctx.close(X.axis_angular_error(hyp, l), N.arctan2(hyp[2], l), "axis_angular_error", tol=1e-9)
            # options
            for p in ps:
                same(ctx, X.francq_axes(fit, confidence_level=p), ref_francq(ev, n, p), "francq_axes", ev)
                same(ctx, X.francq_axes(fit, p, variance_on_all_axes=False), ref_francq(ev, n, p, False), "francq_axes", ev)
                same(ctx, X.babamoradi_axes(fit, confidence_level=p), ref_baba(ev, n, p), "babamoradi_axes", ev)
                for dof in dofs:
                    if n <= dof:
                        continue
                    z = X.fisher_statistic(n, p, dof=dof)
                    ctx.close(z, quantile(n, p, dof), "fisher_statistic({},{},{})".format(n, p, dof), tol=1e-7)
                    for chisq, voa in itertools.product((False, True), (True, False)):
                        kw = dict(confidence_level=p, dof=dof, chisq=chisq, variance_on_all_axes=voa)
                        rn = ref_noise(ev, n, p, dof, chisq, voa)
                        rs = ref_sampling(ev, n, p, dof, chisq, voa)
                        # unspecified options keep their defaults
                        for drop in ((), ("variance_on_all_axes",), ("chisq",)):
                            if ("chisq" in drop and chisq) or ("variance_on_all_axes" in drop and not voa):
                                continue
                            kk = {k: v for k, v in kw.items() if k not in drop}
                            a = X.noise_axes(fit, **kk)
                            b = X.sampling_axes(fit, **kk)
                            same(ctx, a, rn, "noise_axes({})".format(kk), ev)
                            same(ctx, b, rs, "sampling_axes({})".format(kk), ev)
                            if not drop:
                                same(ctx, X.statistical_axes(fit, method='sampling', **kk), rs, "statistical_axes", ev)
                                same(ctx, X.hyperbolic_axes(fit, type='noise', **kk), rn, "hyperbolic_axes", ev)
                                same(ctx, X.hyperbolic_axes(fit, type='sampling', **kk), rs, "hyperbolic_axes", ev)
            ctx.require(N.array_equal(fit.eigenvalues, N0), "eigenvalues changed")
            ctx.state((n, lens), "min={:.1f}".format(fit.angular_errors()[0]))


def conversions(ctx, vals):
    for ax in ctx.cases(itertools.product(vals, repeat=3)):
        a = N.array(ax, dtype=float)
        with ctx.case(ax):
            k = a.copy()
            ctx.step(3)
            nn = to_normal_errors(a)
            ctx.close(nn, a[2] ** 2 / a, "to_normal_errors", tol=1e-12)
            ctx.close(from_normal_errors(nn), a, "normal errors round trip", tol=1e-9)
            ctx.close(to_normal_errors(from_normal_errors(a)), a, "normal errors round trip", tol=1e-9)
            ctx.require(N.array_equal(k, a), "argument modified")
            ang = X.angular_errors(a)
            ctx.require(len(ang) == 2, "angular errors are a pair")
            ctx.close(ang, N.arctan(N.sqrt(a[2] / a[:2])), "angular_errors", tol=1e-9)
            ctx.state(ax, "{:.0f}".format(N.degrees(ang[0])))


def reconstructed(ctx):
    """Planes without eigenvalues fall back to the error axes they carry"""
    for c in ctx.cases(itertools.product((0, 40, 200), (0, 30, 90), (0, 70), ((1, 5), (3, 3), (.1, 40)), (1, 3.))):
        with ctx.case(c):
            r = ReconstructedPlane(c[0], c[1], c[2], *c[3], normal_error=c[4])
            for kw in ({}, dict(type='sampling'), dict(confidence_level=.5)):
                ctx.step()
                ctx.close(X.hyperbolic_axes(r, **kw), r.hyperbolic_axes, "error axes of a reconstructed plane", tol=1e-12)
            ctx.state(c)


TASKS = dict(methods=methods, conversions=conversions, reconstructed=reconstructed)


def shards(tier):
    if tier == "quick":
        ns = list(range(3, 67)) + [100, 200, 500, 1000, 1001, 5000]
        return (split("methods", 32, ns=ns, ratios=RATIOS[:3], ps=[.95, .01, .5, .6827, .995], dofs=[2, 1, 3])
                + split("methods", 16, ns=[5, 6, 9, 30, 31, 101, 1001], ratios=RATIOS[3:6], ps=[.95, .05, .9, .9545, .9973, .99, .95001, .9999], dofs=[2, 1, 3, 4])
                + split("methods", 8, ns=[10001, 12345, 32769, 100003], ratios=RATIOS[:2], ps=[.95, .5, .9973], dofs=[2, 1])
                + split("methods", 8, ns=[4, 7, 12, 60, 300], ratios=RATIOS[6:], ps=[.95, .68, .6, .75, .8, .85, .98, .997, .999, .99999, .999999], dofs=[2, 1])
                + [("conversions", dict(vals=(1e-12, 1e-9, 1e-6, .01, .5, 1, 2, 30, 1e4, 1e8))), ("reconstructed", {})])
    ns = list(range(3, 401)) + [1000, 1001, 5000, 10001, 20001, 65537]
    return (split("methods", 96, ns=ns, ratios=RATIOS, ps=[.95, .01, .5, .6827, .68, .75, .8, .9, .9545, .99, .9999, .99999], dofs=[2, 1, 3, 4, 5])
            + [("conversions", dict(vals=(1e-12, 1e-9, 1e-6, 1e-3, .01, .1, .5, .9, 1, 2, 7, 30, 1e4, 1e6, 1e8))), ("reconstructed", {})])
