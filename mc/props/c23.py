"""Browser error surfaces cover the plane and its poles, and nothing else."""
import itertools
import json

import numpy as N

from ..engine import part_of, split
from ..frontend import call, decode, encode
from ..universe import frame
from .c22 import SIGNS, Batch, girdle, pole

BOUNDS = dict(
    quick="every 45th strike x dips 5, 30, 60, 85 (a few also .001, .5, 89.5, 89.99) x 8 sign choices of the axes x 4 error triples x 2 layouts x 2 hemispheres: band, two-sheeted pole ellipse at levels 1 and 2 and at lists of levels in any order, drawn plane; all sequences of up to 3 drawings of 4 kinds "
          "sharing one options object; principal axes of 288 planes; all sets of up to 3 of 7 planes; 3 triples of very small errors for the centroids",
    thorough="every 15th strike x 8 dips, 5 error triples; sequences of up to 4 drawings; sets of up to 4 planes")
ASSUMPTIONS = ["functions.ts, math.ts and util.ts are bundled with esbuild; d3 is the copy in the repository (version 4); d3.select is a recorder", "reconstruct.ts imports files that do not exist and is replaced by a stand-in that is not called",
               "error ellipses at level 2 only for angular errors below 22 degrees or in the set of wide errors"]

WIDE = [(9., 4., 3.), (1., 1., 1.), (4., 1., 2.), (2., 1., 30.)]
THIN = [(9., 4., 1e-4), (100., 60., 1e-6), (1e-4, 1e-4, 1e-8)]
TRIPLES = [(9., 4., .25), (100., 1., .04), (4., 4., .36), (400., 25., 4.), (1., .5, .02)]


def ring_area(v):
    """Area (solid angle) enclosed by a convex-ish ring of directions around its mean, by triangles"""
    c = v.mean(axis=0)
    c = c / N.linalg.norm(c)
    w = N.roll(v, -1, axis=0)
    num = N.einsum("ij,ij->i", N.cross(v, w), N.broadcast_to(c, v.shape))
    den = 1 + N.einsum("ij,ij->i", v, w) + v @ c + w @ c
    return abs(2 * N.arctan2(num, den).sum())


def same_ring(a, b, tol=1e-9):
    """Equal as cyclic sequences in either direction"""
    a, b = [tuple(N.round(x, 7)) for x in a], [tuple(N.round(x, 7)) for x in b]
    return sorted(a) == sorted(b)


def surfaces(ctx, strikes, dips, triples, part, parts):
    b = Batch(ctx)
    wide = triples == WIDE
    fine = triples == THIN
    n1, n2 = (200, 160) if fine else (72, 48)
    for s, d, sg, h in part_of(itertools.product(strikes, dips, SIGNS, triples), part, parts):
        A = frame(s, d, 25) * N.array(sg)[:, None]
        sd = N.sqrt(h)
        e = N.arctan2(sd[2], sd[:2])
        n = A[2]
        # inside: in the plane and slightly off it; outside: poles and just beyond the error angle
        ins, outs = [], [n, -n]
        for t in range(7, 360, 40):
            c, q = N.cos(N.radians(t)), N.sin(N.radians(t))
            v = c * sd[0] * A[0] + q * sd[1] * A[1]
            v = v / N.linalg.norm(v)
            w = N.arctan2(sd[2], N.linalg.norm([c * sd[0], q * sd[1]]))
            for f in (-.7, 0, .7):
                ins.append(v * N.cos(f * w) + n * N.sin(f * w))
            for f in (-1, 1):
                a = f * min(1.3 * w, (w + N.pi / 2) / 2)
                outs.append(v * N.cos(a) + n * N.sin(a))
        for trad, up in itertools.product((True, False), repeat=2):
            key = (s, d, sg, h, trad, up)
            base = dict(uid="x<" + str(s), strike=s)
            o = dict(n=n1, traditionalLayout=trad, upperHemisphere=up)
            test = [encode(v, trad, up) for v in ins + outs]
            k = len(ins)

            def fn(ctx, r, A=A, h=h, trad=trad, up=up, base=base, k=k):
                f, g = r["surface"], r["nominal"]
                ctx.require(f["type"] == "Feature" and f["geometry"]["type"] == "Polygon" and len(f["geometry"]["coordinates"]) == 2, "surface is {}", f["type"])
                ctx.require(f["data"] == base and g["data"] == base, "surface does not carry its data")
                ctx.require(g["geometry"]["type"] == "LineString" and g["geometry"]["coordinates"] == r["curves"]["nominal"], "nominal line is not the nominal curve")
                rings = f["geometry"]["coordinates"]
                u, l = r["curves"]["upper"], r["curves"]["lower"]
                ctx.require((same_ring(rings[0], u) and same_ring(rings[1], l)) or (same_ring(rings[0], l) and same_ring(rings[1], u)), "rings are not the upper and lower curve")
                ctx.require(all(r["inside"][:k]), "the surface leaves out directions within the error: {}", r["inside"][:k])
                ctx.require(not any(r["inside"][k:]), "the surface contains directions beyond the error: {}", r["inside"][k:])
                ctx.require(all(r["onband"]), "the surface does not contain the nominal plane")
                caps = ring_area(decode(u, trad, up, True)) + ring_area(decode(l, trad, up, True))
                ctx.require(abs(f["properties"]["area"] - (4 * N.pi - caps)) < .01 * min(1, 4 * N.pi - caps), "area {} instead of {}", f["properties"]["area"], 4 * N.pi - caps)
            b.add(("surface",) + key, dict(fn="surface", cov=h, axes=A.tolist(), opts=o, base=base, test=test), fn)

            props = dict(hyperbolic_axes=h, axes=A.tolist(), note="a")
            if s % 90 == 0:
                props["covariance"] = props.pop("hyperbolic_axes")
            elif s % 90 == 45:
                # the error axes proper are stated besides a covariance of another scale
                props["covariance"] = [x * f for x, f in zip(h, (.25, .5, 3.))]
            for level in (1, 2, [1, 2], [2, 1], [1.5, .5, 1], None) + (([10, 9],) if wide else ()):
                o = dict(n=n2, traditionalLayout=trad, upperHemisphere=up, degrees=True)
                if level is not None:
                    o["level"] = level
                lv = level if isinstance(level, list) else [level or 1]
                near, far = [], []
                for t in range(11, 360, 60):
                    c, q = N.cos(N.radians(t)), N.sin(N.radians(t))
                    for sign in (1, -1):
                        for F, L in ((.6, near), (1.5, far)):
                            v = c / sd[0] * sd[2] * A[0] + q / sd[1] * sd[2] * A[1]
                            L.append(sign * (F * (min(lv) if L is near else max(lv)) * v + n))
                tests = [encode(p, trad, up) for p in near] + [encode(p, trad, up) for p in far] + [encode(n, trad, up), encode(-n, trad, up)]
                kn, kf = len(near), len(far)

                def fn(ctx, r, A=A, h=h, trad=trad, up=up, lv=lv, level=level, kn=kn, kf=kf):
                    ctx.require(len(r) == len(lv) and r[0]["single"] == (not isinstance(level, list)), "{} ellipses for levels {}", len(r), level)
                    flip = 1 if A[2, 2] >= 0 else -1
                    for x, l in zip(r, lv):
                        f = x["feature"]
                        ctx.require(f["geometry"]["type"] == "MultiPolygon" and len(f["geometry"]["coordinates"]) == 2, "ellipse is {}", f["geometry"]["type"])
                        for i, (sheet, poly) in enumerate(zip(("upper", "lower"), f["geometry"]["coordinates"])):
                            ctx.require(len(poly) == 1 and len(poly[0]) == n2, "ellipse has {} rings", len(poly))
                            pts = decode(poly[0], trad, up, True)
                            up_ = pts @ (A[2] * flip)
                            # the first sheet surrounds the upward pole
                            pole(ctx, pts, A * N.array([1, 1, flip])[:, None], h, sheet, l, "ellipse level {}".format(l))
                        ins = x["inside"]
                        ctx.require(all(ins[-2:]), "level {}: the ellipse does not contain the poles: {}", l, ins[-2:])
                        if l == min(lv):
                            ctx.require(all(ins[:kn]), "level {}: the ellipse leaves out directions within the error {}", l, ins[:kn])
                        if l == max(lv):
                            ctx.require(not any(ins[kn:kn + kf]), "level {}: the ellipse contains directions beyond the error {}", l, ins[kn:kn + kf])
                        cap = ring_area(decode(f["geometry"]["coordinates"][0][0], trad, up, True))
                        ctx.require(abs(f["properties"]["area"] - cap) < .02 * cap + 1e-7, "area {} instead of {}", f["properties"]["area"], cap)
                        ctx.require(f["properties"]["level"] == l, "level {} recorded as {}", l, f["properties"]["level"])
                if wide or max(e) * max(lv) < N.pi / 4:
                    b.add(("ellipse",) + key + (level,), dict(fn="ellipse", props=props, opts=o, test=tests), fn)

            for nominal in (None, True, False):
                o = dict(n=24, traditionalLayout=trad, upperHemisphere=up)
                if nominal is not None:
                    o["nominal"] = nominal

                def fn(ctx, log, A=A, h=h, trad=trad, up=up, nominal=nominal, props=props):
                    ctx.require(len(log) == (1 if nominal is False else 2) and all(x["tag"] == "path" for x in log), "drew {}", [x["tag"] for x in log])
                    f = log[0]["datum"]
                    ctx.require(log[0]["attrs"].get("class") == "error" and log[0]["classes"] == dict(unconstrained=h[2] > h[1]), "first path is {} {}", log[0]["attrs"], log[0]["classes"])
                    ctx.require(f["data"]["note"] == "a" and f["geometry"]["type"] == "Polygon", "surface without its data")
                    if nominal is not False:
                        g = log[1]["datum"]
                        ctx.require(log[1]["attrs"].get("class") == "nominal" and g["geometry"]["type"] == "LineString", "second path is {}", log[1]["attrs"])
                        girdle(ctx, decode(g["geometry"]["coordinates"], trad, up, True), A, h, "nominal", up, "drawn plane")
                    for ring in f["geometry"]["coordinates"]:
                        c = decode(ring, trad, up, True) @ A.T
                        ctx.require(N.abs(N.hypot(c[:, 0] / sd_(h)[0], c[:, 1] / sd_(h)[1]) - N.abs(c[:, 2]) / sd_(h)[2]).max() < 1e-5, "ring is not on the error cone")
                b.add(("plane",) + key + (nominal,), dict(fn="plane", props=props, opts=o), fn)
    b.finish()


def sd_(h):
    return N.sqrt(N.array(h))


STEPS = dict(
    planeA=("plane", 40, 30, 1), planeB=("plane", 200, 70, -1), ellipseA=("ellipse", 40, 30, 1), ellipseB=("ellipse", 200, 70, -1))


def step(k):
    kind, s, d, sg = STEPS[k]
    return dict(kind=kind, props=dict(hyperbolic_axes=[9., 4., .25 * (1 + (s > 100))], axes=(frame(s, d, 25) * N.array([1, 1, sg])[:, None]).tolist()))


def shared(ctx, depth, part, parts):
    seqs = list(itertools.chain(*[itertools.product(sorted(STEPS), repeat=n) for n in range(1, depth + 1)]))
    for trad in (True, False):
        o = dict(degrees=True, traditionalLayout=trad, n=24, level=1)
        # every drawing alone
        ref = {k: json.dumps(v["value"][0]) for k, v in zip(sorted(STEPS), call([dict(fn="sequence", opts=dict(o), steps=[step(k)]) for k in sorted(STEPS)]))}
        b = Batch(ctx)
        for seq in part_of(seqs, part, parts):
            def fn(ctx, v, seq=seq):
                ctx.depth(len(seq))
                for k, x in zip(seq, v):
                    ctx.require(json.dumps(x) == ref[k], "{} differs in {}", k, seq)
            b.add(("shared", trad, seq), dict(fn="sequence", opts=dict(o), steps=[step(k) for k in seq]), fn)
        b.finish()


def principal(ctx):
    b = Batch(ctx)
    for s, d, sg, sv in itertools.product(range(0, 360, 60), (0, 35, 90), SIGNS, ((5., 2., .3), (1., 1., 1.), (800., 30., 2e-4), (1e-5, 4e-6, 1e-8), (2., 2., 7.))):
        A = frame(s, d, 15) * N.array(sg)[:, None]
        P = (A * N.array(sv)).tolist()   # as BaseOrientation.principal_axes

        def fn(ctx, v, A=A, sv=sv):
            ctx.close(N.array(v[0]) / sv, N.ones(3), "singular values", 1e-9)
            ctx.close(v[1], A, "axes", 1e-9)
        b.add(("deconvolve", s, d, sg, sv), dict(fn="deconvolve", axes=P), fn)
        b.add(("convolve", s, d, sg, sv), dict(fn="convolve", axes=A.tolist(), sv=sv), lambda ctx, v, P=P: ctx.close(v, P, "principal axes", 1e-9, N.abs(P).max()))
        b.add(("roundtrip", s, d, sg, sv), dict(fn="roundtrip", axes=A.tolist(), sv=sv), fn)
    b.finish()


PLANES = [(0, 0, 0, 3), (10, -4, 2, 5), (-3, 8, 1, 1), (4, 4, 4, 0), (1000, 2000, -50, 8), (.5, .25, .125, 2), (-7, -7, -7, 4)]


def centroids(ctx, depth):
    b = Batch(ctx)
    for k in range(1, depth + 1):
        for seq in itertools.permutations(range(len(PLANES)), k):
            ps = [dict(data=dict(center=list(PLANES[i][:3]), **({} if PLANES[i][3] == 0 else dict(centered_array=[[0, 0, 0]] * PLANES[i][3])))) for i in seq]
            C = N.array([PLANES[i][:3] for i in seq], dtype=float)
            W = N.array([PLANES[i][3] for i in seq], dtype=float)
            b.add(("extrema", seq), dict(fn="centroidExtrema", planes=ps), lambda ctx, v, C=C: ctx.close(v, (C.min(axis=0) + C.max(axis=0)) / 2, "centre of extremes", 1e-9))
            if W.sum() > 0:
                b.add(("average", seq), dict(fn="centroidAverage", planes=ps), lambda ctx, v, C=C, W=W: ctx.close(v, (C * W[:, None]).sum(axis=0) / W.sum(), "average centre", 1e-9))
    b.finish()


TASKS = dict(surfaces=surfaces, shared=shared, principal=principal, centroids=centroids)


def shards(tier):
    t = tier == "thorough"
    out = split("surfaces", 48 if t else 16, strikes=list(range(0, 360, 15 if t else 45)), dips=[0, 5, 20, 30, 45, 60, 85, 90] if t else [5, 30, 60, 85], triples=TRIPLES if t else TRIPLES[:4])
    out += split("surfaces", 16 if t else 4, strikes=[0, 130] if not t else list(range(0, 360, 30)), dips=[20, 60] if not t else [5, 20, 45, 60, 85], triples=WIDE)
    out += split("surfaces", 4, strikes=[0, 100, 250], dips=[.001, .5, 89.5, 89.99], triples=TRIPLES[:1])
    out += split("surfaces", 4, strikes=[10, 190], dips=[4, 50, 86], triples=THIN)
    out += split("shared", 2, depth=4 if t else 3)
    out += [("principal", {}), ("centroids", dict(depth=4 if t else 3))]
    return out
