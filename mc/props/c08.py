"""A fit's mapping is complete, faithful JSON."""
import copy
import itertools
import json

import numpy as N
from attitude.error import pca_to_mapping
from attitude.error.axes import noise_axes, sampling_axes
from attitude.orientation import PCAOrientation, ReconstructedPlane, create_groups
from attitude.orientation.grouped import GroupedOrientation, disable_orientations

from ..engine import part_of, split
from ..universe import GRID3, frame, layout, octa, spiral

BOUNDS = dict(
    quick="25 kinds of planes x 12 orientations x all sets of up to 3 caller-supplied values out of 28; fits of 60 to 5000 points, with large and very small coordinates, and a group of 7; all 3-subsets of {0,1,2}^3",
    thorough="25 kinds x 40 orientations x all sets of up to 4 caller-supplied values; all 3- and 4-subsets")
ASSUMPTIONS = []

SUPPLY = [("name", "A <b>&\u00e9"), ("color", "#aabbcc"), ("strike", 12.5), ("dip", 3), ("rake", None), ("centered_array", [[1, 2, 3]]),
          ("center", [9, 9, 9]), ("uid", "mine"), ("axes", [[1, 0, 0]]), ("disabled", True), ("hyperbolic_axes", [3, 2, 1]),
          ("members", ["x"]), ("member_of", "nobody"), ("max_angular_error", 77.), ("nested", {"a": [1, {"b": None}]}), ("disabled", False),
          ("strike", 0), ("uid", ""), ("center", []), ("flag", False), ("name", ""), ("center", None), ("centered_array", None),
          ("_note", 1), ("a key with spaces", [-1.5e300, "\u2028"]), ("N", {}), ("", 0), ("offset", -2.5)]


def plane(kind, f):
    E = frame(*f)
    arr = spiral(9, (5., 2., .3)).dot(E) + (30, 20, 10)
    b = spiral(6, (3., 2., .2)).dot(E) + (-30, 4, 8)
    if kind in ("n60", "n101", "n1001", "n5000"):
        return PCAOrientation(spiral(int(kind[1:]), (5., 2., .3)).dot(E) + (3, 4, 5))
    if kind == "utm":
        return PCAOrientation(arr + (500123.4567891, 4123456.7891234, 1234.56789123))
    if kind == "tiny":
        return PCAOrientation(arr * 1.2345678e-6)
    if kind == "group7":
        return GroupedOrientation(*[PCAOrientation(arr * (1 + i) + i) for i in range(7)])
    if kind == "pca":
        return PCAOrientation(arr)
    if kind in ("inverted", "upright"):
        q = PCAOrientation(arr)
        sg = N.array([1, -1, -1] if kind == "inverted" else [-1, 1, 1])[:, None]
        return PCAOrientation(arr, axes=q.axes * (N.sign(q.axes[2, 2]) or 1) * sg * q.singular_values)
    if kind == "weighted":
        return PCAOrientation(arr, weights=N.array([1., 2., 3.]))
    if kind in ("int64", "float32"):
        return PCAOrientation(layout(N.round(arr * 10), kind))
    if kind == "centred":
        # its centre is exactly the origin
        return PCAOrientation(N.array([[-2., 0, 1], [2, 0, -1], [0, 1, 3], [0, -1, -3], [0, 0, 0]]) * (1 + f[0] % 3))
    if kind == "flat":
        return PCAOrientation(octa((5, 2, 0.), 7)[0].dot(E))
    if kind == "disabled":
        p = PCAOrientation(arr)
        disable_orientations([p], p.hash)
        return p
    if kind in ("group", "group-same"):
        return GroupedOrientation(PCAOrientation(arr), PCAOrientation(b), same_plane=kind == "group-same")
    if kind == "group-off":
        # a group in use whose members are all switched off, and the reverse
        g = GroupedOrientation(PCAOrientation(arr), PCAOrientation(b))
        for m in g.members:
            m.disabled = True
        return g
    if kind == "off-group":
        g = GroupedOrientation(PCAOrientation(arr), PCAOrientation(b))
        g.disabled = True
        return g
    if kind == "member-of-off":
        g = GroupedOrientation(PCAOrientation(arr), PCAOrientation(b))
        g.disabled = True
        return g.members[0]
    if kind == "group3":
        return create_groups([PCAOrientation(arr), PCAOrientation(b), PCAOrientation(b[::-1] * 2)],
                             [PCAOrientation(b[::-1] * 2).hash, PCAOrientation(arr).hash])[-1]
    if kind == "member":
        return GroupedOrientation(PCAOrientation(arr), PCAOrientation(b)).members[1]
    if kind == "disabled-member":
        m = GroupedOrientation(PCAOrientation(arr), PCAOrientation(b)).members[0]
        m.disabled = True
        return m
    if kind == "released":
        # a former member whose group is not part of the collection any more
        m = GroupedOrientation(PCAOrientation(arr), PCAOrientation(b)).members[0]
        return create_groups([m])[0]
    if kind == "reconstructed":
        return ReconstructedPlane(f[0], f[1], f[2], 2., 9.)
    if kind == "reconstructed-int":
        return ReconstructedPlane(int(f[0]), int(f[1]), int(f[2]), 3, 3, normal_error=2)
    if kind == "restored-float32":
        return PCAOrientation(arr, axes=PCAOrientation(arr).principal_axes.astype("float32"))
    if kind == "weights-float32":
        return PCAOrientation(arr.astype("float32"), weights=N.ones(3, dtype="float32"))
    if kind.startswith("reconstructed-"):
        t = getattr(N, kind[14:])
        return ReconstructedPlane(t(f[0]), t(f[1]), t(f[2]), t(3), t(4))
    raise KeyError(kind)


LARGE = ["n60", "n101", "n1001", "n5000", "group7", "utm", "tiny"]
KINDS = ["pca", "inverted", "upright", "weighted", "int64", "float32", "flat", "centred", "disabled", "group", "group-same", "group3", "group-off", "off-group", "member-of-off", "member",
         "disabled-member", "released", "reconstructed", "reconstructed-int",
         "restored-float32", "weights-float32", "reconstructed-float32", "reconstructed-float64", "reconstructed-int64"]


def expected(p, group_out=None):
    s, d, r = p.strike_dip_rake()
    mn, mx = p.angular_errors()
    e = dict(uid=p.hash, axes=N.asarray(p.axes).tolist(), hyperbolic_axes=N.asarray(p.hyperbolic_axes).tolist(), strike=s, dip=d, rake=r,
             min_angular_error=mn, max_angular_error=mx, disabled=bool(p.disabled))
    fixed = {}
    if isinstance(p, PCAOrientation):
        e["center"] = N.asarray(p.center).tolist()
        e["centered_array"] = None if hasattr(p, "members") else N.asarray(p.centered_array).tolist()
        if hasattr(p, "members"):
            fixed["members"] = [m.hash for m in p.members]
        if p.member_of is not None:
            fixed["member_of"] = p.member_of.hash
    return e, fixed


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def check(ctx, p, supplied):
    ctx.step()
    e, fixed = expected(p)
    want = dict(e, **supplied)
    want.update(fixed)
    keep = copy.deepcopy(supplied)
    m = p.to_mapping(**supplied)
    ctx.require(isinstance(m, dict), "mapping is a {}", type(m))
    for k in want:
        if not ctx.require(k in m, "{} is missing from the mapping", k):
            continue
        ctx.require(same(m[k], want[k]), "{} is {} instead of {}", k, str(m[k])[:200], str(want[k])[:200])
    extra = set(m) - set(want)
    ctx.require(not extra, "unexpected entries {}", sorted(extra))
    ctx.require(same(supplied, keep), "supplied values were altered")
    try:
        t = json.dumps(m)
    except (TypeError, ValueError) as x:
        ctx.fail("mapping is not JSON: {}".format(x))
        return
    ctx.require(same(json.loads(t), m), "mapping does not survive JSON")
    # asking again gives the same
    ctx.require(same(p.to_mapping(), dict(e, **fixed)), "second mapping differs (a supplied value stuck)")
    if isinstance(p, PCAOrientation):
        # it is the geometry, not merely the accessor's opinion
        ctx.require(same(m["axes"], N.asarray(p.axes).tolist()) or "axes" in supplied, "axes")
        if "centered_array" not in supplied and not hasattr(p, "members"):
            ctx.close(N.array(m["centered_array"]) + N.array(e["center"]), N.asarray(p.array, dtype=float), "centred points plus centre",
                      tol=1e-4 if p.array.dtype == N.float32 else 1e-9)


def kinds(ctx, part, parts, frames, upto, which=None):
    sets = [c for r in range(upto + 1) for c in itertools.combinations(range(len(SUPPLY)), r) if len({SUPPLY[i][0] for i in c}) == r]
    for kind, f in ctx.cases(part_of(itertools.product(which or KINDS, frames), part, parts)):
        p = plane(kind, f)
        for c in sets:
            with ctx.case((kind, f, c)):
                check(ctx, p, {k: copy.deepcopy(v) for k, v in (SUPPLY[i] for i in c)})
                ctx.state((kind, f, c), kind)
        with ctx.case((kind, f)):
            if isinstance(p, PCAOrientation):
                for meth in (None, sampling_axes, noise_axes):
                    kw = {} if meth is None else dict(method=meth)
                    m = pca_to_mapping(p, name="q", **kw)
                    ctx.step()
                    ctx.require(set(m) == {"axes", "covariance", "name"} and m["name"] == "q", "pca_to_mapping {}", sorted(m))
                    ctx.require(same(m["axes"], N.asarray(p.axes).tolist()), "pca_to_mapping axes")
                    ctx.require(same(m["covariance"], (meth or sampling_axes)(p).tolist()), "pca_to_mapping covariance")
                    json.dumps(m)


def collection(ctx):
    """Mappings of a whole collection describe its groups"""
    for gs in ctx.cases([((0, 1),), ((0, 1), (2, 3)), ((3, 1, 0),), ((2,),), ((1, 2), (0,)), ()]):
        with ctx.case(gs):
            fits = [PCAOrientation(spiral(5 + i, (5., 2. + i, .3)).dot(frame(20 + 50 * i, 10 + 15 * i, 30)) + (10 * i, i, 1)) for i in range(4)]
            uids = [f.hash for f in fits]
            coll = create_groups(fits, *[[uids[i] for i in g] for g in gs])
            maps = json.loads(json.dumps([o.to_mapping() for o in coll]))
            ctx.step(len(maps))
            ctx.require([m["uid"] for m in maps[:4]] == uids, "identifiers")
            for g, m in zip(gs, maps[4:]):
                ctx.require(m["members"] == [uids[i] for i in g], "members of {}", g)
            for i, m in enumerate(maps[:4]):
                own = [mm["uid"] for g, mm in zip(gs, maps[4:]) if i in g]
                ctx.require(m.get("member_of") == (own[0] if own else None) and ("member_of" in m) == bool(own), "member_of of {}", i)
                ctx.require("members" not in m, "a measurement lists members")
            ctx.state(("coll", gs))


def lattice(ctx, k, part, parts):
    for idx in ctx.cases(part_of(itertools.combinations(range(27), k), part, parts)):
        with ctx.case(idx):
            p = PCAOrientation(N.array([GRID3[i] for i in idx], dtype=float))
            check(ctx, p, {"name": "x"})
            ctx.state(("lat", idx))


TASKS = dict(kinds=kinds, collection=collection, lattice=lattice)
F12 = [(0, 0, 0), (20, 30, 40), (90, 90, 10), (200, 75, 100), (310, 3, 60), (45, 45, 0), (340, 89, 170), (150, 60, 95), (180, 10, 5), (270, 45, 120), (1, 1, 1), (359, 88, 3)]
F40 = [(s, d, p) for s in (0, 45, 90, 190, 359) for d in (0, 1, 45, 90) for p in (0, 120)]


def shards(tier):
    if tier == "quick":
        return split("kinds", 16, frames=F12, upto=2) + split("kinds", 8, frames=F12[1:2], upto=3) + split("kinds", 4, frames=F12[:6], upto=1, which=LARGE) + [("collection", {})] + split("lattice", 4, k=3)
    return split("kinds", 32, frames=F40, upto=3) + split("kinds", 16, frames=F12[1:2], upto=5) + split("kinds", 8, frames=F12, upto=2, which=LARGE) + [("collection", {})] + split("lattice", 4, k=3) + split("lattice", 8, k=4)
