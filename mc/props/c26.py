"""A browser stereonet keeps all it shows in step with its projection."""
import itertools
import re

import numpy as N

from ..engine import part_of, split
from ..frontend import call, decode
from ..universe import frame
from .c22 import Batch, girdle, pole

BOUNDS = dict(
    quick="every sequence of up to 3 of 19 events (size, margin, clip angle, centre, rotation, planes, poles, labels, refresh, drags, deferred calls) on a shown stereonet beside a second one; "
          "every sequence of up to 3 of 13 settings before it is shown; every sequence of up to 5 mouse events over two stereonets; shapes of 48 planes; opacities for all pairs of settings; 108 sizes, margins and clip angles x 1 to 30 planes and poles x 8 rotations",
    thorough="sequences of up to 4 events for the 12 that interact; 4 settings; 6 mouse events; shapes of 320 planes")
ASSUMPTIONS = ["stereonet/index.ts, labels.ts and interaction.ts are bundled with esbuild and run on d3 version 4 from the repository in a document of a hundred lines; chroma-js and uuid are stand-ins",
               "the projection itself (equal area) and the drawing of paths are d3's", "the size of the disc for a given clip angle is not judged, only that it does not depend on history"]

A = [dict(axes=frame(40, 30, 25).tolist(), hyperbolic_axes=[9., 4., .25], color="teal", max_angular_error=3.)]
B = [dict(axes=frame(200, 70, 25).tolist(), hyperbolic_axes=[9., 4., .5], color="red", maxError=1.), dict(axes=(-frame(10, 5, 80)).tolist(), hyperbolic_axes=[4., 1., .01], color="#0f0")]
EVENTS = {
    "size": [["size", 500]], "margin": [["margin", 40]], "narrow": [["clipAngle", 45]], "wide": [["clipAngle", 90]], "center": [["center", [30, 40]]], "vertical": [["center", "vertical"]],
    "rotate": [["rotate", [20, -30]]], "roll": [["rotate", [-100, 80, 15]]], "planesA": [["planes", A]], "planesB": [["planes", B, dict(selector="g.other", color="own")]],
    "polesA": [["ellipses", A]], "polesB": [["ellipses", B, dict(selector="g.more", color="black", level=2)]], "refresh": [["refresh"]], "labels": [["labels"]],
    "drag": [["down", 10, 20], ["move", 40, 5], ["up", 43, 2], ["move", 300, 300]], "dragfar": [["down", 0, 0], ["move", 90, 1200], ["up", 90, 1200]], "hover": [["move", 77, 7], ["up", 5, 5]],
    "call": [["call", 7]], "listen": [["listen"]]}
SETTINGS = {"size": [["size", 500]], "small": [["size", 120]], "margin": [["margin", 40]], "narrow": [["clipAngle", 45]], "narrower": [["clipAngle", 30]], "wide": [["clipAngle", 90]],
            "center": [["center", [30, 40]]], "rotate": [["rotate", [20, -30]]], "graticule": [["graticule", 15, 30]], "call": [["call", 7]], "labels": [["labels"]], "data": [["data", [1, 2]]], "listen": [["listen"]]}


class Model(object):
    """What one stereonet should look like"""

    def __init__(self):
        self.init, self.size, self.margin, self.clip, self.rotate = False, 300, 20, 90, [0., 0., 0.]
        self.groups, self.calls, self.queue, self.labels, self.added = {}, [], [], 0, []
        self.stale, self.slabels = False, False
        self.down = None
        self.step = [[10, 10], [90, 10]]
        self.heard = self.prevented = self.listening = 0
        self.countable = True

    def turn(self, r, tell=True):
        self.rotate = [float(i) for i in list(r) + [0.] * (3 - len(r))]
        self.stale = self.slabels = False
        if tell:
            self.heard += self.listening

    def do(self, ev, *a):
        if ev == "init":
            self.init = True
            for q in self.queue:
                q()
        elif ev == "size":
            self.size, self.stale, self.slabels = a[0], True, True
        elif ev == "margin":
            self.margin, self.stale, self.slabels = a[0], True, True
        elif ev == "clipAngle":
            self.clip, self.rotate, self.stale, self.slabels = a[0], [0., -90., 0.], True, True
        elif ev == "center":
            # whether listeners hear of this is left open
            self.countable = self.countable and not self.listening
            self.turn([0, 90] if a[0] == "vertical" else a[0], False)
        elif ev == "rotate":
            self.turn(a[0])
        elif ev == "graticule":
            self.step = [[a[0], a[1]], [90, a[1]]]
        elif ev in ("refresh", "draw"):
            self.stale = False
        elif ev == "listen":
            self.listening = 1
        elif ev == "call":
            f = lambda: self.calls.append([True, a[0], "second", True])
            f() if self.init else self.queue.append(f)
        elif ev == "labels":
            def f():
                self.labels += 1
                self.stale = self.slabels = False
            f() if self.init else self.queue.append(f)
        elif ev in ("planes", "ellipses"):
            o = a[1] if len(a) > 1 else {}
            cls = o.get("selector", "g.planes" if ev == "planes" else "g.poles")[2:]
            g = self.groups.setdefault((ev, cls), [])
            new = list(a[0])[len(g):]
            self.added.append(len(new))
            c = o.get("color")
            g += [(d, d["color"] if c == "own" or (c is None and ev == "ellipses") else c or "#aaaaaa") for d in new]
            self.stale = False
        elif ev == "down":
            self.down = (a[0], a[1], list(self.rotate))
            self.prevented += 1

    def move(self, x, y, up):
        if self.down is None:
            return
        u, v, o = self.down
        self.turn([o[0] + (x - u) / 3., max(-90., min(90., o[1] + (v - y) / 3.))])
        if up:
            self.down = None


def play(models, events):
    for i, ev, *a in events:
        if ev in ("move", "up"):
            for m in models:
                m.move(a[0], a[1], ev == "up")
        else:
            models[i].do(ev, *a)


def wrapped(a):
    return (a + 180) % 360 - 180


DIRECTIONS = dict(N=(180, 0), E=(90, 0), S=(0, 0), W=(-90, 0), Up=(0, 90), Down=(0, -90))


def xyz(lon, lat):
    lon, lat = N.radians(lon), N.radians(lat)
    return N.array([N.cos(lat) * N.cos(lon), N.cos(lat) * N.sin(lon), N.sin(lat)])


def look(ctx, o, m, ref, msg):
    ctx.require(o["init"] == m.init, "{}: shown", msg)
    ctx.require(o["size"] == m.size and o["margin"] == m.margin and o["clipAngle"] == m.clip and o["inner"] == m.size - m.margin, "{}: settings read {} instead of {}", msg,
                [o[k] for k in ("size", "margin", "clipAngle", "inner")], (m.size, m.margin, m.clip))
    ctx.require(o["step"] == m.step, "{}: graticule {} instead of {}", msg, o["step"], m.step)
    for k in ("rotate", "turned", "centre"):
        if not ctx.require(isinstance(o[k], list) and all(abs(wrapped(x - y)) < 1e-6 for x, y in zip(o[k], m.rotate)) and len(o[k]) == 3, "{}: {} is {} instead of {}", msg, k, o[k], m.rotate):
            return
    ctx.require(o["calls"] == m.calls, "{}: calls {} instead of {}", msg, o["calls"], m.calls)
    if m.countable:
        ctx.require(o["heard"] == m.heard, "{}: {} rotations heard of instead of {}", msg, o["heard"], m.heard)
    ctx.require(o["prevented"] == m.prevented, "{}: default drags prevented", msg)
    if not m.init:
        return
    ctx.require(o["translate"] == [m.size / 2, m.size / 2] and o["element"] == [str(m.size)] * 2, "{}: centre {} in an element of {} instead of {}", msg, o["translate"], o["element"], m.size)
    r = ref[(m.size, m.margin, m.clip)]
    ctx.require(abs(o["scale"] - r["scale"]) < 1e-9 and abs(o["clip"] - r["clip"]) < 1e-9, "{}: scale {} and clip angle {} instead of {} and {} for the same settings", msg, o["scale"], o["clip"], r["scale"], r["clip"])
    if abs(m.rotate[1]) < 89.9 and m.clip <= 90:
        ctx.require(abs(wrapped(o["at"][0] + m.rotate[0])) < 1e-6 and abs(o["at"][1] + m.rotate[1]) < 1e-6, "{}: centre of view {} for a rotation of {}", msg, o["at"], m.rotate)
    ctx.require(o["refs"] and len(set(o["ids"])) == len(o["ids"]), "{}: references", msg)
    bad = [p["where"] for p in o["paths"] if not p["ok"]]
    if not m.stale:
        ctx.require(o["grid"], "{}: the graticule drawn is not the one set", msg)
        ctx.require(not bad, "{}: {} of {} paths are not the projection of their data, such as {}", msg, len(bad), len(o["paths"]), bad[:1])
    n = 2 + sum(len(g) * (2 if k[0] == "planes" else 1) for k, g in m.groups.items()) + 7 * m.labels
    ctx.require(len(o["paths"]) == n, "{}: {} paths instead of {}", msg, len(o["paths"]), n)
    ctx.require(sum(p["where"][:1] == ["graticule"] for p in o["paths"]) == 1, "{}: graticule", msg)
    for kind, seen, kids in (("planes", o["planes"], ["error", "nominal"]), ("ellipses", o["poles"], ["error"])):
        want = sorted((cls, d["color"], c) for (k, cls), g in m.groups.items() if k == kind for d, c in g)
        got = sorted((i["group"], i["colour"], i["fill"]) for i in seen)
        ctx.require(got == want, "{}: {} are {} instead of {}", msg, kind, got, want)
        for i in seen:
            ctx.require([" ".join(k for k in (q or "").split() if k != "unconstrained") for q in i["kids"]] == kids and all(j in (i["colour"], None) for j in i["own"]), "{}: parts of {}", msg, i["kids"])
            if kind == "planes":
                ctx.require(i["stroke"].split("-")[0] == i["fill"] and i["own"] == [i["colour"]] * 2, "{}: nominal plane is {}", msg, i["stroke"])
    ctx.require(len(o["labels"]) == 6 * m.labels, "{}: {} labels", msg, len(o["labels"]))
    if not m.slabels:
        c = xyz(-m.rotate[0], -m.rotate[1])
        for l in o["labels"]:
            d = xyz(*DIRECTIONS[l["name"]])
            dist = N.arccos(N.clip(c.dot(d), -1, 1))
            v = l["name"] in ("Up", "Down")
            if dist > N.pi / 2 + .02 or dist < .009 or (v and dist < N.pi / 4 - .01):
                want = "none"
            elif .02 < dist < N.pi / 2 and (not v or dist > N.pi / 4 + .01):
                want = "inline"
            else:
                want = None
            ctx.require(l["text"] == l["name"], "{}: label {}", msg, l["text"])
            ctx.require(want is None or l["display"] == want, "{}: label {} is {} instead of {} at {} degrees from the centre", msg, l["name"], l["display"], want, round(N.degrees(dist)))
            t = [float(i) for i in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", l["transform"])]
            if l["at"] and want == "inline":
                ctx.require(N.hypot(t[0] - l["at"][0], t[1] - l["at"][1]) < 15, "{}: label {} at {} instead of near {}", msg, l["name"], t, l["at"])
                if abs(l["at"][0] - m.size / 2) > 21:
                    ctx.require(l["anchor"] == ("end" if l["at"][0] < m.size / 2 else "start"), "{}: label {} runs into the net", msg, l["name"])


def reference(keys=None):
    """Projections of stereonets that were only ever set once"""
    keys = keys or list(itertools.product((300, 500, 120), (20, 40), (90, 45, 30)))
    r = call([dict(nets=[{}], events=[[0, "clipAngle", c], [0, "margin", m], [0, "size", s], [0, "init"]]) for s, m, c in keys], "stereonet.js")
    return {k: dict(scale=v["value"]["end"][0]["scale"], clip=k[2]) for k, v in zip(keys, r)}


def judge(b, ref, key, events, nets, depth):
    models = [Model() for _ in nets]
    play(models, events)

    def fn(ctx, v):
        ctx.depth(depth)
        ctx.require(v["chained"], "a setting does not return the stereonet")
        ctx.require(v["added"] == models[0].added + models[1].added if len(models) > 1 else v["added"] == models[0].added, "drawings added {} groups", v["added"])
        for i, (o, m) in enumerate(zip(v["end"], models)):
            look(ctx, o, m, ref, "stereonet {}".format(i))
        ids = [o["uid"] for o in v["end"]] + [i for o in v["end"] for i in o.get("ids", ())]
        ctx.require(len(set(ids)) == len(ids), "identifiers are shared: {}", sorted(ids))
    b.add(key, dict(fn="history", nets=nets, events=events, **({} if depth < 2 else dict(precision=0))), fn)


def histories(ctx, events, depth, part, parts):
    """Shown stereonets; the second one shows a plane and is left alone"""
    ref = reference()
    b = Batch(ctx, "stereonet.js")
    seqs = (s for n in range(depth + 1) for s in itertools.product(events, repeat=n))
    for seq in part_of(seqs, part, parts):
        if seq.count("labels") > 1:
            continue
        ev = [[0, "init"]] + [[0] + e for k in seq for e in EVENTS[k]] + [[1, "init"], [1, "planes", A]]
        judge(b, ref, ("history", seq), ev, [{}, dict(interactive=False)], len(seq))
    b.finish()


def settings(ctx, depth, part, parts):
    """Settings made and work handed over before there is an element"""
    ref = reference()
    b = Batch(ctx, "stereonet.js")
    seqs = (s for n in range(depth + 1) for s in itertools.product(sorted(SETTINGS), repeat=n))
    for seq in part_of(seqs, part, parts):
        if seq.count("labels") > 1:
            continue
        pre = [[0] + e for k in seq for e in SETTINGS[k]]
        judge(b, ref, ("before", seq), pre, [{}], len(seq))
        judge(b, ref, ("shown", seq), pre + [[0, "init"], [0, "planes", A], [0, "refresh"]], [{}], len(seq) + 1)
    with ctx.case(("discs",)):
        ctx.step()
        for (z, g, c), r in sorted(ref.items()):
            for k in ((500, g, c), (z, 20, c)):
                ctx.require(k == (z, g, c) or k not in ref or (k[0] < z or k[1] > g) or ref[k]["scale"] > r["scale"], "size and margin {} are as wide as {}", (z, g, c), k)
        ctx.state(("discs",), outcome="discs")
    for ev in ("planes", "ellipses"):
        case = ("early", ev)
        with ctx.case(case):
            ctx.step()
            r = call([dict(nets=[{}], events=[[0, ev, A]])], "stereonet.js")[0]
            ctx.require("error" in r and "initialized" in r["error"], "drawing {} without an element: {}", ev, r)
            ctx.state(case, outcome="refused")
    b.finish()


MOUSE = [(i, k) for i in (0, 1) for k in ("down",)] + [(None, "move"), (None, "up"), (None, "away"), (0, "rotate")]


def mouse(ctx, depth, part, parts):
    """Two stereonets on one page"""
    ref = reference()
    b = Batch(ctx, "stereonet.js")
    for seq in part_of((s for n in range(1, depth + 1) for s in itertools.product(range(len(MOUSE)), repeat=n)), part, parts):
        ev = [[0, "init"], [1, "init"], [1, "rotate", [5, 5]], [0, "listen"], [1, "listen"]]
        for j, k in enumerate(seq):
            i, name = MOUSE[k]
            x, y = 10 * j * (-1) ** j + 3, 7 * j + 1
            ev += {"down": [[i, "down", x, y]], "move": [[0, "move", x, y]], "up": [[0, "up", x, y]], "away": [[0, "move", 10 * x + 1000, 500 - 9 * y]], "rotate": [[0, "rotate", [40, -20]]]}[name]
        judge(b, ref, ("mouse", seq), ev, [{}, {}], len(seq))
    b.finish()


def shapes(ctx, strikes, dips):
    """Planes and poles are handed to the projection where they are"""
    b = Batch(ctx, "stereonet.js")
    h = [9., 4., .25]
    for s, d, sg in itertools.product(strikes, dips, (1, -1)):
        X = frame(s, d, 25) * N.array([1, 1, sg])[:, None]
        p = [dict(axes=X.tolist(), hyperbolic_axes=h, color="teal")]
        for level in (None, 2):
            o = {} if level is None else dict(level=level)

            def fn(ctx, v, X=X, level=level):
                o = v["end"][0]
                (err, nom), = [i["shapes"] for i in o["planes"]]
                girdle(ctx, decode(nom["coordinates"], False, True, True), X, h, "nominal", True, "nominal plane")
                for ring in err["coordinates"]:
                    c = decode(ring, False, True, True) @ X.T
                    sd = N.sqrt(h)
                    ctx.require(N.abs(N.hypot(c[:, 0] / sd[0], c[:, 1] / sd[1]) - N.abs(c[:, 2]) / sd[2]).max() < 1e-5, "ring is not on the error cone")
                (ell,), = [i["shapes"] for i in o["poles"]]
                U = X * N.array([1, 1, 1 if X[2, 2] >= 0 else -1])[:, None]
                for sheet, poly in zip(("upper", "lower"), ell["coordinates"]):
                    pole(ctx, decode(poly[0], False, True, True), U, h, sheet, level or 1, "poles")
            b.add(("shape", s, d, sg, level), dict(fn="shape", nets=[{}], events=[[0, "init"], [0, "ellipses", p] + ([o] if o else []), [0, "planes", p]], full=True), fn)
    b.finish()


def certainty(ctx):
    """More certain planes are more opaque, within the limits that are set"""
    b = Batch(ctx, "stereonet.js")
    errs = [0, .1, 1, 2, 3, 4.9, 5, 6, 9, 11, 20, 90]
    options = dict(max=[2, 10], domain=[[1, 4]], alphaScale=[[[0, 20], [1, .5]]], angularError=["other"])
    sets = [[]] + [[(k, v)] for k in sorted(options) for v in options[k]] + [[(k, v), (l, w)] for k, l in itertools.permutations(sorted(options), 2) for v in options[k] for w in options[l]
                                                                            if not ({k, l} <= {"max", "domain", "alphaScale"})]
    for st, acc, key in itertools.product(sets, (False, True), ("max_angular_error", "maxError")):
        planes = [{"color": "teal", key: e, "other": e / 2} for e in errs] + [{"color": "nocolour", key: 1, "other": 1}, {key: 1, "other": 1}]
        lim = dict(st)
        dom, rng = (0., 5.), (.8, .1)
        if "max" in lim:
            dom = (0., float(lim["max"]))
        if "domain" in lim:
            dom = tuple(lim["domain"])
        if "alphaScale" in lim:
            dom, rng = lim["alphaScale"]

        def fn(ctx, v, lim=lim, dom=dom, rng=rng):
            ctx.require(v["set"], "a setting is not read back")
            ctx.require(all("fill" not in o and "stroke" not in o for o in v["others"]), "another path was painted")
            f, s = N.array([[float(j.split("/")[1]) for j in i] for i in v["values"]]).T
            ctx.require([i[0].split("/")[0] for i in v["values"]] == ["teal"] * len(errs) + ["#aaaaaa"] * 2, "colours {}", [i[0] for i in v["values"]])
            e = N.array(errs) * (.5 if "angularError" in lim else 1)
            f, s = f[:len(errs)], s[:len(errs)]
            ctx.require((N.diff(f) <= 1e-12).all() and (s > f).all(), "opacities {}", f)
            ctx.require(N.abs(f[e <= dom[0]] - rng[0]).max(initial=0) < 1e-9 and N.abs(f[e >= dom[1]] - rng[1]).max(initial=0) < 1e-9, "opacities {} do not reach their limits at {}", f, dom)
            i = (e > dom[0]) & (e < dom[1])
            ctx.require((f[i] < rng[0]).all() and (f[i] > rng[1]).all() and len(set(f[i])) == i.sum(), "opacities {} within {}", f, dom)
        b.add(("certainty", st, acc, key), dict(fn="certainty", planes=planes, settings=st, accessor=acc), fn)
    b.finish()


def axes(ctx, sizes, margins, clips):
    """Labels of azimuths and dips stand where the projection puts what they name"""
    b = Batch(ctx, "stereonet.js")
    options = [None, {}, dict(dipLabels=[5, 10]), dict(dipLabels=[1, 2.5, 7]), dict(dipLabels=[]), dict(nLabels=5), dict(labelPadding=8), dict(startOffset=40), dict(startOffset=0, labelPadding=0, nLabels=3, dipLabels=[3])]
    letters = "NESW"
    for z, m, c, ev, k in itertools.product(sizes, margins, clips, ("vertical", "twice", "horizontal"), range(len(options))):
        if ev == "horizontal" and k:
            continue
        o = options[k]
        R = z / 2. - m
        dips = [float(d) for d in range(0, int(c) + 21)] + [1, 2.5, 7]
        dirs = [[DIRECTIONS[l][0], 85] for l in letters] + [[0, 90 - d] for d in dips]
        events = [[0, "clipAngle", c], [0, "margin", m], [0, "size", z], [0, "init"], [0, "ellipses", A], [0, ev] + ([o] if o is not None else [])] + ([[0, "draw"]] if k % 2 else [])

        def fn(ctx, v, z=z, m=m, c=c, ev=ev, o=o, R=R, dips=dips):
            e = v["end"][0]
            n = 2 if ev == "twice" else 1
            t = e["texts"]
            to = N.array(e["directions"]) - z / 2.
            far = dict(zip(dips, N.hypot(*to[4:].T)))
            ctx.require(e["translate"] == [z / 2] * 2 and not [p for p in e["paths"] if p["drawn"] and not p["ok"]], "the projection or a path is out of step")
            for i, l in enumerate(letters if ev != "horizontal" else "EW"):
                found = [x for x in t if x["text"] == l]
                if not ctx.require(len(found) == n, "{} labels {}", len(found), l):
                    continue
                for x in found:
                    at = N.array(x["at"]) - z / 2.
                    u = to[letters.index(l)]
                    u = u / N.linalg.norm(u)
                    ctx.require(abs(at[0] * u[1] - at[1] * u[0]) < 1e-6 * z and at.dot(u) > 0, "label {} lies in direction {} from the centre, the projection has it at {}", l, at, u)
                    ctx.require(R - 1e-6 <= at.dot(u) <= R + (o or {}).get("labelPadding", 2) + 15, "label {} is {} from the centre of a net of {}", l, at.dot(u), R)
                    if l in "EW":
                        ctx.require(x["anchor"] == dict(E="start", W="end")[l], "label {} runs into the net", l)
            marks = [x for x in t if x["text"].endswith("\u00b0")]
            if ev == "horizontal":
                ctx.require(sum("horizontal" in (p["where"][1] or "") for p in e["paths"] if len(p["where"]) > 1) == 1, "horizontal line")
                return
            nums = [float(x["text"][:-1]) for x in marks]
            given = (o or {}).get("dipLabels")
            if given is not None:
                ctx.require(nums == given * n, "dip labels {} instead of {}", nums, given * n)
            else:
                ctx.require(len(nums) % n == 0 and nums[:len(nums) // n] * n == nums and len(set(nums)) * n == len(nums) and nums[:len(nums) // n] == sorted(nums[:len(nums) // n]) and max(nums) > 0
                            and min(nums) >= 0 and max(nums) <= 1.25 * c, "dip labels {} for a net of {} degrees", nums, c)
            for x, d in zip(marks, nums):
                r = N.hypot(*(N.array(x["at"]) - z / 2.))
                if d in far:
                    ctx.require(abs(r - far[d]) < 1e-6 * z, "label of {} degrees is {} from the centre instead of {}", d, r, far[d])
            along = [x for x in t if x["along"]]
            for name in ("Azimuth", "Dip"):
                a = [x["along"][0] for x in along if x["text"].startswith(name)]
                ctx.require(len(a) == n and all(str(i[0])[1:] in e["ids"] for i in a), "{} along the rim: {}", name, a)
                ctx.require(all(i == a[0] for i in a), "the same labels stand elsewhere the second time: {}", a)
        b.add(("axes", z, m, c, ev, k), dict(fn="axes", nets=[{}], events=events, full="texts", directions=dirs), fn)
    b.finish()


def dozens(n):
    return [dict(axes=(frame(37 * i % 360, 11 * i % 91, 25) * N.array([1, 1, (-1) ** (i // 2)])[:, None]).tolist(), hyperbolic_axes=[9. + i, 4., [.25, .01, 6., 3e-6][i % 4]], color=["teal", "red", "black", "#0f0"][i % 4],
                 uid="u%d" % i, **[dict(max_angular_error=3.), dict(maxError=50.), dict(members=["u0"], max_angular_error=.2), dict(member_of="u2", disabled=True)][i % 4]) for i in range(n)]


def larger(ctx, part, parts):
    """Many planes and poles, nets of all sizes and clip angles, turned any way"""
    keys = list(itertools.product((150, 300, 640, 1000), (0, 10, 45), (5, 20, 45, 60, 75, 88, 88.5, 89, 90)))
    ref = reference(keys + [(300, 20, 90)])
    b = Batch(ctx, "stereonet.js")
    turns = [[200, 10], [-170, -85], [0, 90], [359, 61, 0], [-400, 33, 20], [90, -90], [.5, -.5], [135, 80, -100]]
    for j, (z, g, c) in part_of(list(enumerate(keys)), part, parts):
        for i, n in enumerate((1, 4, 6, 12, 30)):
            D = dozens(n)
            r = turns[(j + i) % len(turns)]
            ev = [[0, "clipAngle", c], [0, "margin", g], [0, "size", z], [0, "init"], [0, "planes", D[:n // 2]], [0, "rotate", r], [0, "ellipses", D, dict(color="own")], [0, "planes", D]]
            ev += [[0, "planes", D, dict(selector="g.hovered", color="black")], [0, "ellipses", D[::-1], dict(selector="g.hovered")]] + [[0, "labels"]] * (n == 6)
            ev += [[0, "down", 5, 5], [0, "move", 5 + 40 * i, 600 * i], [0, "up", -300 * i, 3 * j]] * (n != 4)
            judge(b, ref, ("larger", z, g, c, n, tuple(r)), ev, [{}], 3)
    b.finish()


TASKS = dict(larger=larger, axes=axes, histories=histories, settings=settings, mouse=mouse, shapes=shapes, certainty=certainty)
CORE = ["size", "narrow", "wide", "center", "rotate", "planesA", "polesB", "labels", "drag", "refresh", "planesB", "call"]


def shards(tier):
    t = tier == "thorough"
    out = split("histories", 32 if t else 16, events=sorted(EVENTS), depth=3)
    if t:
        out += split("histories", 96, events=CORE, depth=4)
    return (out + split("settings", 32 if t else 8, depth=4 if t else 3) + split("mouse", 16 if t else 4, depth=6 if t else 5)
            + [("shapes", dict(strikes=[s], dips=[0, 1, 30, 60, 90] if t else [0, 30, 85])) for s in range(0, 360, 22 if t else 45)]
            + split("larger", 4) + [("certainty", {}), ("axes", dict(sizes=[300, 400, 120] if t else [300, 400], margins=[20, 25, 40], clips=[5, 10, 15, 20, 30, 45, 60, 80] if t else [10, 15, 30, 45]))])
