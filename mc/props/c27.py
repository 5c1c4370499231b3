"""The notebook interface shows one consistent state after any sequence of actions."""
import collections
import itertools
import re

from ..engine import part_of, split
from ..frontend import call
from ..universe import frame

BOUNDS = dict(
    quick="every action in every state (selection in order, hovered item, groups in list, zoom, planes, poles) reachable for 5 sets of attitudes, in histories of up to 60 actions, looked at after each; every sequence of up to 3 actions for one set, and of up to 2 for 3 more; 48 histories of some 70 actions for a set of 12 with three groups",
    thorough="6 sets; every sequence of up to 3 actions for 4 sets, of up to 4 for one; histories in other orders")
ASSUMPTIONS = ["notebook-ui/src is bundled with esbuild and run on d3 version 4 from the repository; React, Blueprint and a few small libraries are stand-ins (mc/js/react.js, document.js, notebook.js)",
               "the side view is not part of the interface (it is commented out there)"]


def att(uid, strike, dip, color, err, **kw):
    d = dict(uid=uid, axes=frame(strike, dip, 20).tolist(), hyperbolic_axes=[9., 4., .25], strike=strike, dip=dip, color=color, max_angular_error=err, min_angular_error=err / 3.)
    d.update(kw)
    return d


SETS = dict(
    empty=[],
    one=[att("a", 12.34, 5.61, "teal", 3, min_angular_error=2.5)],
    two=[att("a", 12.34, 5.61, "teal", .003), att("b", 200., 71.2, "red", 46)],
    group=[att("a", 12.3, 5.6, "teal", 3, member_of="g"), att("b", 200., 71.2, "red", 8, member_of="g"), att("g", 100., 33., "black", 1, members=["a", "b"])],
    mixed=[att("g", 100., 33., "black", 1, members=["a"]), att("c", 359.9, 89., "gray", 0.003), att("a", 12.3, 5.6, "teal", 46, member_of="g")],
    # a group whose second member, and a member whose group, are not among the attitudes
    partial=[att("g", 100., 33., "black", 1, members=["a", "lost"]), att("a", 12.3, 5.6, "teal", 3, member_of="g"), att("d", 45., 10., "red", 2, member_of="elsewhere", min_angular_error=.005)],
)
SETS["large"] = [att("a", 0., 0., "teal", 3, member_of="g"), att("b", 359.96, 90., "red", 45, member_of="g"), att("c", .4, 89.6, "gray", 45.5, member_of="g", min_angular_error=45.5), att("d", 180., .3, "black", 80., member_of="g"),
                 att("g", 100., 33., "black", 1, members=["a", "b", "c", "d"]), att("a longer name/of it", 360., .3, "red", .5, min_angular_error=.004), att("e", 270., 60., "#0f0", 30., member_of="h"), att("f", 45., 12., "teal", 6, member_of="h"),
                 att("h", 12., 55., "gray", 12., members=["e", "f"]), att("7", 0., 89.6, "red", 5.), att("m", 350.5, 1., "red", 5., member_of="k"), att("k", .4, 77., "teal", 44., members=["m"])]
EXTRA = att("x", 77., 7., "#0f0", 4)


def others(attitudes):
    """As many, but different ones"""
    return [att("n%d" % i, 300. - 40 * i, 25. + i, "gray", 1.5) for i in range(len(attitudes))]


class Model(object):
    def __init__(self, attitudes, props):
        self.attitudes, self.props = attitudes, props
        self.sel, self.hov, self.groups, self.zoom, self.planes, self.poles, self.rot = (), None, True, False, False, True, (0., 0., 0.)
        self.extra = False

    def key(self):
        return (self.sel, self.hov, self.groups, self.zoom, self.planes, self.poles, self.rot, self.extra)

    def load(self, k):
        self.sel, self.hov, self.groups, self.zoom, self.planes, self.poles, self.rot, self.extra = k

    def all(self):
        if self.extra == "other":
            return others(self.attitudes)
        return self.attitudes + ([EXTRA] if self.extra else [])

    def get(self, uid):
        return next((d for d in self.all() if d["uid"] == uid), None)

    def data(self):
        return [self.get(u) for u in self.sel] if self.zoom else self.all()

    def listed(self):
        return [d for d in self.all() if self.groups or "members" not in d]

    def hover(self, uid):
        d = self.get(uid)
        d = self.get(d.get("member_of")) or d
        self.hov = (d["uid"],) + tuple(m for m in d.get("members", ()) if self.get(m))

    def do(self, ev, *a):
        """Takes the action; 'absent' or 'disabled' if it cannot be taken"""
        if ev in ("click", "over"):
            if a[0] not in [d["uid"] for d in self.listed()]:
                return "absent"
            if ev == "over":
                self.hover(a[0])
            elif "members" in self.get(a[0]) and not self.props.get("allowGroupSelection", True):
                pass
            else:
                self.sel = tuple(u for u in self.sel if u != a[0]) if a[0] in self.sel else self.sel + (a[0],)
        elif ev == "enter":
            if a[0] not in [d["uid"] for d in self.data()] or not (self.planes if a[1] == "g.plane" else self.poles) or (a[1] == "g.plane" and self.get(a[0])["max_angular_error"] > 45):
                return "absent"
            self.hover(a[0])
        elif ev == "leave":
            self.hov = None
        elif ev == "press" and a[0] == "Clear selection":
            if not self.sel:
                return "disabled"
            self.sel = ()
        elif ev == "press" and a[0] == "Vertical":
            self.rot = (0., -90., 0.)
        elif ev == "zoom":
            if not self.sel and self.all():
                return "disabled"
            self.zoom = not self.zoom
        elif ev == "switch":
            k = {"Planes": "planes", "Poles": "poles", "Show groups": "groups"}[a[0]]
            setattr(self, k, not getattr(self, k))
        elif ev == "drag":
            self.rot = (self.rot[0] + a[0] / 3., max(-90., min(90., self.rot[1] - a[1] / 3.)), 0.)
        elif ev == "data":
            self.extra = True
        elif ev == "replace":
            if self.sel or self.hov:
                return "absent"
            self.extra = "other"
        return "done"


def actions(attitudes, full):
    out = [["click", d["uid"]] for d in attitudes] + [["over", d["uid"]] for d in attitudes]
    out += [["leave"], ["press", "Clear selection"], ["zoom"], ["switch", "Planes"], ["switch", "Poles"], ["switch", "Show groups"]]
    out += [["enter", d["uid"], k] for d in attitudes for k in ("g.plane", "g.normal")]
    if full:
        out += [["press", "Vertical"], ["drag", 30, 12], ["data", attitudes + [EXTRA]], ["replace", others(attitudes)], ["arrive"]]
    return out


def wrapped(a):
    return (a + 180) % 360 - 180


def look(ctx, o, m, msg):
    sel = set(m.sel)
    hov = set(m.hov or ())
    if not ctx.require(o["roots"] == 1 and o["nets"] == 1, "{}: {} interfaces with {} stereonets", msg, o["roots"], o["nets"]):
        return
    ctx.require([i["uid"] for i in o["list"]] == [d["uid"] for d in m.listed()], "{}: {} listed", msg, [i["uid"] for i in o["list"]])
    for i in o["list"]:
        ctx.require(i["selected"] == (i["uid"] in sel), "{}: {} is {}shown as selected", msg, i["uid"], "" if i["selected"] else "not ")
        ctx.require(i["hovered"] == (i["uid"] in hov), "{}: {} is {}shown as hovered", msg, i["uid"], "" if i["hovered"] else "not ")
        d = m.get(i["uid"])
        if i["uid"] in hov and d is not None:
            c = i["style"].get("color" if "member_of" in d else "backgroundColor") or i["style"].get("background-color")
            ctx.require(c == d["color"], "{}: {} is hovered in {}", msg, i["uid"], i["style"])
    b = dict(map(tuple, o["buttons"]))
    ctx.require(b.get("Clear selection") == (not sel) and b.get("Copy to clipboard") == (not sel), "{}: buttons {}", msg, b)
    ctx.require(b.get("Show all data" if m.zoom else "Show only selection") == (not sel and bool(m.all())), "{}: buttons {}", msg, b)
    ctx.require(o["clipboard"] == ["[" + ",".join('"%s"' % u for u in m.sel) + "]"], "{}: {} goes to the clipboard for {}", msg, o["clipboard"], m.sel)
    ctx.require(dict(map(tuple, o["switches"])) == {"Planes": m.planes, "Poles": m.poles, "Show groups": m.groups}, "{}: switches {}", msg, o["switches"])
    # information on what the pointer is on
    if m.hov is None:
        ctx.require(o["id"] is None and "Roll over" in o["panel"], "{}: {} shown with nothing hovered", msg, o["panel"])
    else:
        d = m.get(m.hov[0])
        ctx.require(o["id"] == d["uid"], "{}: information on {} instead of {}", msg, o["id"], d["uid"])
        g = re.search(r"Group of (\d+) measurements", o["panel"])
        ctx.require((int(g.group(1)) if g else 0) == len(d.get("members", ())), "{}: {}", msg, o["panel"])
        want = [("Strike", d["strike"]), ("Dip", d["dip"])]
        none = d["max_angular_error"] < .01
        ctx.require(("No errors" in o["panel"]) == none, "{}: {}", msg, o["panel"])
        if not none:
            want += [("Min", d["min_angular_error"]), ("Max", d["max_angular_error"])]
        if ctx.require(len(o["numbers"]) == len(want), "{}: {}", msg, o["numbers"]):
            for t, (name, v) in zip(o["numbers"], want):
                n = re.findall(r"-?\d+\.?\d*", t)
                ctx.require(t.startswith(name) and len(n) == 1 and abs(float(n[0]) - v) <= .0501, "{}: {} instead of {} {}", msg, t, name, v)
    # the stereonet
    ctx.require(all(abs(wrapped(x - y)) < 1e-6 for x, y in zip(o["rotate"], m.rot)), "{}: rotation {} instead of {}", msg, o["rotate"], m.rot)
    w = o["drawing"]
    ctx.require(w["stale"] == 0, "{}: {} paths are not in step with the projection", msg, w["stale"])
    ctx.require(len(w["labels"]) == 6, "{}: {} labels", msg, len(w["labels"]))
    shown = sorted(d["uid"] for d in m.data())
    want = collections.Counter()
    for kind, of, on in (("plane", "planes", m.planes), ("pole", "poles", m.poles)):
        for u in shown if on else ():
            want[kind, of, u] += 1
        for u in sorted(hov) if on else ():
            want[kind, "hovered", u] += 1
    got = collections.Counter((g["kind"], g["of"], g["uid"]) for g in w["groups"])
    ctx.require(got == want, "{}: drawn {} instead of {}", msg, sorted((got - want).items()), sorted((want - got).items()))
    if sum(want.values()) and got == want and hov:
        ctx.require([c for c in w["containers"] if c][-1] == "hovered", "{}: what is hovered is below {}", msg, w["containers"])
    for g in w["groups"]:
        d = m.get(g["uid"])
        if d is None:
            continue
        ctx.require(g["in"] == ("member_of" in d) and g["is"] == ("members" in d), "{}: {} {} of group {}/{}", msg, g["of"], g["uid"], g["in"], g["is"])
        parts = {p["class"]: p for p in g["parts"]}
        names = {"error"} if g["kind"] == "pole" or g["of"] == "hovered" else {"nominal"} | ({"error"} if d["max_angular_error"] <= 45 else set())
        ctx.require(set(parts) == names and len(parts) == len(g["parts"]), "{}: {} {} has {}", msg, g["of"], g["uid"], sorted(parts))
        for n, p in parts.items():
            ctx.require(p["drawn"], "{}: {} {} of {} is not drawn", msg, g["of"], n, g["uid"])
            if g["of"] == "hovered":
                c = p["style"].get("fill")
            else:
                c = p["stroke"] if n == "nominal" else (p["fill"] or "").split("/")[0]
            ctx.require(c == d["color"], "{}: {} {} of {} is {} instead of {}", msg, g["of"], n, g["uid"], c, d["color"])


def run(ctx, jobs):
    """jobs: (description, set, properties, events, look after each)"""
    B = 200
    for k in range(0, len(jobs), B):
        block = jobs[k:k + B]
        res = call([dict(fn="notebook", data=SETS[s], props=p, events=ev, each=each, create=p is None and len(ev) < 2) for _, s, p, ev, each in block], "notebook.js")
        for (desc, s, p, ev, each), r in zip(block, res):
            with ctx.case(desc):
                if ctx.require("error" not in r, "after {}: {}", ev, r.get("error")):
                    ctx.require(not r["modified"], "the attitudes were modified")
                    m = Model(SETS[s], p or {})
                    v = r["value"]
                    if each:
                        look(ctx, v["looks"][0], m, "at first")
                    for i, e in enumerate(ev):
                        ctx.step()
                        want = m.do(*e)
                        if not ctx.require(v["seen"][i] == want, "action {} of {}: {} instead of {}", i, e[:2], v["seen"][i], want):
                            break
                        if each or i == len(ev) - 1:
                            look(ctx, v["looks"][i + 1 if each else 0], m, "after {}".format([q[:2] for q in ev[max(0, i - 5):i + 1]]))
                        ctx.state((s, m.key(), str(e[:2])), outcome=e[0])
                    if not ev:
                        look(ctx, v["looks"][-1], m, "at first")
                    ctx.depth(len(ev))


def sequences(ctx, which, depth, part, parts):
    acts = actions(SETS[which], True)
    seqs = (q for n in range(depth + 1) for q in itertools.product(acts, repeat=n))
    jobs = [(("sequence", which, tuple(str(e[:3] if e[0] not in ("data", "replace") else e[:1]) for e in q)), which, None, list(q), False) for q in part_of(seqs, part, parts)]
    run(ctx, jobs)


def transitions(name, props):
    """All states the model can reach without turning the net, and what each action does there"""
    m = Model(SETS[name], props)
    acts = actions(SETS[name], False)
    start = m.key()
    graph, todo = {}, [start]
    while todo:
        k = todo.pop()
        if k in graph:
            continue
        graph[k] = []
        for i, a in enumerate(acts):
            m.load(k)
            r = m.do(*a)
            graph[k].append((i, m.key(), r))
            if m.key() not in graph:
                todo.append(m.key())
    return start, graph, acts


def tours(ctx, which, props, order, length, part, parts):
    """Every action in every state, in histories of bounded length"""
    start, graph, acts = transitions(which, props)
    keys = sorted(graph, key=repr)
    # a shard takes the states that are its own
    mine = {k for i, k in enumerate(keys) if i % parts == part}
    left = {k: [t for t in graph[k]][::-1 if order else 1] for k in mine}
    # shortest way from the beginning to every state
    way, queue = {start: []}, collections.deque([start])
    while queue:
        k = queue.popleft()
        for i, n, r in graph[k]:
            if n not in way and r == "done":
                way[n] = way[k] + [i]
                queue.append(n)
    jobs = []
    for k in sorted(mine, key=lambda q: (len(way[q]), repr(q))):
        while left[k]:
            at, ev = k, list(way[k])
            while len(ev) < length:
                if left.get(at):
                    i, n, r = left[at].pop()
                    ev.append(i)
                    at = n
                    continue
                # nearest state with an action left
                seen, q, found = {at: []}, collections.deque([at]), None
                while q and found is None:
                    j = q.popleft()
                    if len(seen[j]) > 3:
                        break
                    for i, n, r in graph[j]:
                        if n not in seen and r == "done":
                            seen[n] = seen[j] + [i]
                            if left.get(n):
                                found = n
                                break
                            q.append(n)
                if found is None:
                    break
                ev += seen[found]
                at = found
            jobs.append((("tour", which, order, part, parts, len(jobs)), which, props, [acts[i] for i in ev], True))
    run(ctx, jobs)


def larger(ctx, part, parts):
    """A larger set: all of it selected, deselected and hovered in several orders, under all settings"""
    uids = [d["uid"] for d in SETS["large"]]
    n = len(uids)
    orders = [uids, uids[::-1], [uids[3 * i % n] for i in range(n)]]
    jobs = []
    for i, (pl, po, gr, zo) in part_of(itertools.product(range(3), itertools.product((False, True), repeat=4)), part, parts):
        u = orders[i]
        ev = [["switch", k] for k, on in (("Planes", pl), ("Poles", not po), ("Show groups", not gr)) if on]
        ev += [["click", u[0]]] + [["zoom"]] * zo + [["over", u[1]]] * (i == 1) + [["click", k] for k in u[1:]] + [["over", k] for k in u]
        ev += [["enter", k, g] for k in u for g in ("g.plane", "g.normal")] + [["click", k] for k in u[::2]] + [["leave"]] + [["click", k] for k in u[::-1][:4]]
        ev += [["switch", "Show groups"], ["over", "g"], ["switch", "Planes"], ["over", "f"], ["press", "Vertical"], ["drag", 30, 12], ["press", "Clear selection"], ["click", "7"], ["zoom"], ["zoom"]]
        jobs.append((("larger", i, pl, po, gr, zo), "large", {}, ev, True))
    run(ctx, jobs)


TASKS = dict(larger=larger, sequences=sequences, tours=tours)


def shards(tier):
    t = tier == "thorough"
    out = []
    out += split("larger", 8)
    for n in SETS:
        if n == "large":
            continue
        if t or n != "mixed":
            out += split("tours", 1 if len(SETS[n]) < 2 else 8, which=n, props={}, order=0, length=60)
        if t:
            out += split("tours", 1 if len(SETS[n]) < 2 else 8, which=n, props={}, order=1, length=200)
    out += split("tours", 4, which="group", props=dict(allowGroupSelection=False), order=0, length=60)
    for n, d in (("one", 3), ("two", 2), ("group", 2), ("partial", 2)):
        out += split("sequences", 8 if d == 3 else 4, which=n, depth=d)
    if t:
        for n, d in (("one", 4), ("two", 3), ("group", 3), ("partial", 3)):
            out += split("sequences", 64, which=n, depth=d)
    return out
