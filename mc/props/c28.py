"""The web application plots exactly the complete rows of its sheet, and loses no cell."""
import itertools
import math
import re

from ..engine import part_of, split
from ..frontend import call

BOUNDS = dict(
    quick="every sequence of up to 3 of 20 actions (edits of single cells, pasted rows, cleared rows, more rows, reset, tabs, clip angle, pointer on the plotted planes, reload); every value of a list of 24 in each of 6 columns of a complete row; "
          "every order of errors in pairs of rows; every of 405 combinations of strike, dip, rake and errors; 11 clip angles with 18 continuations; 2 to 18 rows pasted at once, row by row or column by column in sheets of up to 50 rows",
    thorough="every sequence of up to 4 of these actions")
ASSUMPTIONS = ["webapp/src, plots/src and notebook-ui/src are bundled with esbuild and run on d3 version 4 from the repository; React, react-datasheet, useStoredState and other libraries are stand-ins (mc/js/notebook.js)",
               "where reconstruct.ts puts the plane on the net is not judged (the library it stands on is not here), only that each plane is drawn with its dip and errors; an error of zero has no cone, so that the shape drawn for it is not judged"]

KEYS = ["strike", "dip", "rake", "maxError", "minError", "color"]
DEFAULT = [["10", "8", "2", "20", "8", "#65499e"], ["120", "46", "5", "45", "2", "dodgerblue"]] + [[""] * 6 for _ in range(8)]
ROW = ["30", "40.5", "5", "12", "3", "red"]
ACTIONS = {
    "paste": [["edit", [[2, c, v] for c, v in enumerate(ROW)]]],
    "paste2": [["edit", [[r, c, v] for r, row in ((3, ["200", "10", "15", "4", "4", ""]), (4, ["7", "8", "9", "1", "6", "nocolour"])) for c, v in enumerate(row)]]],
    "partial": [["edit", [[5, 0, "77"], [5, 1, "12"]]]],
    "rest": [["edit", [[5, 2, "1"], [5, 3, "3"], [5, 4, "9"]]]],
    "strike": [["edit", [[0, 0, "99"]]]],
    "bad": [["edit", [[0, 1, "abc"]]]],
    "mend": [["edit", [[0, 1, "33"]]]],
    "empty": [["edit", [[1, 4, ""]]]],
    "null": [["edit", [[1, c, None] for c in range(6)]]],
    "swap": [["edit", [[0, 4, "50"]]]],
    "colour": [["edit", [[0, 5, "teal"], [1, 5, "nocolour"]]]],
    "number": [["edit", [[1, 0, 250.5]]]],
    "last": [["edit", [[9, c, v] for c, v in enumerate(ROW)]]],
    "more": [["more"]], "reset": [["reset"]], "vertical": [["tab", "upper-hemisphere"]], "net": [["tab", "stereonet"]], "angle": [["angle", 40]], "hover": [["hover"]], "reload": [["reload"]],
}


def text(v):
    return "" if v is None else str(v)


def number(v):
    m = re.match(r"\s*([-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?)", text(v), re.I)
    return float(m.group(1)) if m else math.nan


def colour(v):
    return v in ("teal", "red", "black", "dodgerblue") or bool(re.match(r"#[0-9a-f]{3,6}$", text(v)))


class Model(object):
    def __init__(self):
        self.rows, self.tab, self.angle = [list(r) for r in DEFAULT], "stereonet", 15

    def do(self, ev, *a):
        if ev == "edit":
            for r, c, v in a[0]:
                self.rows[r][c] = v
            for r in self.rows:
                if number(r[3]) < number(r[4]):
                    r[3], r[4] = r[4], r[3]
        elif ev == "more":
            n = len(self.rows)
            self.rows += [[""] * 6 for _ in range(-(-(n + 10) // 10) * 10 - n)]
        elif ev == "reset":
            self.rows = [list(r) for r in DEFAULT]
        elif ev == "tab":
            self.tab = a[0]
        elif ev == "angle":
            if self.tab != "stereonet":
                self.angle = a[0]
        elif ev == "reload":
            self.tab = "stereonet"

    def plotted(self):
        out = []
        for r in self.rows:
            v = [number(i) for i in r[:5]]
            if any(math.isnan(i) for i in v):
                continue
            d = dict(zip(KEYS, v))
            if colour(r[5]):
                d["color"] = r[5]
            out.append(d)
        return out


def near(x, y):
    return x is not None and abs(x - y) < 1e-6


def look(ctx, o, m, msg):
    ctx.require(o["header"] == ["Strike", "Dip", "Rake", "Max.", "Min.", "Color"], "{}: columns {}", msg, o["header"])
    got = [[c[0] for c in r] for r in o["rows"]]
    want = [[text(c) for c in r] for r in m.rows]
    ctx.require(len(got) == len(want), "{}: {} rows instead of {}", msg, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.require(g == w, "{}: row {} holds {} instead of {}", msg, i + 1, g, w)
    ctx.require([i[:1] for i in o["index"]] == [[str(i + 1)] for i in range(len(got))], "{}: rows are numbered {}", msg, o["index"])
    for r in o["rows"]:
        for j, (t, s) in enumerate(r):
            if t == "":
                ctx.require(s == "empty", "{}: an empty cell is marked {}", msg, s)
            elif j == 5 or math.isnan(number(t)) or text(number(t)) == t or t.isdigit():
                ok = colour(t) if j == 5 else not math.isnan(number(t))
                ctx.require(s == ("ok" if ok else "invalid"), "{}: {} in column {} is marked {}", msg, t, KEYS[j], s)
    want = m.plotted()
    key = lambda d: repr([d.get(k) for k in KEYS])
    got = [{k: float(v) if k != "color" else v for k, v in d.items()} for d in o["shapes"]]
    ctx.require(sorted(got, key=key) == sorted(want, key=key), "{}: {} plotted instead of {}", msg, got, want)
    for d in got:
        ctx.require(d["maxError"] >= d["minError"], "{}: errors {} are the wrong way round", msg, d)
    ctx.require(len(o["svgs"]) == 1 and "stereonet" in (o["svgs"][0] or "").split(), "{}: {} plots", msg, o["svgs"])
    w = o["drawing"]
    ctx.require(w["stale"] == 0, "{}: {} paths are not in step with the projection", msg, w["stale"])
    ctx.require(all(g["kind"] == "pole" and g["of"] == "poles" and [p["class"] for p in g["parts"]] == ["error"] and (g["parts"][0]["drawn"] or m.tab != "stereonet" or not d["minError"] > 0) for d, g in zip(got, w["groups"])) and len(w["groups"]) == len(want), "{}: drawings", msg)
    # inclined and as wide as the row says
    for d, c in zip(got, o["caps"]):
        if 0 < d["minError"] <= d["maxError"] < 170 and 0 <= d["dip"] <= 90:
            ok = len(c) == 2 and all(near(x, y) for i, r in enumerate(sorted(c)) for x, y in zip(r, (abs(180 * i - d["dip"]), d["maxError"] / 2, d["minError"] / 2)))
            ctx.require(ok, "{}: {} is drawn around an inclination of and as wide as {}", msg, d, c)
    cols = sorted(d.get("color", "#aaaaaa") for d in want)
    ctx.require(sorted((g["parts"][0]["fill"] or "").split("/")[0] for g in w["groups"]) == cols, "{}: colours {} instead of {}", msg, [g["parts"][0]["fill"] for g in w["groups"]], cols)
    if m.tab == "stereonet":
        ctx.require(o["clip"] == 90 and o["angle"] == [], "{}: clip angle {}", msg, o["clip"])
    else:
        ctx.require(abs(o["clip"] - m.angle) < 1e-9 and o["angle"] == [m.angle], "{}: clip angle {} ({}) instead of {}", msg, o["clip"], o["angle"], m.angle)
        # the more certain, the less transparent
        for k in ("fill", "stroke"):
            v = sorted((d["maxError"], -float(g["parts"][0][k].split("/")[1])) for d, g in zip(got, w["groups"]) if d["maxError"] > 0)
            ok = all(0 < -y <= 1 and (x < z or y == u) and y <= u and (z < 2 * x or x < 20 or y < u) for (x, y), (z, u) in zip(v, v[1:] or v))
            ctx.require(ok, "{}: opacities by error {}", msg, v)
        ctx.require([abs(i) for i in o["rotate"]] == [0, 90, 0], "{}: centre {}", msg, o["rotate"])


def run(ctx, jobs, each):
    B = 150
    for k in range(0, len(jobs), B):
        block = jobs[k:k + B]
        for (desc, ev), r in zip(block, call([dict(fn="webapp", events=ev, each=each) for _, ev in block], "notebook.js")):
            with ctx.case(desc):
                if ctx.require("error" not in r, "after {}: {}", ev, r.get("error")):
                    m, v = Model(), r["value"]
                    ctx.require(v["untouched"] and not r["modified"], "a sheet that was handed out has changed")
                    if each:
                        look(ctx, v["looks"][0], m, "at first")
                    for i, e in enumerate(ev):
                        ctx.step()
                        m.do(*e)
                        if each:
                            look(ctx, v["looks"][i + 1], m, "after {} actions".format(i + 1))
                    if not each:
                        look(ctx, v["looks"][0], m, "at the end")
                    ctx.depth(len(ev))
                ctx.state(desc, outcome=desc[0])


def sequences(ctx, depth, part, parts):
    seqs = (q for n in range(depth + 1) for q in itertools.product(sorted(ACTIONS), repeat=n))
    run(ctx, [(("sequence",) + q, [e for k in q for e in ACTIONS[k]]) for q in part_of(seqs, part, parts) if q.count("more") < 4], False)


VALUES = ["0", "-5", "359.5", "1e1", ".5", " 7", "abc", "", None, 12, 3.25, "NaN", "12 m", "400", "360", "-30.25", "180", "90", "91", "123.456789", "7 ", "0.001", "+5", 1000]


def values(ctx, part, parts):
    """Each value in each column, alone and beside a second row"""
    jobs = [(("value", c, v, two), [["edit", [[2, k, i] for k, i in enumerate(ROW)]], ["edit", [[2, c, v]] + ([[3, k, i] for k, i in enumerate(ROW)] if two else [])]])
            for c, v, two in itertools.product(range(5), VALUES, (False, True))]
    jobs += [(("colour", v), [["edit", [[2, k, i] for k, i in enumerate(ROW)]], ["edit", [[2, 5, v]]]]) for v in ["teal", "#fff", "#0a0b0c", "nocolour", "", None, "5"]]
    jobs += [(("shape", s, d, r, e, f), [["edit", [[2, k, i] for k, i in enumerate((s, d, r, e, f, "red"))]]] + [["tab", "upper-hemisphere"]] * (r == "0"))
             for s, d, r, e, f in itertools.product(("0", "75", "340"), ("0", "0.5", "45", "89", "90"), ("0", "60", "170"), ("1", "30", "120"), ("0.1", "30", "119"))]
    # rows at the end of a sheet that grows
    for n, r in itertools.product(range(1, 8), (False, True)):
        ev = [e for k in range(1, n + 1) for e in ([["more"], ["edit", [[10 * k + 9, c, v] for c, v in enumerate(ROW)] + [[10 * k - 1, 0, str(k)]]]] + [["reload"]] * r)]
        jobs.append((("grow", n, r), ev))
    # clip angles, kept while other things happen
    up, away = ["tab", "upper-hemisphere"], ["tab", "stereonet"]
    for a, b, then in itertools.product((.5, 1, 5, 15, 29.5, 31, 45, 60, 88.5, 89, 90), (None, 10, 75), ([], [away, up], [["reload"], up], [["reset"]], [["edit", [[2, k, i] for k, i in enumerate(ROW)]]], [["reload"], up, ["reload"], up])):
        jobs.append((("angle", a, b, str(then)), [up, ["angle", a]] + [["angle", b]] * (b is not None) + then))
    errs = ["2", "10", "9", "100", "0.5", "", "x"]
    jobs += [(("errors", a, b, c, d), [["edit", [[2, k, i] for k, i in enumerate(ROW)] + [[3, k, i] for k, i in enumerate(ROW)]], ["edit", [[2, 3, a], [2, 4, b], [3, 3, c]]], ["edit", [[3, 4, d]]]])
             for a, b, c, d in itertools.product(errs, errs, errs[:4], errs[:4])]
    run(ctx, list(part_of(jobs, part, parts)), True)


def row(i):
    return [str(i * 37 % 361), str(i * 7 % 91), str(i * 13 % 181), str(5 + i % 40), str(round(.25 + i % 5, 2)), ["red", "", "teal", "#0f0", None, "nocolour"][i % 6]]


def many(ctx, part, parts):
    """Rows by the dozen, pasted at once or one after another, anywhere in a sheet of any length"""
    jobs = []
    for n, at, one in itertools.product((3, 5, 7, 10, 18), (0, 2, 9, 13, 25), (False, True)):
        ev = [["more"]] * max(0, -(-(at + n - 10) // 10))
        cells = [[[at + i, c, v] for c, v in enumerate(row(i))] for i in range(n)]
        ev += [["edit", k] for k in cells] if one else [["edit", [c for k in cells for c in k]]]
        # the same again, taken back in part, and what remains after a reload
        jobs.append((("many", n, at, one), ev + [["edit", cells[0]], ["tab", "upper-hemisphere"], ["edit", [[at + n - 1, 1, ""]]], ["edit", [[at + i, c, None] for i in range(1, n, 2) for c in range(6)]], ["more"], ["reload"]]))
    for n in (2, 4, 11):
        # columns instead of rows
        jobs.append((("columns", n), [["more"], ["more"]] + [["edit", [[2 + i, c, row(i)[c]] for i in range(n)]] for c in (5, 3, 4, 0, 2, 1)] + [["tab", "upper-hemisphere"], ["angle", 60]]))
    run(ctx, list(part_of(jobs, part, parts)), True)


TASKS = dict(many=many, sequences=sequences, values=values)


def shards(tier):
    t = tier == "thorough"
    return split("sequences", 128 if t else 16, depth=4 if t else 3) + split("values", 8) + split("many", 4)
