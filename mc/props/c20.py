"""Interactive plots hand the browser exactly the attitudes given."""
import builtins
import itertools
import json
import os
import re
import subprocess

import numpy as N
import IPython
import IPython.core.display_functions
import IPython.display

SHOWN = []
FAIL = [False]


def _display(*objs, **kw):
    if FAIL[0]:
        raise RuntimeError("the notebook is gone")
    SHOWN.extend(objs)


for _m in (IPython.display, IPython.core.display_functions):
    _m.display = _display

from attitude.display import nbextension as NB
from attitude.orientation import PCAOrientation, ReconstructedPlane, create_groups
from ..engine import isolated, part_of, split
from ..universe import frame, octa, spiral

if hasattr(NB, "display") and callable(NB.display):
    NB.display = _display

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUNDS = dict(
    quick="every text of up to 2 of 27 tokens (markup, script ends, comments, placeholders, quotes, escapes, line separators, control and astral characters) as value, key and nested value; every list of up to 3 attitudes "
          "out of 7 kinds, as single, list and tuple; lists of up to 5001; 43 JSON values of all types; every sequence of up to 5 calls out of {initialise, initialise while the display fails, initialise while the library is unreadable, plot, plot while the display fails}",
    thorough="texts of up to 3 tokens, lists of up to 4 attitudes, sequences of up to 6 calls")
ASSUMPTIONS = ["IPython's display function is replaced by a recorder (or a fault)", "an HTML tokenizer for script data (including its escaped states) finds the scripts, node evaluates them with a recording viewer",
               "attached values have no key __proto__ and no integer beyond 2^53, which no browser represents"]

# -- the browser ----------------------------------------------------------------


def tokenise(html):
    """(ids in document order before each script, scripts): HTML with the script data states of the standard"""
    ids, scripts, i = [], [], 0
    low = html.lower()
    n = len(html)
    while i < n:
        j = html.find("<", i)
        if j < 0:
            break
        if low.startswith("<!--", j):
            k = low.find("-->", j + 4)
            i = n if k < 0 else k + 3
            continue
        m = re.compile(r"<(/?)([a-zA-Z][^\s/>]*)((?:[^>\"']|\"[^\"]*\"|'[^']*')*)>").match(html, j)
        if not m:
            i = j + 1
            continue
        i = m.end()
        if m.group(1):
            continue
        for a in re.finditer(r"""([^\s=/]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+))""", m.group(3)):
            if a.group(1).lower() == "id":
                ids.append(a.group(2) or a.group(3) or a.group(4))
        if m.group(2).lower() == "script":
            end, i = script_end(low, i)
            scripts.append(html[m.end():end])
    return ids, scripts


_END = re.compile(r"</script[\s/>]")
_DBL = re.compile(r"<script[\s/>]")


def script_end(low, i):
    """Script data, escaped and double escaped states. Returns (end of content, position after the end tag)"""
    state = "data"
    n = len(low)
    while i < n:
        if state == "data" and low.startswith("<!--", i):
            state = "escaped"
            i += 4
            # "<!-->" and "<!--->" end the escape at once
            if low.startswith(">", i):
                state = "data"
            elif low.startswith("->", i):
                state = "data"
            continue
        if state in ("escaped", "double") and low.startswith("-->", i):
            state = "data"
            i += 3
            continue
        if state == "escaped" and _DBL.match(low, i):
            state = "double"
            i += 8
            continue
        if state == "double" and _END.match(low, i):
            state = "escaped"
            i += 9
            continue
        if state != "double" and _END.match(low, i):
            k = low.find(">", i)
            return i, n if k < 0 else k + 1
        i += 1
    return n, n


def run_pages(pages):
    p = subprocess.run(["node", os.path.join(HERE, "js", "runpages.js")], input=json.dumps(pages), capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-500:])
    return json.loads(p.stdout)


class Batch(object):
    def __init__(self, ctx):
        self.ctx, self.jobs, self.ids = ctx, [], set()

    def plot(self, desc, arg, expected):
        ctx = self.ctx
        with ctx.case(desc):
            del SHOWN[:]
            NB.plot_interactive(arg)
            html = [o for o in SHOWN if isinstance(o, IPython.display.HTML)]
            if not ctx.require(len(html) == 1, "{} fragments displayed", len(html)):
                return
            ids, scripts = tokenise(html[0].data)
            if not ctx.require(len(scripts) == 1, "{} scripts in the fragment", len(scripts)):
                return
            ctx.require(len(ids) == len(set(ids)) and not set(ids) & self.ids, "element ids {} are not fresh", ids)
            self.ids |= set(ids)
            self.jobs.append((desc, dict(ids=ids, scripts=scripts), expected))

    def finish(self):
        ctx = self.ctx
        if not self.jobs:
            return
        for (desc, page, expected), res in zip(self.jobs, run_pages([p for _, p, _ in self.jobs])):
            with ctx.case(desc, trace=False):
                ctx.step()
                ctx.require(res["error"] is None, "script fails: {}", res["error"])
                if ctx.require(len(res["calls"]) == 1, "viewer called {} times", len(res["calls"])):
                    c = res["calls"][0]
                    ctx.require(c["element"] is not None and c["element"] in page["ids"], "viewer got element {} of {}", c["element"], page["ids"])
                    ctx.require(same(c["data"], expected), "viewer got {} instead of {}", json.dumps(c["data"])[:300], json.dumps(expected)[:300])
                ctx.state(desc, outcome=type(expected[0]).__name__ if expected else "empty")


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) != type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


# -- attached values --------------------------------------------------------------
TOKENS = ["<", ">", "/", "</script>", "</SCRIPT >", "<script>", "<!--", "-->", "--!>", "</div>", "<<<hash>>>", "<<<data>>>", "\"", "'", "\\", "\\u003c", "\n", "\r\n\t", "\u2028", "\u2029", "&lt;", "${1+1}", "%s {0} $& \\1",
          "\u00e9\u4e2d", "\U0001f600", "\x00\x1f\x7f", "]]>"]


def texts(ctx, depth, part, parts):
    b = Batch(ctx)
    for d in range(depth + 1):
        for seq in ctx.cases(part_of(itertools.product(range(len(TOKENS)), repeat=d), part, parts)):
            t = "".join(TOKENS[i] for i in seq)
            m = {"label": t, t: [t, {"a": t + "x"}], "n": 1}
            b.plot(seq, dict(m), [json.loads(json.dumps(m))])
    b.finish()


VALUES = [None, True, False, 0, 1, -1, 2 ** 53 - 1, -2 ** 40, 0.0, -0.0, 1.5, 1e-300, 1e300, 0.1, 1 / 3., "", "0", "null", "NaN", [], [[]], {}, {"": ""}, {"a": {"b": {"c": [1, [2, [3]]]}}}, [None, True], [0.1] * 50, "\ud800",
          {"constructor": 1, "toString": 2}, {"1": 1, "0": 2}, ["<", ["<"]], "data", "var data=1;", "a" * 5000, {"id": "<<<hash>>>"}, [{"x": "</script>"}], list(range(100)), {"k%d" % i: i for i in range(50)}, 5e-324, 1.7976931348623157e308, "\\", "0123456789" * 20000, [i / 7. for i in range(300)], {"k%d" % i: [i, str(i)] for i in range(1500)}]


def attached(ctx):
    b = Batch(ctx)
    a = PCAOrientation(spiral(8))
    for i, v in ctx.cases(enumerate(VALUES)):
        m = dict(strike=1., value=v)
        before = json.dumps(m)
        b.plot(("dict", i), m, [json.loads(before)])
        with ctx.case(("unmodified", i)):
            ctx.require(json.dumps(m) == before, "mapping was modified")
        mm = a.to_mapping(note=v)
        b.plot(("mapping", i), [mm], [json.loads(json.dumps(mm))])
        for j, w in enumerate(VALUES[:40]):
            b.plot(("pair", i, j), [{"v": v}, {"v": w}], [{"v": v}, {"v": w}])
    b.finish()


class Other(object):
    """Anything with a mapping"""

    def to_mapping(self, **kw):
        return dict(kw, kind="other", uid="<o>")


def make():
    pts = octa((5, 2, .3), 12)[0] @ frame(40, 30, 20)
    pca = PCAOrientation(pts)
    g1, g2 = PCAOrientation(pts + 10), PCAOrientation(pts[:, [1, 0, 2]])
    grouped = create_groups([g1, g2], (g1.hash, g2.hash), same_plane=False, copy=False)[-1]
    off = PCAOrientation(pts * 3)
    off.disabled = True
    return dict(off=off, pca=pca, flat=PCAOrientation(N.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]])), group=grouped, member=g1, rec=ReconstructedPlane(120, 35, 10, 4, 2), mapping=dict(strike=10, dip=20, note="</script>"), other=Other())


def many(ctx):
    """Long lists"""
    b = Batch(ctx)
    p = make()["pca"]
    for n in ctx.cases((10, 11, 99, 100, 101, 256, 257, 1000, 1001, 5001)):
        b.plot(("mappings", n), [dict(strike=i, note="n%d" % i) for i in range(n)], [dict(strike=i, note="n%d" % i) for i in range(n)])
        if n < 300:
            m = json.loads(json.dumps(p.to_mapping()))
            b.plot(("fits", n), [p] * n, [m] * n)
    b.finish()


def lists(ctx, depth, part, parts):
    b = Batch(ctx)
    objs = make()
    maps = {k: json.loads(json.dumps(o.to_mapping() if hasattr(o, "to_mapping") else o)) for k, o in objs.items()}
    names = sorted(objs)
    for d in range(depth + 1):
        for seq in ctx.cases(part_of(itertools.product(names, repeat=d), part, parts)):
            exp = [maps[k] for k in seq]
            for form in (list, tuple):
                arg = form(objs[k] for k in seq)
                b.plot((form.__name__, seq), arg, exp)
                with ctx.case(("unmodified", seq)):
                    ctx.require(len(arg) == len(seq) and all(x is objs[k] for x, k in zip(arg, seq)), "list of attitudes was modified")
            if d == 1:
                b.plot(("single", seq), objs[seq[0]], exp)
    with ctx.case("unmodified objects"):
        for k, o in objs.items():
            ctx.require(json.loads(json.dumps(o.to_mapping() if hasattr(o, "to_mapping") else o)) == maps[k], "{} was modified", k)
    b.finish()


# -- initialisation ------------------------------------------------------------------
OPS = ("init", "init:display fails", "init:library unreadable", "plot", "plot:display fails")


def history(seq):
    """Runs in a process of its own; returns (library displays, fragments, ids) per call"""
    log = []
    real = builtins.open
    for op in seq:
        del SHOWN[:]
        FAIL[0] = op.endswith("display fails")
        if op.endswith("unreadable"):
            def opener(f, *a, **k):
                if str(f).endswith(".js"):
                    raise OSError("unreadable")
                return real(f, *a, **k)
            builtins.open = opener
        raised = False
        try:
            if op.startswith("init"):
                NB.init_notebook_mode()
            else:
                NB.plot_interactive(dict(a=1))
        except Exception:
            raised = True
        finally:
            builtins.open = real
            FAIL[0] = False
        js = [o.data for o in SHOWN if isinstance(o, IPython.display.Javascript)]
        html = [o.data for o in SHOWN if isinstance(o, IPython.display.HTML)]
        log.append((js, html, raised))
    with real(os.path.join(os.path.dirname(NB.__file__), "lib", "attitude-ui.js")) as f:
        text = f.read()
    return [([j == text for j in js], html, r) for js, html, r in log]


def protocol(ctx, depth, part, parts):
    for d in range(1, depth + 1):
        for seq in ctx.cases(part_of(itertools.product(OPS, repeat=d), part, parts)):
            with ctx.case(seq):
                ctx.depth(d)
                sent = False
                ids = []
                for op, (js, html, raised) in zip(seq, isolated(history, seq)):
                    ctx.step()
                    if op == "init":
                        ctx.require(not raised, "initialisation raised")
                        ctx.require(js == ([] if sent else [True]), "{}: library sent {} times (already sent: {})", op, js, sent)
                        sent = True
                    elif op.startswith("init"):
                        ctx.require(js == [], "{}: library shown", op)
                    elif op == "plot":
                        ctx.require(not raised and len(html) == 1, "{} fragments displayed", len(html))
                        # plotting may initialise by itself, but not twice
                        ctx.require(js in ([], [True]) and not (js and sent), "library sent again by plot")
                        sent = sent or bool(js)
                        for h in html:
                            ids += tokenise(h)[0]
                ctx.require(len(ids) == len(set(ids)), "element ids repeat: {}", ids)
                ctx.state(seq, outcome=sent)


TASKS = dict(many=many, texts=texts, attached=attached, lists=lists, protocol=protocol)


def shards(tier):
    t = tier == "thorough"
    out = split("texts", 16 if t else 4, depth=3 if t else 2)
    out += [("attached", {}), ("many", {})]
    out += split("lists", 8 if t else 4, depth=4 if t else 3)
    out += split("protocol", 16, depth=6 if t else 5)
    return out
