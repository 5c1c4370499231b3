"""
Bounded exhaustive exploration engine.

A property module exposes TASKS = {name: fn} and shards(tier), a list of
(task name, kwargs).  Every shard runs in a process of its own, forked from a parent
that has only imported the code, so module-level state never leaks between
shards and the outcome of a shard is a function of its arguments alone.
A shard function fn(ctx, **kwargs) enumerates its part of the space completely; it
reports every state and transition through ctx, and every deviation through
ctx.require / ctx.fail.
"""
import contextlib
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter, deque

import numpy as N

MAX_VIOLATIONS_PER_SHARD = 5


def plain(o):
    """JSON-able form of a case"""
    if isinstance(o, N.ndarray):
        return o.tolist()
    if isinstance(o, (N.floating, N.integer, N.bool_)):
        return o.item()
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [plain(i) for i in o]
    if isinstance(o, float) and o != o:
        return "NaN"
    return o


def key64(o):
    if not isinstance(o, (bytes, str)):
        o = json.dumps(plain(o), sort_keys=True, default=repr)
    if isinstance(o, str):
        o = o.encode()
    return int.from_bytes(hashlib.blake2b(o, digest_size=8).digest(), "big")


class Stop(Exception):
    pass


class Ctx(object):
    def __init__(self, replay=None):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.maxdepth = 0
        self.outcomes = Counter()
        self.notes = Counter()
        self.violations = []
        self.findings = []
        self.samples = []
        self.current = None
        self.replay = None if replay is None else json.dumps(replay, sort_keys=True)

    # -- enumeration ---------------------------------------------------------
    def cases(self, it):
        """Iterate over cases; when replaying only over the recorded one"""
        for c in it:
            if self.replay is not None and json.dumps(plain(c), sort_keys=True) != self.replay:
                continue
            yield c

    @contextlib.contextmanager
    def case(self, desc, trace=True):
        """Everything that happens for one case. An exception is a deviation."""
        self.current = desc
        try:
            yield
        except Stop:
            raise
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = "; ".join("{}:{}".format(f.filename, f.lineno) for f in tb[-3:])
            self.fail("raised {}: {} [{}]".format(type(e).__name__, e, where))
        if trace:
            self.traces += 1
        if len(self.samples) < 2:
            self.samples.append(plain(desc))

    def state(self, key, outcome=None):
        k = key64(key)
        new = k not in self.states
        self.states.add(k)
        if outcome is not None:
            self.outcomes[str(outcome)] += 1
        return new

    def step(self, n=1):
        self.transitions += n

    def depth(self, d):
        self.maxdepth = max(self.maxdepth, d)

    # -- oracle --------------------------------------------------------------
    def fail(self, msg):
        self.violations.append(dict(case=plain(self.current), message=str(msg)[:2000]))
        if len(self.violations) >= MAX_VIOLATIONS_PER_SHARD:
            raise Stop()

    def require(self, cond, msg, *args):
        if not bool(N.all(cond)):
            self.fail(msg.format(*args) if args else msg)
            return False
        return True

    def close(self, a, b, msg, tol=1e-9, scale=None):
        """|a-b| <= tol*scale everywhere (NaN never passes)"""
        a = N.asarray(a, dtype=float)
        b = N.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail("{}: shape {} instead of {}".format(msg, a.shape, b.shape))
            return False
        if scale is None:
            scale = max(1.0, float(N.max(N.abs(b))) if b.size else 1.0)
        if a.size == 0:
            return True
        ok = N.abs(a - b) <= tol * scale
        if not ok.all():
            i = tuple(int(x) for x in N.argwhere(~ok)[0])
            self.fail("{}: got {!r}, expected {!r} at {} ({} of {} differ)".format(
                msg, float(a[i]), float(b[i]), i, int((~ok).sum()), ok.size))
            return False
        return True

    def known(self, key, broken, msg):
        """A deviation recorded in known_findings.json under `key`"""
        if broken:
            self.findings.append(dict(key=key, case=plain(self.current), message=str(msg)[:500]))

    # -- explicit-state search ------------------------------------------------
    def bfs(self, initial, events, build, canon, check, max_depth, check_step=None):
        """
        Breadth-first search where a state is the event history that reaches
        it; `build(initial, history)` replays it on fresh real objects.
        """
        s0 = build(initial, ())
        self._visit(initial, (), s0, check)
        k0 = key64([initial, canon(s0)])
        seen = {k0}
        self.states.add(k0)
        frontier = deque([()])
        while frontier:
            hist = frontier.popleft()
            if len(hist) >= max_depth:
                continue
            base = build(initial, hist)
            for ev in events(base, hist):
                nxt = hist + (ev,)
                desc = dict(initial=initial, history=list(nxt))
                if self.replay is not None:
                    r = json.loads(self.replay)
                    if plain(initial) != r.get("initial") or \
                            plain(list(nxt)) != r["history"][:len(nxt)]:
                        continue
                self.transitions += 1
                self.depth(len(nxt))
                with self.case(desc):
                    s = build(initial, nxt)
                    check(s, nxt)
                    if check_step is not None:
                        check_step(hist, ev, s)
                    k = key64([initial, canon(s)])
                    if k not in seen:
                        seen.add(k)
                        self.states.add(k)
                        frontier.append(nxt)
        return len(seen)

    def _visit(self, initial, hist, s, check):
        with self.case(dict(initial=initial, history=list(hist))):
            check(s, hist)


def deviations(dims, k):
    """
    All assignments of the dimensions (dict name -> values, default first)
    in which at most k of them depart from their default.
    """
    names = list(dims)
    base = {n: dims[n][0] for n in names}
    for r in range(k + 1):
        for sub in itertools.combinations(names, r):
            for vals in itertools.product(*(dims[n][1:] for n in sub)):
                c = dict(base)
                c.update(zip(sub, vals))
                yield c


def _run_shard(args):
    module, name, kwargs, replay = args
    ctx = Ctx(replay)
    err = None
    try:
        with N.errstate(all="ignore"):
            module.TASKS[name](ctx, **kwargs)
    except Stop:
        pass
    except Exception:
        err = traceback.format_exc()
    return dict(task=name, kwargs=kwargs, states=ctx.states, transitions=ctx.transitions,
                traces=ctx.traces, maxdepth=ctx.maxdepth, outcomes=ctx.outcomes,
                notes=ctx.notes, violations=ctx.violations, findings=ctx.findings,
                samples=ctx.samples, error=err, current=plain(ctx.current))


_MODULE = None


def _entry(a):
    return _run_shard((_MODULE,) + a)


def run_shards(module, shards, replay=None, procs=None):
    global _MODULE
    _MODULE = module
    procs = procs or int(os.environ.get("VERIF_PROCS", "0")) or os.cpu_count() or 1
    jobs = [(n, k, replay) for n, k in shards]
    if len(jobs) == 1 or replay is not None:
        return [_entry(j) for j in jobs]
    c = mp.get_context("fork")
    with c.Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
        return list(pool.imap(_entry, jobs, chunksize=1))


def split(name, n, **kw):
    """n disjoint shards of a task which enumerates cases by index modulo n"""
    return [(name, dict(kw, part=i, parts=n)) for i in range(n)]


def part_of(it, part, parts):
    for i, c in enumerate(it):
        if i % parts == part:
            yield c


def isolated(fn, *args):
    """Result of fn in a forked child: what a fresh process would answer"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn(*args))
            except Exception as e:
                out = (False, "{}: {}".format(type(e).__name__, e))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, val = pickle.loads(data)
    if not ok:
        raise RuntimeError(val)
    return val
