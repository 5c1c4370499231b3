"""Grouping keeps membership consistent: one group per measurement."""
import copy
import itertools

import numpy as N
from attitude.orientation import PCAOrientation, create_groups
from attitude.orientation.grouped import GroupedOrientation, GroupedPlaneError, disable_orientations

from ..engine import key64, split
from ..universe import frame, spiral

BOUNDS = dict(
    quick="explicit-state search: 2 measurements to depth 4, 3 to depth 3, 4 to depth 2, every subset of identifiers up to size 3 (known, grouped, group, unknown), "
          "1-2 groups per call, copy/no copy, disable, dropping entries from the collection; collections with two equal measurements; names that are almost an identifier; groups of every size out of 4, 5, 7 and 12 measurements with up to all names disabled at once",
    thorough="3 measurements to depth 4, 4 measurements to depth 3, 5 measurements to depth 2")
ASSUMPTIONS = ["a call that names several groups and is refused part-way may have formed the earlier ones when copying is off; either outcome must be consistent"]

UNKNOWN = "ffffffff"


_PROTO = {}


def measurements(k, dup=False):
    """Fresh measurements (copies of prototypes fitted once per process); dup: the last repeats the first"""
    if k not in _PROTO:
        _PROTO[k] = _measurements(k)
    out = [copy.copy(o) for o in _PROTO[k]]
    if dup:
        out[-1] = copy.copy(_PROTO[k][0])
    return out


def _measurements(k):
    return [PCAOrientation(spiral(5 + i, (5., 2. + i, .3)).dot(frame(20 + 50 * i, 10 + 15 * i, 30)) + (10 * i, i, 1)) for i in range(k)]


class World(object):
    """The real collection together with the reference model"""

    def __init__(self, k, dup=False):
        self.coll = measurements(k, dup)
        # model: ordered labels; group membership by label; disabled labels
        self.order = list(range(k))
        self.groups = {}
        self.disabled = set()
        self.hash = {i: o.hash for i, o in enumerate(self.coll)}
        self.next = k
        self.called = False
        self.problems = []
        self.outcome = "initial"

    # -- reference model ------------------------------------------------------
    def lookup(self, order, uid):
        for l in order:
            if self.hash[l] == uid:
                return l

    def uid(self, l):
        return UNKNOWN if l is None else self.hash[l]

    def require(self, cond, msg, *a):
        if not cond:
            self.problems.append(msg.format(*a))

    # -- events -----------------------------------------------------------------
    def snapshot(self, coll):
        def s(o):
            return (id(o), None if o.member_of is None else id(o.member_of), [id(m) for m in getattr(o, "members", ())], o.disabled,
                    N.asarray(o.axes).tobytes(), o.n)
        return [s(o) for o in coll] + [s(m) for o in coll for m in getattr(o, "members", ())]

    def create(self, lists, copied, same, default=False):
        uids = [[self.uid(l) for l in g] for g in lists]
        before = list(self.coll)
        snap = self.snapshot(before)
        inplace = self.coll
        kw = {} if default else dict(copy=copied)
        if same:
            kw["same_plane"] = True
        # expectation
        grouped = {m for g, ms in self.groups.items() if g in self.order for m in ms}
        order, new, allowed = list(self.order), [], set()
        taken = set(grouped)
        for g in uids:
            vals = [self.lookup(order, u) for u in g]
            if None in vals:
                allowed.add(KeyError)
            if any(v is not None and v in taken for v in vals):
                allowed.add(GroupedPlaneError)
            if any(v in self.groups or v in [n for n, _ in new] for v in vals if v is not None):
                allowed.add(GroupedPlaneError)
            if allowed:
                break
            l = self.next + len(new)
            new.append((l, vals))
            taken |= set(vals)
            order.append(l)
            # the identifier of the group to be, for later lists of the same call
            self.hash[l] = ("pending", l)
        raised = None
        try:
            out = create_groups(self.coll, *uids, **kw)
        except (KeyError, GroupedPlaneError) as e:
            raised = e
        if allowed:
            self.outcome = "refused " + "/".join(sorted(x.__name__ for x in allowed))
            self.require(raised is not None, "create_groups({}) should have been refused", lists)
            if raised is not None:
                self.require(isinstance(raised, tuple(allowed)), "create_groups({}) raised {!r}", lists, raised)
            for l, _ in new:
                self.hash.pop(l, None)
            if copied:
                self.require(self.snapshot(before) == snap and len(self.coll) == len(before) and
                             all(a is b for a, b in zip(self.coll, before)), "refused grouping changed the caller's collection")
            else:
                # in place: earlier lists of the same call may have been formed
                extra = self.coll[len(before):]
                self.require(len(extra) in (0, len(new)), "refused grouping left {} groups", len(extra))
                if len(extra) == len(new):
                    for (l, vals), o in zip(new, extra):
                        self.add(l, vals, o)
                self.called = True
                self.verify()
            return
        self.outcome = "grouped {}{}".format(len(new), " in place" if not copied else "")
        if raised is not None:
            for l, _ in new:
                self.hash.pop(l, None)
            self.require(False, "create_groups({}) was refused: {!r}", lists, raised)
            return
        if copied:
            self.require(self.snapshot(before) == snap and len(self.coll) == len(before), "grouping changed the caller's collection")
            self.require(not any(a is b for a in out for b in before), "returned collection shares measurements with the caller's")
            self.require(out is not inplace, "returned the caller's list")
        else:
            self.require(all(a is b for a, b in zip(out, before)), "grouping without copying replaced measurements")
        self.coll = out
        self.require(len(out) == len(before) + len(new), "{} entries instead of {}", len(out), len(before) + len(new))
        for (l, vals), o in zip(new, out[len(before):]):
            self.add(l, vals, o)
            self.require(bool(getattr(o, "same_plane", False)) == same, "same_plane flag")
        self.called = True
        self.verify()

    def add(self, l, vals, o):
        self.groups[l] = tuple(vals)
        self.hash[l] = o.hash
        self.order.append(l)
        self.next = max(self.next, l + 1)

    def disable(self, labels):
        uids = [self.uid(l) for l in labels]
        targets, unknown = [], False
        for u in uids:
            t = self.lookup(self.order, u)
            if t is None:
                unknown = True
                break
            targets.append(t)
        try:
            out = disable_orientations(self.coll, *uids)
            self.require(not unknown, "unknown identifier was accepted")
            self.require(list(map(id, out)) == list(map(id, self.coll)), "disable returned another collection")
            self.disabled |= set(targets)
            self.outcome = "disabled"
        except KeyError:
            self.require(unknown, "known identifier was refused")
            # names before the unknown one may have been applied
            got = {l for l, o in zip(self.order, self.coll) if o.disabled}
            was = self.disabled & set(self.order)
            self.require(got in (was, was | set(targets)), "partial disabling")
            self.disabled = got | {l for l in self.disabled if l not in self.order}
            self.outcome = "disable refused"
        self.verify()

    def drop(self, i):
        """The user filters the collection"""
        self.order = self.order[:i] + self.order[i + 1:]
        self.coll = self.coll[:i] + self.coll[i + 1:]
        self.called = False
        self.outcome = "dropped"

    # -- invariant -----------------------------------------------------------------
    def verify(self):
        R = self.require
        R(len(self.coll) == len(self.order), "collection has {} entries instead of {}", len(self.coll), len(self.order))
        byl = dict(zip(self.order, self.coll))
        for l, o in byl.items():
            R(o.hash == self.hash[l], "identifier of entry {} changed", l)
            R(bool(o.disabled) == (l in self.disabled), "disabled flag of {} is {}", l, o.disabled)
            R(hasattr(o, "members") == (l in self.groups), "entry {} is {} a group", l, "" if hasattr(o, "members") else "not")
        if not self.called:
            return
        count = {}
        for l, o in byl.items():
            if l not in self.groups:
                continue
            R(isinstance(o, GroupedOrientation), "group type")
            R([m.hash for m in o.members] == [self.hash[m] for m in self.groups[l]], "members of group {}", l)
            for ml, m in zip(self.groups[l], o.members):
                count[id(m)] = count.get(id(m), 0) + 1
                R(m.member_of is o, "member {} of group {} names {} as its group", ml, l,
                  None if m.member_of is None else getattr(m.member_of, "hash", m.member_of))
                if ml in byl:
                    R(m is byl[ml], "member {} of group {} is not the measurement in the collection", ml, l)
            R(o.member_of is None, "a group belongs to a group")
        R(all(v == 1 for v in count.values()), "a measurement is listed by two groups")
        owner = {m: g for g, ms in self.groups.items() if g in byl for m in ms}
        for l, o in byl.items():
            if l in self.groups:
                continue
            want = byl[owner[l]] if l in owner else None
            R(o.member_of is want, "measurement {} names {} as its group instead of {}", l,
              getattr(o.member_of, "hash", None), getattr(want, "hash", None))

    def canon(self):
        idx = {id(o): i for i, o in enumerate(self.coll)}
        return (self.order, sorted((g, m) for g, m in self.groups.items()), sorted(self.disabled), self.called,
                [(None if o.member_of is None else idx.get(id(o.member_of), "out"),
                  [idx.get(id(m), "out") for m in getattr(o, "members", ())], o.disabled) for o in self.coll])


def apply(w, ev):
    kind = ev[0]
    if kind == "create":
        w.create([list(g) for g in ev[1]], ev[2], ev[3])
    elif kind == "default":
        w.create([list(g) for g in ev[1]], True, False, default=True)
    elif kind == "disable":
        w.disable(list(ev[1]))
    elif kind == "drop":
        w.drop(ev[1])


def events(w, wide):
    ids = list(w.order) + [None]
    out = []
    subs = [s for r in (1, 2, 3) for s in itertools.combinations(ids, r)]
    for s in subs:
        for cp in (True, False):
            out.append(("create", (s,), cp, False))
    out.append(("create", (), True, False))
    out.append(("create", (), False, False))
    out.append(("default", (tuple(w.order[:2]),)))
    out.append(("create", (tuple(reversed(w.order[:3])),), False, True))
    out.append(("create", (tuple(reversed(w.order[-2:])),), True, True))
    pairs = [s for s in subs if len(s) == 2 and None not in s]
    for a, b in itertools.permutations(pairs, 2):
        if wide or a[0] < b[0] or set(a) & set(b):
            for cp in (True, False):
                out.append(("create", (a, b), cp, False))
    if w.order:
        out.append(("create", ((w.order[0],), (None,)), False, False))
        out.append(("create", ((w.order[0],), (w.order[-1],), (w.order[len(w.order) // 2],)), True, False))
    for s in [s for r in (1, 2) for s in itertools.permutations(ids, r)]:
        out.append(("disable", s))
    for i in range(len(w.order)):
        out.append(("drop", i))
    # a group without members is outside the property
    # and so is naming the same measurement twice in one list
    def named(g):
        v = [w.lookup(w.order, w.uid(l)) for l in g]
        return len(v) and len(v) == len(set(v))
    return [e for e in out if e[0] not in ("create", "default") or all(named(g) for g in e[1])]


def build(k, hist, dup=False):
    w = World(k, dup)
    for e in hist:
        apply(w, e)
    return w


def search(ctx, k, depth, first, wide=False, dup=False):
    """first: the shard's share of events at the root, by index modulo"""
    part, parts = first
    w0 = build(k, (), dup)
    w0.verify()
    seen = {key64([k, dup, w0.canon()])}
    ctx.state([k, dup, w0.canon()], "initial")
    frontier = [()]
    while frontier:
        hist = frontier.pop(0)
        if len(hist) >= depth:
            continue
        evs = events(build(k, hist, dup), wide)
        for i, ev in enumerate(evs):
            if not hist and i % parts != part:
                continue
            h = hist + (ev,)
            with ctx.case(dict(k=k, dup=dup, history=h)):
                w = build(k, hist, dup)
                w.problems = []
                apply(w, ev)
                ctx.step()
                ctx.depth(len(h))
                for p in w.problems:
                    ctx.fail(p)
                key = key64([k, dup, w.canon()])
                if key not in seen and not w.problems:
                    seen.add(key)
                    ctx.state([k, dup, w.canon()], w.outcome)
                    frontier.append(h)
                else:
                    ctx.outcomes[w.outcome] += 1


def direct(ctx):
    """Groups made without the helper"""
    for n, same in ctx.cases(itertools.product((1, 2, 3, 4), (False, True))):
        with ctx.case((n, same)):
            m = measurements(n)
            g = GroupedOrientation(*m, same_plane=same)
            ctx.step()
            ctx.require(list(g.members) == m and all(x.member_of is g for x in m) and g.member_of is None, "membership")
            other = measurements(n + 1)[-1]
            for bad in ((g,), (g, other), (other, g)):
                ctx.step()
                try:
                    GroupedOrientation(*bad)
                except GroupedPlaneError:
                    pass
                else:
                    ctx.fail("a group of groups was accepted")
                ctx.require(other.member_of is None and g.member_of is None and all(x.member_of is g for x in m),
                            "refused group changed memberships")
            ctx.state(("direct", n, same))


def names(ctx):
    """Only a complete identifier names a measurement; the refusal leaves everything as it was"""
    for k, grouped in ctx.cases(itertools.product((1, 2, 3), (False, True))):
        base = measurements(k)
        if grouped:
            base = create_groups(base, [base[0].hash])
        known = {o.hash for o in base}
        bad = {""}
        for h in known:
            bad |= {h[:1], h[:4], h[:7], h[1:], h + "0", h + h, h.upper(), " " + h, h + " ", h[::-1], "0x" + h}
        for uid in sorted(bad - known):
            for how in ("only", "first", "last", "disable"):
                with ctx.case((k, grouped, uid, how)):
                    w = World(0)
                    w.coll = list(base)
                    snap = w.snapshot(base)
                    good = base[-2 if grouped and k > 1 else -1].hash
                    ctx.step()
                    try:
                        if how == "disable":
                            disable_orientations(w.coll, uid)
                        else:
                            create_groups(w.coll, dict(only=[uid], first=[uid, good], last=[good, uid])[how])
                    except KeyError:
                        pass
                    except GroupedPlaneError:
                        # the other name may be refused first
                        ctx.require(how == "last" and grouped and k == 1, "unknown identifier {!r} gave a grouping error", uid)
                    else:
                        ctx.fail("unknown identifier {!r} was accepted".format(uid))
                    ctx.require(w.snapshot(w.coll) == snap, "refused call changed the collection")
                    ctx.state((k, grouped, uid, how))


def many(ctx, k):
    """Groups of every size and any number of names at once"""
    sizes = [(r, (r0 + 1) % 2) for r in range(1, k + 1) for r0 in (0, 1)]
    for r, rev in ctx.cases(sizes):
        for cp, same, tail in itertools.product((True, False), (False, True), (0, 1, 2)):
            for off in ((), (0, 1, 2), tuple(range(k)), (k - 1, 0, k // 2, 1), "group+"):
                with ctx.case((k, r, rev, cp, same, tail, off)):
                    w = World(k)
                    g = list(range(r))[::-1] if rev else list(range(r))
                    rest = [l for l in range(k) if l not in g]
                    lists = [g]
                    if tail == 1 and rest:
                        lists.append(rest)
                    if tail == 2:
                        # one each
                        lists += [[l] for l in rest]
                    w.create(lists, cp, same)
                    ctx.step()
                    if off:
                        w.disable(w.order[k:] + [0, 1] + w.order[k:k + 1] if off == "group+" else list(off))
                        ctx.step()
                    w.create([], cp, False)
                    # measurements in use stay refused, whichever the number of names
                    w.create([[0]] if not rest else [[rest[-1], 0]], True, False)
                    w.create([w.order[:k] + [None]], False, False)
                    w.verify()
                    ctx.step(3)
                    ctx.depth(5)
                    for q in w.problems:
                        ctx.fail(q)
                    ctx.state([k, r, rev, cp, same, tail, off, w.canon()], "many")


TASKS = dict(many=many, search=search, direct=direct, names=names)


def shards(tier):
    out = [("direct", {}), ("names", {})] + [("many", dict(k=k)) for k in ((4, 5, 7, 12) if tier == "quick" else (4, 5, 6, 7, 8, 12, 20))]
    for k, d in ((2, 3), (3, 2)) if tier == "quick" else ((2, 4), (3, 3)):
        out += [("search", dict(k=k, depth=d, first=(i, 8), dup=True)) for i in range(8)]
    plan = [(2, 4, 4), (3, 3, 32), (4, 2, 16)] if tier == "quick" else [(2, 5, 2), (3, 3, 24), (4, 3, 32), (5, 2, 24)]
    for k, d, p in plan:
        out += [("search", dict(k=k, depth=d, first=(i, p), wide=tier != "quick" and k < 5)) for i in range(p)]
    return out
