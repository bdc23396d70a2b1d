"""Monitors of the guarantees every container shares."""
import collections
import random
import warnings
from decimal import Decimal
from fractions import Fraction

from . import runtime
from .engine import Scenario
from .kinds import (BOUNDED, BY_NAME, INF, KINDS, KIND_OF, Kind, difference, key, observe)
from .kinds import (CircularLinkedList, DoublyLinkedList, LinkedList, PriorityQueue, SkipList,
                    SplayTree, Treap)
from .runtime import Violation, same, same_seq, short
from .seqs import check_links
from .values import Bag, Count, Mute, Row, Tag, Thing, Yes, at, frac, num_pool, obj_pool, stored

NAMES = [k.name for k in KINDS]
observe_all = observe


def reseed(*k):
    """The same random choices for two instances doing the same thing."""
    runtime.seed_all(hash(k) & 0xFFFFFFFF)


BIG = (40, 70, 130, 260)


def gen_start(r, kind, nxt, sizes, big=BIG, chance=.04):
    """What a container holds at first; now and then, a lot of it (with a
    value source giving enough different values)."""
    if r.random() >= chance:
        return [nxt() for _ in range(r.choice(sizes))], nxt
    n = r.choice(big)
    if kind.pool == "num":
        nxt = lambda: r.randint(-n, 3 * n) / r.choice([1, 1, 1, 2])
    elif kind.pool == "word":
        letters = r.choice(["ab", "abc", "abcdefgh"])
        nxt = lambda: "".join(r.choice(letters) for _ in range(r.randint(2, 9)))
    elif r.random() < .5:
        nxt = lambda: r.randrange(n)
    return [nxt() for _ in range(n)], nxt


def gen_cap(r, kind, start, caps):
    if kind.name not in BOUNDED:
        return None
    n = len(start)
    return r.choice(caps if n < 40 else [None, None, n, n - 9, n + 3.5])


def gen_ops(r, kind, n, extra=(), nxt=None):
    nxt = nxt or kind.values(r)
    names = list(kind.ops) + list(extra)
    return [(r.choice(names), nxt(), frac(r), r.randrange(1 << 20)) for _ in range(n)], nxt


class Rejections(Scenario):
    """Rejected calls leave no trace: twin instances get the same history, one
    of them with invalid calls in between."""

    def __init__(self):
        self.name = "rejections"
        self.required = tuple("rejected:" + n for n in NAMES)

    def gen(self, r):
        kind = r.choice(KINDS)
        start, nxt = gen_start(r, kind, kind.values(r), [0, 0, 1, 2, 3, 6])
        ops, nxt = gen_ops(r, kind, r.choice([3, 8, 20] if len(start) < 40 else [3, 5]), nxt=nxt)
        return {"kind": kind.name, "start": start,
                "cap": gen_cap(r, kind, start, [None, None, 1, 3, 5])}, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        Kind.settled = True
        reseed(0)
        c = ctx.do("build", kind.build, cfg["start"], cfg["cap"])
        reseed(0)
        twin = ctx.do("build", kind.build, cfg["start"], cfg["cap"])
        self.attack(ctx, kind, c, len(ops))
        for k, (o, v, f, salt) in enumerate(ops):
            reseed(k, salt)
            a = ctx.do(o, kind.apply, c, o, v, f, salt)
            reseed(k, salt)
            b = kind.apply(twin, o, v, f, salt)
            ctx.check(key(a) == key(b), f"{kind.name}: {o} after rejected calls gave {short(a)}, "
                                        f"without them {short(b)}")
            x, y = observe(c, False), observe(twin, False)
            ctx.check(x == y, lambda: f"{kind.name}: after rejected calls, {o} {short(v)} leads "
                                      f"to {difference(x, y)} without them")
            self.attack(ctx, kind, c, salt)
            ctx.state(kind.name, o, repr(x)[:300])

    def attack(self, ctx, kind, c, salt):
        calls = list(kind.bad(c, salt))
        n = len(calls)
        before = observe(c)
        for j in range(3):
            what, exc, call = calls[(salt // 7 + j * (1 + salt % 11)) % n]
            ctx.rejects(f"{kind.name}: {what}", exc, call)
            ctx.ev("rejected:" + kind.name)
        after = observe(c)
        ctx.check(before == after, lambda: f"{kind.name}: a rejected call ({what} or one just "
                                           f"before) changed {difference(before, after)}")


WARNING = ("Queue:full", "Deque:full", "PriorityQueue:full", "Stack:empty", "Queue:empty",
           "Deque:empty", "PriorityQueue:empty", "BST", "AVL", "RedBlackTree", "SplayTree", "Treap",
           "MinHeap", "MaxHeap", "Trie", "RadixTrie")


class Warned(Scenario):
    """Warnings the user turned into errors: the operation has then failed, and
    the instance is the same as a twin's on which it was never called."""

    name = "warned"
    required = tuple("warned:" + w for w in WARNING)

    def gen(self, r):
        kind = BY_NAME[r.choice(WARNING).split(":")[0]]
        start, nxt = gen_start(r, kind, kind.values(r), [0, 1, 2, 3, 6, 12])
        ops, nxt = gen_ops(r, kind, r.choice([4, 10, 24] if len(start) < 40 else [4, 8]), nxt=nxt)
        if kind.name == "SplayTree":  # whose nodes may lie elsewhere than the twin's
            ops = [("insert" if o == "insert" else "remove", *rest) for o, *rest in ops]
        return {"kind": kind.name, "start": start,
                "cap": gen_cap(r, kind, start, [None, 1, 2, 3, 5])}, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        Kind.settled = True

        def observe(c, chance=False):
            if kind.name == "SplayTree":  # which may have moved the nodes on the way already
                return [("contents", key(c.inorder_traverse())), ("len", len(c))]
            return observe_all(c, chance)

        reseed(0)
        c = ctx.do("build", kind.build, cfg["start"], cfg["cap"])
        reseed(0)
        twin = kind.build(cfg["start"], cfg["cap"])
        for k, (o, v, f, salt) in enumerate(ops):
            before, failed = observe(c, False), None
            size = len(c)
            ctx.note(o, v, f, salt)
            with warnings.catch_warnings():
                warnings.simplefilter("error", UserWarning)
                reseed(k, salt)
                try:
                    a = ctx._run(o, kind.apply, (c, o, v, f, salt), {}, runtime.DEFAULT_LIMIT)
                except UserWarning as e:
                    failed = e
            if failed is None:
                reseed(k, salt)
                b = kind.apply(twin, o, v, f, salt)
                ctx.check(key(a) == key(b), f"{kind.name}: {o} gave {short(a)}, on a twin whose "
                                            f"warnings never failed it gives {short(b)}")
            else:
                what = kind.name
                if what in BOUNDED:
                    what += ":empty" if not size else ":full"
                ctx.ev("warned:" + what)
                after = observe(c, False)
                ctx.check(before == after,
                          lambda: f"{kind.name}: {o} {short(v)} failed with the warning "
                                  f"{short(str(failed))}, but changed {difference(before, after)}")
            x, y = observe(c, False), observe(twin, False)
            ctx.check(x == y, lambda: f"{kind.name}: after {o} {short(v)} {difference(x, y)} of a "
                                      f"twin on which no warning became an error")
            ctx.state(kind.name, o, repr(x)[:300])


class Bomb:
    """A stored user object whose comparison can be made to fail."""

    def __init__(self, n):
        self.n = n
        self.armed = False

    def __eq__(self, other):
        if self.armed:
            raise ArithmeticError("boom")
        return self is other

    __hash__ = None

    def __repr__(self):
        return f"Bomb#{self.n}"


class UserFaults(Scenario):
    """Faults injected into user code the containers call back (comparisons of
    stored objects, iterators given to them): afterwards they're still sound."""

    required = ("fault:in", "fault:count", "fault:remove", "fault:remove_first",
                "fault:compare", "fault:iterator", "fault:enumerate")
    name = "user_faults"

    def gen(self, r):
        kind = r.choice(["LinkedList", "DoublyLinkedList", "CircularLinkedList"])
        n = r.choice([1, 2, 3, 5, 9])
        ops = [(r.choice(["in", "count", "remove", "remove_first", "compare", "iterator",
                          "enumerate", "add", "del"]), frac(r), r.randrange(1 << 20))
               for _ in range(r.choice([3, 8]))]
        return {"kind": kind, "vals": [r.choice([r.randrange(3), "B"]) for _ in range(n)]}, ops

    def run(self, ctx, cfg, ops):
        cls = BY_NAME[cfg["kind"]].cls
        M = [Bomb(i) if v == "B" else v for i, v in enumerate(cfg["vals"])]
        c = ctx.do("build", cls, M)
        for o, f, salt in ops:
            bombs = [b for b in M if type(b) is Bomb]
            armed = bombs[salt % len(bombs)] if bombs else None
            target = salt % 3

            def faulty(fn):
                """Did the injected fault surface?"""
                if armed is None:
                    return False
                armed.armed = True
                try:
                    ctx._run(o, fn, (), {}, runtime.DEFAULT_LIMIT)
                except ArithmeticError:
                    ctx.ev("fault:" + o)
                    return True
                finally:
                    armed.armed = False
                return False

            ctx.note(o, target, M)
            if o == "in":
                faulty(lambda: target in c)
            elif o == "count":
                faulty(lambda: c.count(target))
            elif o == "compare":
                faulty(lambda: c == cls(c))
            elif o in ("remove", "remove_first"):
                hurt = faulty(lambda: c.remove(target, all=o == "remove"))
                equal = [i for i, x in enumerate(M) if type(x) is not Bomb and x == target]
                gone = set(equal if o == "remove" else equal[:1])
                if hurt:  # any part of the removal may have happened
                    got = c.to_list()
                    rest = iter(got)
                    nxt = next(rest, rest)
                    left = []
                    for i, x in enumerate(M):
                        if x is nxt:
                            left.append(x)
                            nxt = next(rest, rest)
                        else:
                            ctx.check(i in gone or type(x) is not Bomb and x == target,
                                      f"{cls.__name__}: a comparison failed while removing "
                                      f"{target} out of {short(M)}, it holds {short(got)}")
                    M = left
                else:
                    if armed is None:
                        ctx.do(o, c.remove, target, all=o == "remove")
                    M = [x for i, x in enumerate(M) if i not in gone]
            elif o == "iterator":
                def source():
                    yield from [1, 2][:salt % 3]
                    raise ArithmeticError("boom")

                try:
                    ctx._run(o, cls, (source(),), {}, runtime.DEFAULT_LIMIT)
                except ArithmeticError:
                    ctx.ev("fault:iterator")
                else:
                    raise Violation("the failure of an iterator went unnoticed")
            elif o == "enumerate":
                ctx.ev("fault:enumerate")
                it = iter(c)
                next(it, None)
                it.close()
            elif o == "add":
                b = Bomb(100 + salt % 50)
                ctx.do("add_end", c.add_end, b)
                M = M + [b]
            elif M:
                i = at(f, len(M))
                ctx.do("del", c.__delitem__, i)
                M = M[:i] + M[i + 1:]
            got = c.to_list()
            ctx.check(len(got) == len(M) == len(c) and all(x is y for x, y in zip(got, M)),
                      f"{cls.__name__} after {o}: holds {short(got)}, expected {short(M)}")
            check_links(ctx, cls.__name__, c)
            ctx.state(cls.__name__, o, repr(M))


class Emptied(Scenario):
    """An emptied container can't be told from a new one, whatever happens next."""

    def __init__(self):
        self.name = "emptied"
        self.required = tuple(f"emptied:{n}" for n in NAMES) + ("by:clear", "by:drain")

    def gen(self, r):
        kind = r.choice(KINDS)
        start, nxt = gen_start(r, kind, kind.values(r), [0, 1, 1, 2, 3, 6, 14])
        ops, nxt = gen_ops(r, kind, r.choice([3, 8, 20]), nxt=nxt)
        return {"kind": kind.name, "how": r.choice(("clear",) + kind.drains + kind.drains),
                "salts": [r.randrange(1 << 20) for _ in range(30)],
                "cap": gen_cap(r, kind, start, [None, None, 1, 3, 5]),
                "start": start,
                "warm": gen_ops(r, kind, r.choice([0, 0, 5, 12]), nxt=nxt)[0], "twice": r.random() < .2,
                }, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        Kind.settled = True
        how = cfg["how"]
        c = ctx.do("build", kind.build, cfg["start"], cfg["cap"])
        for o, v, f, salt in cfg["warm"]:
            ctx.do(o, kind.apply, c, o, v, f, salt)
        n0 = len(c)
        for again in range(1 + cfg["twice"]):
            if how == "clear":
                ctx.do("clear", c.clear)
                ctx.ev("by:clear")
            else:
                k = 0
                while not c.is_empty():
                    ctx.do("drain:" + how, kind.drain, c, how, cfg["salts"][k % 30])
                    k += 1
                    ctx.check(k <= 5000, f"{kind.name}: still not empty after {k} removals")
                ctx.ev("by:drain")
            if cfg["twice"] and not again:
                for j, v in enumerate(cfg["start"]):
                    kind.add(c, v, j)
        if n0:
            ctx.ev("emptied:" + kind.name)
        fresh = kind.make(cfg["cap"])
        a, b = observe(c), observe(fresh)
        ctx.check(a == b, lambda: f"{kind.name} emptied by {how} against a new one: "
                                  f"{difference(a, b)}")
        for k, (o, v, f, salt) in enumerate(ops):
            reseed(k, salt)
            x = ctx.do(o, kind.apply, c, o, v, f, salt)
            wx = ctx.warned()
            reseed(k, salt)
            y = ctx.do(o, kind.apply, fresh, o, v, f, salt)
            wy = ctx.warned()
            ctx.check(key(x) == key(y) and wx == wy,
                      f"{kind.name} emptied by {how}: {o} gives {short(x)} ({wx} warnings), "
                      f"a new one gives {short(y)} ({wy} warnings)")
            a, b = observe(c, False), observe(fresh, False)
            ctx.check(a == b, lambda: f"{kind.name} emptied by {how}, then {o} {short(v)}: "
                                      f"{difference(a, b)} of a new one")
            if kind.name in NAMES[:3]:
                check_links(ctx, kind.name, c)
            ctx.state(kind.name, how, o, repr(a)[:300])


class Sizes(Scenario):
    """Size accounting: what len/is_empty/is_full say is what's really there."""

    def __init__(self):
        self.name = "sizes"
        self.required = tuple(f"sized:{n}" for n in NAMES) + ("grew", "shrank", "same")

    def gen(self, r):
        kind = r.choice(KINDS)
        start, nxt = gen_start(r, kind, kind.values(r), [0, 0, 1, 3, 9])
        ops, nxt = gen_ops(r, kind, r.choice([5, 15, 40]), ("clear",) if r.random() < .3 else (),
                           nxt=nxt)
        return {"kind": kind.name, "start": start,
                "cap": r.choice([None, 0, 1, 3, 5, 2.5] if len(start) < 40 else
                                [None, None, len(start), len(start) - 9, len(start) + 3.5]) if kind.name in BOUNDED else None}, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        c = ctx.do("build", kind.build, cfg["start"], cfg["cap"])
        cap = INF if cfg["cap"] is None else round(cfg["cap"])
        n = self.check(ctx, kind, c, cap, "building")
        for o, v, f, salt in ops:
            if o == "clear":
                ctx.do(o, c.clear)
            else:
                ctx.do(o, kind.apply, c, o, v, f, salt)
            m = self.check(ctx, kind, c, cap, o)
            ctx.ev("grew" if m > n else "shrank" if m < n else "same")
            n = m

    @staticmethod
    def check(ctx, kind, c, cap, o):
        n = len(c)
        name = kind.name
        ctx.ev("sized:" + name)
        ctx.check(type(n) is int and n >= 0, f"{name}: len() is {n!r} after {o}")
        if name in ("Trie", "RadixTrie"):
            labels = c.to_list()
            per = c.get_nodes_per_level()
            ctx.check(n == 1 + len(labels) == 1 + sum(map(len, per)),
                      f"{name} after {o}: len() is {n}, it has {len(labels)} nodes below its root")
            ctx.equal(f"{name}: is_empty() with {n} nodes", c.is_empty(), not labels)
            ctx.equal(f"{name}: is_empty() with words {short(c.auto_complete())}", c.is_empty(),
                      not c.auto_complete())
        else:
            if kind.iterable:
                items, listed = sum(1 for _ in c), len(c.to_list())
                ctx.check(items == n == listed, f"{name} after {o}: len() is {n}, it gives "
                                                f"{items} elements, to_list() {listed}")
                if hasattr(c, "get_nodes_per_level"):
                    k = sum(map(len, c.get_nodes_per_level()))
                    ctx.check(k == n, f"{name} after {o}: len() is {n}, its levels hold {k}")
            else:
                # the only way to count without changing it is its drawing
                bars = repr(c).split("\n")[0].count("┬") - (name != "Stack")
                ctx.check(bars == n, f"{name} after {o}: len() is {n}, it draws {bars} items")
            ctx.equal(f"{name}: is_empty() with {n} elements", c.is_empty(), n == 0)
        if name in BOUNDED:
            ctx.check(n <= cap, f"{name} with room for {cap} holds {n}")
            ctx.equal(f"{name}: is_full() with {n} of {cap}", c.is_full(), n == cap)
        ctx.state(name, o, n, cap)
        return n


class Queries(Scenario):
    """Queries change nothing and give the same answer again; iterators over
    the same instance don't disturb each other."""

    def __init__(self):
        self.name = "queries"
        self.required = tuple(f"queried:{n}" for n in NAMES) + ("iterators", "abandoned")

    def gen(self, r):
        kind = r.choice(KINDS)
        start, nxt = gen_start(r, kind, kind.values(r), [0, 1, 2, 3, 8, 20])
        ops, nxt = gen_ops(r, kind, r.choice([2, 6, 12] if len(start) < 40 else [2, 4]), nxt=nxt)
        return {"kind": kind.name, "start": start,
                "cap": gen_cap(r, kind, start, [None, None, 3])}, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        c = ctx.do("build", kind.build, cfg["start"], cfg["cap"])
        for o, v, f, salt in [("none", 1 if kind.pool != "word" else "a", .5, 7)] + ops:
            if o != "none":
                ctx.do(o, kind.apply, c, o, v, f, salt)
            before = observe(c)
            if kind.iterable and kind.pool != "word" and salt % 3 and len(c):
                v = list(c)[salt % len(c)]  # ask about what's inside
            reads = list(kind.reads(c, v, f, salt))
            said = {}
            for again in (False, True):
                for i, (what, q) in list(enumerate(reads))[::-1 if again else 1]:
                    got = key(ctx.do("q:" + what, q))
                    ctx.ev("queried:" + kind.name)
                    if again:
                        ctx.check(said[i] == got, f"{kind.name}: asking {what} twice gives "
                                                     f"{short(said[i])}, then {short(got)}")
                    said[i] = got
                after = observe(c)
                ctx.check(before == after, lambda: f"{kind.name}: one of the queries "
                          f"{[w for w, _ in reads]} changed {difference(before, after)}")
            if kind.iterable:
                want = list(c)
                i1, i2 = iter(c), iter(c)
                got1, got2 = [], []
                rr = random.Random(salt)
                while True:  # two iterators advanced in a random interleaving
                    it, got = (i1, got1) if rr.random() < .5 else (i2, got2)
                    try:
                        got.append(next(it))
                    except StopIteration:
                        got.extend([])
                        it2, g2 = (i2, got2) if it is i1 else (i1, got1)
                        g2.extend(it2)
                        break
                ctx.ev("iterators")
                ctx.check(same_seq(got1, want) and same_seq(got2, want),
                          f"{kind.name}: two interleaved iterators gave {short(got1)} and "
                          f"{short(got2)}, each has to give {short(want)}")
                i3 = iter(c)
                next(i3, None)
                del i3
                ctx.ev("abandoned")
                nest = [(x, y) for x in c for y in c] if len(want) <= 6 else []
                if nest or not want:
                    ctx.check(len(nest) == len(want) ** 2 or len(want) > 6,
                              f"{kind.name}: nested loops met {len(nest)} pairs of "
                              f"{len(want)} elements")
            ctx.state(kind.name, o, repr(before)[:300])


class Independence(Scenario):
    """Several instances, many of them made out of each other: changing one
    never shows in another, nor in a list handed in or out."""

    def __init__(self):
        self.name = "independence"
        self.required = tuple(f"independent:{n}" for n in NAMES) + \
            ("derive", "handed_out", "handed_in", "new")

    def gen(self, r):
        kind = r.choice(KINDS + KINDS[:3] * 3)
        names = ("new", "derive", "derive", "derive", "handed_out", "handed_in", "clear")
        start, nxt = gen_start(r, kind, kind.values(r), [0, 1, 2, 3, 6], (40, 70, 130), .03)
        ops, nxt = gen_ops(r, kind, r.choice([6, 15, 30] if len(start) < 40 else [4, 8]), names,
                           nxt=nxt)
        return {"kind": kind.name, "start": start,
                "pool": [nxt() for _ in range(9)],
                "cap": gen_cap(r, kind, start, [None, 3])}, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        cls = kind.cls
        seqs = kind.name in NAMES[:3]
        pool = [ctx.do("build", kind.build, cfg["start"], cfg["cap"]),
                ctx.do("build", kind.build, [], cfg["cap"])]
        seen = [observe(c) for c in pool]

        def put(c):
            if len(pool) < 7:
                pool.append(c)
                seen.append(observe(c))
            else:
                k = len(seen[0][3][1]) % 7
                pool[k] = c
                seen[k] = observe(c)

        for o, v, f, salt in ops:
            i = salt % len(pool)
            c = pool[i]
            n = len(c)
            ctx.ev("independent:" + kind.name)
            changed = i
            if o == "new":
                ctx.ev("new")
                put(ctx.do("new", kind.make, cfg["cap"]))
                changed = None
            elif o == "clear":
                ctx.do("clear", c.clear)
            elif o == "derive" and seqs:
                ctx.ev("derive")
                how = ("copy", "reverse", "rotl", "rotr", "ctor", "split", "slice",
                       "extend")[salt // 16 % 8]
                changed = None
                if how == "copy":
                    put(ctx.do(how, c.copy))
                elif how == "reverse":
                    put(ctx.do(how, c.reverse))
                elif how == "rotl":
                    put(ctx.do(how, c.rotate_left, salt % 5, inplace=False))
                elif how == "rotr":
                    put(ctx.do(how, c.rotate_right, salt % 5, inplace=False))
                elif how == "ctor":
                    put(ctx.do(how, cls, c))
                elif how == "split":
                    a, b = ctx.do(how, c.split, at(f, n + 1))
                    put(a)
                    put(b)
                elif how == "slice":
                    if cls is not CircularLinkedList:
                        put(ctx.do(how, c.__getitem__, slice(at(f, n + 1), None, 1 - 2 * (salt & 1))))
                else:
                    j = salt // 128 % len(pool)
                    if n + len(pool[j]) < 60:
                        ctx.do(how, c.extend, pool[j])
                        changed = i
            elif o == "derive":
                ctx.ev("derive")
                changed = None
                if kind.iterable and kind.name not in ("Trie", "RadixTrie"):
                    build = cls.heapify if "Heap" in kind.name else cls
                    put(ctx.do("made of another", build, c))
            elif o == "handed_out":
                ctx.ev("handed_out")
                changed = None
                for what in ("to_list",) * kind.iterable + kind.facts:
                    if what in ("top", "peek", "get_left", "get_right"):
                        continue  # a stored list is the user's own object
                    try:
                        got = getattr(c, what)()
                    except (IndexError, ValueError):
                        continue
                    if type(got) is list:
                        for x in got:
                            if type(x) is list and what == "get_nodes_per_level":
                                x.append(999)
                        got.append(888)
                        if got:
                            got[0] = 777
                        got.reverse()
            elif o == "handed_in":
                ctx.ev("handed_in")
                changed = None
                if kind.iterable and "Trie" not in kind.name:
                    src = list(cfg["pool"][:1 + salt % 9])
                    keep = list(src)
                    build = cls.heapify if "Heap" in kind.name else cls
                    new = ctx.do("made of a list", build, src)
                    ctx.check(same_seq(src, keep), f"{kind.name}: making one out of the list "
                                                   f"{short(keep)} changed it to {short(src)}")
                    put(new)
                    src.append(5)
                    src[0] = 6
                    src.clear()
            else:
                ctx.do(o, kind.apply, c, o, v, f, salt)
            for k, other in enumerate(pool):
                got = observe(other)
                if k == changed:
                    seen[k] = got
                elif got != seen[k]:
                    raise Violation(f"{kind.name}: {o} on instance {i} changed instance {k}: "
                                    f"{difference(seen[k], got)}")
            ctx.state(kind.name, o, repr(seen)[:300])


class Fidelity(Scenario):
    """Values come back as they were put in: same object, same type."""

    def __init__(self):
        self.name = "fidelity"
        self.required = tuple(f"given_back:{n}" for n in NAMES) + ("object", "text", "number")

    TEXTS = ["", " ", "a\nb", "\n", "\n\n", "x\\n", "tab\t", "é⟶", "None", "0", "\r\n", "a" * 80]

    def gen(self, r):
        kind = r.choice(KINDS)
        n = r.choice([1, 2, 4, 8, 16] if r.random() < .96 else [60, 150])
        if kind.pool == "obj":
            def one(i):
                return r.choice([lambda: Thing(i), lambda: Thing(i), lambda: r.choice(self.TEXTS),
                                 lambda: [i], lambda: {"k": i}, lambda: (i, "\n"), lambda: {i},
                                 lambda: bool(i % 2), lambda: i, lambda: float(i), lambda: 2j,
                                 lambda: b"\n", lambda: frozenset([i]), lambda: Exception(i),
                                 lambda: int, lambda: len, lambda: ..., lambda: "s" * i,
                                 lambda: Tag(r.choice(self.TEXTS)), lambda: Count(i),
                                 lambda: Row([i]), lambda: Bag(i=i), lambda: range(i),
                                 lambda: bytearray(b"a"), lambda: Fraction(i, 7),
                                 lambda: Decimal(i), lambda: NotImplemented,
                                 lambda: Yes(), lambda: Mute()])()
        elif kind.pool == "num":
            one = lambda i: r.choice([i, float(i), i + .5, -i, -float(i), 2 ** 60 + i, i / 7,
                                      INF, -INF, True and i, 10 ** 400 + i])
        else:
            nxt = kind.values(r)
            one = lambda i: nxt()
        return {"kind": kind.name, "vals": [one(i) for i in range(n)],
                "via": r.randrange(4)}, []

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        vals = cfg["vals"]
        name = kind.name
        ctx.note(name, vals)
        c = ctx.do("build", kind.make)
        if name in NAMES[:3]:
            want = [stored(v) for v in vals]
            if cfg["via"] == 0:
                c = ctx.do("ctor", kind.cls, vals)
            elif cfg["via"] == 1:
                for v in vals:
                    ctx.do("add_end", c.add_end, v)
            elif cfg["via"] == 2:
                for v in reversed(vals):
                    ctx.do("add_front", c.add_front, v)
            else:
                for v in vals:
                    ctx.do("insert", c.insert, len(c), 0)
                for i, v in enumerate(vals):
                    ctx.do("set", c.__setitem__, i, v)
            got = [c[i] for i in range(len(vals))]
            self.same(ctx, name, got, want)
            self.same(ctx, name, list(c), want)
            self.same(ctx, name, c.copy().to_list(), want)
            self.same(ctx, name, c.reverse().to_list(), want[::-1])
            if name != "CircularLinkedList":
                self.same(ctx, name, c[:].to_list(), want)
            a, b = c.split(len(want) // 2)
            self.same(ctx, name, a.to_list() + b.to_list(), want)
            a.extend(b)
            self.same(ctx, name, a.to_list(), want)
            k = 2 % len(want)
            c.rotate_left(2)
            self.same(ctx, name, c.to_list(), want[k:] + want[:k])
        elif name == "Stack":
            for v in vals:
                ctx.do("push", c.push, v)
                self.same(ctx, name, [c.peek()], [stored(v)])
            self.same(ctx, name, [c.pop() for _ in vals], [stored(v) for v in vals][::-1])
        elif name == "Queue":
            for v in vals:
                ctx.do("enqueue", c.enqueue, v)
                self.same(ctx, name, [c.top()], [stored(vals[0])])
            self.same(ctx, name, [c.dequeue() for _ in vals], [stored(v) for v in vals])
        elif name == "Deque":
            want = collections.deque()
            for i, v in enumerate(vals):
                left = (i + cfg["via"]) % 2
                ctx.do("append", c.append_left if left else c.append_right, v)
                (want.appendleft if left else want.append)(stored(v))
                self.same(ctx, name, [c.get_left(), c.get_right()], [want[0], want[-1]])
            got = []
            while len(c):
                got.append(c.pop_left())
            self.same(ctx, name, got, list(want))
        elif name == "PriorityQueue":
            for i, v in enumerate(vals):
                ctx.do("enqueue", c.enqueue, v, i)
                self.same(ctx, name, [c.top()], [stored(vals[0])])
            low = cfg["via"] % 2 == 0
            got = [c.dequeue(low) for _ in vals]
            want = [stored(v) for v in vals]
            self.same(ctx, name, got, want if low else want[::-1])
        elif "Trie" in name:
            for w in vals:
                ctx.do("insert", c.insert, w)
            self.same(ctx, name, sorted(c.auto_complete()), sorted(set(vals)))
        elif "Heap" in name:
            for v in vals:
                ctx.do("insert", c.insert, v)
            count = lambda xs: collections.Counter((type(x).__name__, x) for x in xs)
            ctx.check(count(c.to_list()) == count(vals) == count(c),
                      f"{name}: put in {short(vals)}, got {short(c.to_list())}")
            ctx.ev("given_back:" + name)
            ctx.ev("number")
        else:
            first = {}
            for v in vals:
                ctx.do("insert", c.insert, v)
                first.setdefault(v, v)
            want = [first[k] for k in sorted(first)]
            got = c.to_list() if name == "SkipList" else c.inorder_traverse()
            self.same(ctx, name, got, want)
            self.same(ctx, name, sorted(c), want)
            if name != "SkipList":
                self.same(ctx, name, [c.get_min(), c.get_max()], [want[0], want[-1]])
                for k in want[::2]:
                    c.remove(k)
                self.same(ctx, name, c.inorder_traverse(), want[1::2])
            else:
                self.same(ctx, name, [c[i] for i in range(len(want))], want)
        ctx.state(name, repr(vals)[:200])

    @staticmethod
    def same(ctx, name, got, want):
        ctx.ev("given_back:" + name)
        for w in want:
            ctx.ev("text" if type(w) is str else "number" if type(w) in (int, float) else "object")
        ctx.check(len(got) == len(want) and all(
            g is w or (type(w) in (str, int, float) and type(g) is type(w) and g == w)
            for g, w in zip(got, want)),
            f"{name} gave back {short(got)} for {short(want)}")


class OneShot:
    """Counts how often its elements are asked for; can't be rewound."""

    def __init__(self, vals):
        self.vals = list(vals)
        self.starts = self.k = 0

    def __iter__(self):
        self.starts += 1
        return self

    def __next__(self):
        if self.k >= len(self.vals):
            raise StopIteration
        self.k += 1
        return self.vals[self.k - 1]


class Reiterable:
    """Nothing but __iter__."""

    def __init__(self, vals):
        self.vals = vals

    def __iter__(self):
        return iter(self.vals)


MAKERS = [n for n in NAMES if n not in BOUNDED and "Trie" not in n]


class Constructors(Scenario):
    """Built from any iterable = filled one by one; the source is only read."""

    SOURCES = ["list", "tuple", "generator", "iterator", "oneshot", "reiterable", "dict", "set",
               "range", "deque", "str", "linked", "doubly", "circular", "skip", "tree", "same",
               "dictkeys", "map", "frozenset", "array", "empty"]

    def __init__(self):
        self.name = "constructors"
        self.required = tuple("built:" + n for n in MAKERS) + \
            tuple("source:" + s for s in self.SOURCES) + ("hundreds", "refused")

    def gen(self, r):
        kind = BY_NAME[r.choice(MAKERS)]
        nxt = num_pool(r, r.choice(["dense", "wide", "tiny", "float"]))[1] \
            if kind.pool == "num" or r.random() < .5 else kind.values(r)
        n = r.choice([0, 1, 2, 3, 7, 15, 40])
        vals = [nxt() for _ in range(n)]
        if r.random() < .03:  # a chain of one of these is as deep as long
            n = r.choice([150, 350] if kind.name in ("BST", "SplayTree") else [150, 700, 1500])
            vals = r.sample(range(-n, 3 * n), n)
        return {"kind": kind.name, "src": r.choice(self.SOURCES), "seed": r.randrange(1000),
                "vals": vals, "refused": (r.randrange(6), r.randrange(n + 1), r.randrange(4))
                if r.random() < .3 else None}, []

    def run(self, ctx, cfg, ops):
        kind, src, vals = BY_NAME[cfg["kind"]], cfg["src"], list(cfg["vals"])
        cls = kind.cls
        nums = all(type(v) in (int, float) for v in vals)
        hashable = all(type(v) in (int, float, str, bool) for v in vals)
        if src in ("dict", "set", "dictkeys", "frozenset") and not hashable:
            vals = list(range(len(vals)))
        if src in ("skip", "tree") and not nums or src in ("range", "array"):
            vals = list(range(len(vals)))
        if src == "empty":
            vals = []
        if src == "str":
            if kind.pool == "num":
                src = "tuple"
            else:
                vals = list("ab\ncab"[:len(vals)])
        import array
        source = {
            "list": lambda: vals, "tuple": lambda: tuple(vals), "generator": lambda: (v for v in vals),
            "iterator": lambda: iter(vals), "oneshot": lambda: OneShot(vals),
            "reiterable": lambda: Reiterable(vals), "dict": lambda: dict.fromkeys(vals, "v"),
            "set": lambda: set(vals), "range": lambda: range(len(vals)),
            "deque": lambda: collections.deque(vals), "str": lambda: "".join(vals),
            "linked": lambda: LinkedList(vals), "doubly": lambda: DoublyLinkedList(vals),
            "circular": lambda: CircularLinkedList(vals), "skip": lambda: SkipList(vals),
            "tree": lambda: BY_NAME["AVL"].cls(vals), "same": lambda: (
                kind.cls.heapify(vals) if "Heap" in kind.name else kind.cls(vals)),
            "dictkeys": lambda: dict.fromkeys(vals).keys(), "map": lambda: map(lambda v: v, vals),
            "frozenset": lambda: frozenset(vals), "array": lambda: array.array("q", vals),
            "empty": lambda: (),
        }[src]()
        one_time = src in ("generator", "iterator", "oneshot", "map")
        order = list(vals) if one_time else list(source)
        before = repr(source) if not one_time and src != "reiterable" else None
        build = cls.heapify if "Heap" in kind.name else cls
        ctx.ev("source:" + cfg["src"])
        ctx.ev("built:" + kind.name)
        ctx.note(kind.name, src, order)
        if kind.name == "Treap":
            a = ctx.do("ctor", build, source, cfg["seed"])
            b = cls(seed=cfg["seed"])
        else:
            reseed(cfg["seed"])
            a = ctx.do("ctor", build, source)
            reseed(cfg["seed"])
            b = cls()
        for v in order:
            if kind.name in NAMES[:3]:
                b.add_end(v)
            else:
                b.insert(v)
        ctx.check(type(a) is cls, f"{kind.name} of a {src} gave a {type(a).__name__}")
        x, y = observe(a), observe(b)
        if kind.name in ("SkipList", "Treap", "MinHeap", "MaxHeap"):
            # how they're arranged inside may depend on how they were filled
            x, y = (list(v[:3]) + sorted(t.to_list()) for v, t in ((x, a), (y, b)))
        ctx.check(x == y, lambda: f"{kind.name} of a {src} with {short(order)} against one filled "
                                  f"step by step: {difference(x, y)}")
        if kind.name in NAMES[:3]:
            ctx.equal_seq(f"{kind.name} of a {src}", a.to_list(), [stored(v) for v in order])
            check_links(ctx, kind.name, a)
        elif "Heap" in kind.name:
            ctx.check(sorted(a.to_list()) == sorted(order), f"{kind.name} of a {src} with "
                      f"{short(order)} holds {short(a.to_list())}")
        else:
            ctx.check(sorted(a.to_list()) == sorted(set(order)), f"{kind.name} of a {src} with "
                      f"{short(order)} holds {short(a.to_list())}")
        if src == "oneshot":
            ctx.check(source.starts == 1 and source.k == len(vals),
                      f"{kind.name}: asked for {source.starts} iterators and {source.k} of "
                      f"{len(vals)} elements")
        if before is not None:
            ctx.check(repr(source) == before, f"{kind.name}: making it out of a {src} changed "
                                              f"{before} to {short(source)}")
        if len(order) > 500:
            ctx.ev("hundreds")
        if cfg["refused"]:
            self.refused(ctx, kind, build, order, *cfg["refused"])
        if src not in ("same",):
            for bad in (5, 2.5, object()):
                ctx.rejects(f"{kind.name}({short(bad)})", TypeError, build, bad)
        ctx.state(kind.name, src, repr(order)[:100])

    @staticmethod
    def refused(ctx, kind, build, order, what, where, form):
        """Something that can't be stored, anywhere among the elements: refused
        the way the operation adding a single one refuses it."""
        bad = (None, LinkedList([1]), PriorityQueue(), "x", True, [1])[what]
        b = kind.cls()
        add = b.add_end if kind.name in NAMES[:3] else b.insert
        try:
            add(bad)
        except (TypeError, ValueError) as e:
            want = type(e)
        else:
            return  # this kind holds it
        where = min(where, len(order))
        vals = order[:where] + [bad] + order[where:]
        source = (lambda: vals, lambda: iter(vals), lambda: tuple(vals), lambda: OneShot(vals))[form]
        ctx.ev("refused")
        ctx.note(f"{short(bad)} is element {where} of {len(vals)}")
        ctx.rejects(f"{kind.name}(elements, one of them refused)", want, build, source())
