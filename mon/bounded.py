"""Stack, queue, deque, priority queue and skip list."""
from . import runtime  # noqa: F401
from .engine import Scenario
from .runtime import same, same_seq, short
from .values import at, frac, lean, leaning, num_pool, obj_pool, priorities, stored

from extra.lists.stack import Stack
from extra.lists.queue import Queue
from extra.lists.deque import Deque
from extra.lists.priority_queue import PriorityQueue
from extra.lists.skip_list import SkipList

CAPS = [None, None, float("inf"), 0, 1, 1, 2, 3, 4, 5, 8, 13, 2.4, 2.6, 0.4, 3.0]


def some_cap(r):
    """A capacity: none, small, or anything up to some hundred."""
    x = r.random()
    if x < 0.75:
        return r.choice(CAPS)
    return r.choice([16, 32, 64, 100, 128, r.randint(6, 140), r.randint(6, 140) + .3])


def some_length(r):
    return r.choice([10, 30, 80, 300])


def make(ctx, cls, cap):
    name = f"{cls.__name__}({'' if cap is None else cap})"
    c = ctx.do(name, cls) if cap is None else ctx.do(name, cls, cap)
    limit = float("inf") if cap is None or cap == float("inf") else round(cap)
    return c, limit


def cells(kind, text):
    """Decodes the drawing of a stack or queue into its cells."""
    top, mid, low = text.split("\n")
    return mid


class StackHistory(Scenario):
    required = ("push", "pop", "peek", "overflow", "underflow", "full")

    def __init__(self, name="stack", big=False):
        self.name = name
        self.big = big
        if big:
            self.required = ("push", "thousands")

    def gen(self, r):
        cap = some_cap(r)
        _, nxt = obj_pool(r)
        w = r.choice([(5, 4, 3, 1, 0), (9, 3, 2, 1, 0), (4, 8, 2, 1, 0), (6, 6, 3, 1, 1)])
        n = some_length(r)
        if self.big:
            cap, n = r.choice([None, None, 1024, 3000]), 9000
            nxt, w = obj_pool(r, "uniq")[1], (9, 3, 2, 0, 0)
        ops = [(o, nxt()) for o in
               r.choices(["push", "pop", "peek", "look", "clear"], w, k=n)]
        return {"cap": cap}, ops

    def run(self, ctx, cfg, ops):
        c, limit = make(ctx, Stack, cfg["cap"])
        M = []
        for o, v in ops:
            full, empty = len(M) == limit, not M
            if o == "push":
                if full:
                    ctx.ev("overflow")
                    ctx.rejects("push", OverflowError, c.push, v)
                else:
                    ctx.do("push", c.push, v)
                    M.append(stored(v))
            elif o == "pop":
                got = ctx.do("pop", c.pop)
                if empty:
                    ctx.ev("underflow")
                    ctx.check(got is None and ctx.warned() == 1,
                              f"popping an empty stack gave {short(got)} with "
                              f"{ctx.warned()} warnings")
                else:
                    want = M.pop()
                    ctx.check(same(got, want),
                              f"pop gave {short(got)}, expected {short(want)}")
                    ctx.check(not ctx.warned(), "popping a non-empty stack warned")
            elif o == "peek":
                if empty:
                    ctx.rejects("peek", IndexError, c.peek)
                else:
                    got = ctx.do("peek", c.peek)
                    ctx.check(same(got, M[-1]),
                              f"peek gave {short(got)}, expected {short(M[-1])}")
            elif o == "clear":
                ctx.do("clear", c.clear)
                M = []
            ctx.equal("len(stack)", ctx.do("len", len, c), len(M))
            ctx.equal("is_empty()", c.is_empty(), not M)
            ctx.equal(f"is_full() with {len(M)} of {limit}", c.is_full(), len(M) == limit)
            ctx.check(len(c) <= limit, f"{len(c)} elements in a stack limited to {limit}")
            if len(M) == limit:
                ctx.ev("full")
            if len(M) > 2000:
                ctx.ev("thousands")
            if o == "look":
                mid = ctx.do("repr", repr, c).split("\n")[1]
                ctx.equal("the drawing of the stack", mid,
                          "│" + "".join(f" {v} │" for v in M) + " ") \
                    if all("\n" not in str(v) for v in M) else None
            ctx.state(o, limit, len(M), repr(M[-3:]))
        for want in M[::-1]:
            got = ctx.do("pop", c.pop)
            ctx.check(same(got, want), f"draining gave {short(got)}, expected {short(want)}")
        ctx.equal("is_empty() after draining", c.is_empty(), True)


class QueueHistory(Scenario):
    """Queue and deque against one model: a list, left end first."""

    def __init__(self, name, cls, big=False):
        self.name = name
        self.cls = cls
        self.big = big
        self.required = ("add", "take", "thousands") if big else \
            ("evict", "underflow", "full", "add", "take")

    def gen(self, r):
        cap = some_cap(r)
        _, nxt = obj_pool(r)
        deque = self.cls is Deque
        if deque:
            names = ["append_left", "append_right", "pop_left", "pop_right", "get_left",
                     "get_right", "look", "clear"]
            w = r.choice([(5, 5, 4, 4, 2, 2, 2, 0), (8, 1, 2, 5, 2, 2, 1, 0),
                          (1, 8, 5, 2, 2, 2, 1, 0), (3, 3, 5, 5, 2, 2, 1, 0),
                          (6, 6, 6, 6, 2, 2, 1, 1)])
        else:
            names = ["enqueue", "dequeue", "top", "look", "clear"]
            w = r.choice([(5, 4, 3, 2, 0), (9, 3, 2, 1, 0), (4, 8, 2, 1, 0), (6, 6, 3, 1, 1)])
        n = some_length(r)
        if self.big:
            cap, n, nxt = r.choice([None, None, 1024, 3000]), 9000, obj_pool(r, "uniq")[1]
            w = r.choice([(5, 5, 2, 2, 1, 1, 0, 0), (9, 1, 1, 2, 1, 1, 0, 0),
                          (1, 9, 2, 1, 1, 1, 0, 0)]) if deque else (9, 3, 2, 0, 0)
        ops = [(o, nxt()) for o in r.choices(names, w, k=n)]
        return {"cap": cap}, ops

    def run(self, ctx, cfg, ops):
        cls = self.cls
        deque = cls is Deque
        c, limit = make(ctx, cls, cfg["cap"])
        M = []  # left end first; the queue's oldest element is the last one
        for o, v in ops:
            full, empty = len(M) >= limit, not M
            if o in ("append_left", "enqueue", "append_right"):
                ctx.do(o, getattr(c, o), v)
                ctx.ev("add")
                ctx.check(bool(ctx.warned()) is full,
                          f"{o} {'into a full' if full else 'with room left'} "
                          f"gave {ctx.warned()} warnings")
                if limit > 0:
                    if o == "append_right":
                        if full:
                            M.pop(0)
                        M.append(stored(v))
                    else:
                        if full:
                            M.pop()
                        M.insert(0, stored(v))
                if full:
                    ctx.ev("evict")
            elif o in ("pop_left", "pop_right", "dequeue"):
                got = ctx.do(o, getattr(c, o))
                ctx.ev("take")
                if empty:
                    ctx.ev("underflow")
                    ctx.check(got is None and ctx.warned() == 1,
                              f"{o} on an empty one gave {short(got)} with "
                              f"{ctx.warned()} warnings")
                else:
                    want = M.pop(0 if o == "pop_left" else -1)
                    ctx.check(same(got, want),
                              f"{o} gave {short(got)}, expected {short(want)}")
                    ctx.check(not ctx.warned(), f"{o} on a non-empty one warned")
            elif o in ("get_left", "get_right", "top"):
                if empty:
                    ctx.rejects(o, IndexError, getattr(c, o))
                else:
                    got = ctx.do(o, getattr(c, o))
                    want = M[0 if o == "get_left" else -1]
                    ctx.check(same(got, want),
                              f"{o} gave {short(got)}, expected {short(want)}")
            elif o == "clear":
                ctx.do("clear", c.clear)
                M = []
            ctx.equal(f"len after {o}", ctx.do("len", len, c), len(M))
            ctx.equal("is_empty()", c.is_empty(), not M)
            ctx.equal(f"is_full() with {len(M)} of {limit}", c.is_full(), len(M) == limit)
            ctx.check(len(c) <= limit, f"{len(c)} elements in a queue limited to {limit}")
            if len(M) == limit:
                ctx.ev("full")
            if len(M) > 2000:
                ctx.ev("thousands")
            if M:
                if deque:
                    ends = c.get_left(), c.get_right()
                    ctx.check(same(ends[0], M[0]) and same(ends[1], M[-1]),
                              f"ends after {o} are {short(ends)}, expected "
                              f"{short((M[0], M[-1]))}")
                else:
                    got = c.top()
                    ctx.check(same(got, M[-1]),
                              f"the oldest element after {o} is {short(got)}, "
                              f"expected {short(M[-1])}")
            if o == "look" and all("\n" not in str(v) for v in M):
                arrow = "⟷" if deque else "⟶"
                mid = ctx.do("repr", repr, c).split("\n")[1]
                ctx.equal("the drawing", mid, arrow + "│" + "".join(f" {v} │" for v in M)
                          + (arrow if M else ""))
            ctx.state(o, limit, len(M), repr(M[:2]), repr(M[-2:]))
        k = len(ops)
        while M:
            k += 1
            side = deque and k % 3 == 0
            got = ctx.do("drain", c.pop_left if side else
                         (c.pop_right if deque else c.dequeue))
            want = M.pop(0 if side else -1)
            ctx.check(same(got, want), f"draining gave {short(got)}, expected {short(want)}")
        ctx.equal("is_empty() after draining", c.is_empty(), True)


class PriorityHistory(Scenario):
    required = ("enqueue", "dequeue", "dequeue_lowest", "evict", "ties", "underflow",
                "random_priority")

    def __init__(self, name="priority", big=False):
        self.name = name
        self.big = big
        if big:
            self.required = ("enqueue", "dequeue", "dequeue_lowest", "ties", "hundreds")

    def gen(self, r):
        cap = some_cap(r)
        prio = priorities(r)
        w = r.choice([(5, 3, 1, 1, 1, 0), (8, 2, 2, 1, 1, 0), (4, 5, 3, 1, 1, 0),
                      (6, 1, 6, 1, 1, 0), (5, 4, 4, 1, 1, 1)])
        n = r.choice([8, 20, 60, 150])
        if self.big:
            cap, n, w = r.choice([None, 500]), 900, (9, 1, 1, 1, 0, 0)
            span = r.choice([3, 100, 5000])
            prio = lambda: r.randrange(span)
        ops = [(o, prio() if r.random() < 0.95 else None) for o in r.choices(
            ["enqueue", "dequeue", "dequeue_lowest", "top", "look", "clear"], w, k=n)]
        return {"cap": cap}, ops

    def _look(self, ctx, c):
        was, PriorityQueue.SHOW_PRIORITY = PriorityQueue.SHOW_PRIORITY, True
        try:
            mid = ctx.do("repr", repr, c).split("\n")[1]
        finally:
            PriorityQueue.SHOW_PRIORITY = was
        return [x.strip() for x in mid.strip("⟶").split("│") if x.strip()]

    def run(self, ctx, cfg, ops):
        c, limit = make(ctx, PriorityQueue, cfg["cap"])
        M = []  # (item, priority), newest first
        ctr = 0
        for o, p in ops:
            full = len(M) >= limit
            if o == "enqueue":
                item = f"i{ctr}"
                ctr += 1
                if p is None:
                    ctx.do("enqueue", c.enqueue, item)
                else:
                    ctx.do("enqueue", c.enqueue, item, p)
                ctx.check(bool(ctx.warned()) is full,
                          f"enqueue {'into a full' if full else 'with room left'} "
                          f"gave {ctx.warned()} warnings")
                if limit > 0:
                    if full:
                        M.pop()
                        ctx.ev("evict")
                    if p is None:
                        ctx.ev("random_priority")
                        cell = self._look(ctx, c)[0]
                        ctx.check(cell.startswith(item + "|P:"),
                                  f"the newest entry is drawn as {cell}, expected {item}")
                        p = int(cell.split("|P:")[1])
                        ctx.check(0 <= p <= 100, f"random priority {p} isn't in 0..100")
                    M.insert(0, (item, p))
            elif o.startswith("dequeue"):
                low = o == "dequeue_lowest"
                if low:
                    got = ctx.do(o, c.dequeue, lowest_priority=True)
                else:
                    got = ctx.do(o, c.dequeue)
                if not M:
                    ctx.ev("underflow")
                    ctx.check(got is None and ctx.warned() == 1,
                              f"dequeuing from an empty one gave {short(got)} with "
                              f"{ctx.warned()} warnings")
                else:
                    best = (min if low else max)(p for _, p in M)
                    ok = [i for i, p in M if p == best]
                    ctx.check(got in ok,
                              f"{o} gave {short(got)} although the {'lowest' if low else 'highest'} "
                              f"priority of {short(M, 400)} is {best}, held by {ok}")
                    if len(ok) > 1:
                        ctx.ev("ties")
                    M = [x for x in M if x[0] != got]
            elif o == "top":
                if not M:
                    ctx.rejects("top", IndexError, c.top)
                else:
                    ctx.equal("top()", ctx.do("top", c.top), M[-1][0])
            elif o == "clear":
                ctx.do("clear", c.clear)
                M = []
            else:
                ctx.equal("the entries drawn", self._look(ctx, c),
                          [f"{i}|P:{p}" for i, p in M])
            if len(M) > 300:
                ctx.ev("hundreds")
            ctx.equal(f"len after {o}", len(c), len(M))
            ctx.equal("is_empty()", c.is_empty(), not M)
            ctx.equal("is_full()", c.is_full(), len(M) == limit)
            ctx.state(o, limit, len(M), tuple(sorted(p for _, p in M)[:5]))
        while M:
            low = len(M) % 2 == 0
            got = ctx.do("drain", c.dequeue, low)
            best = (min if low else max)(p for _, p in M)
            ctx.check(got in [i for i, p in M if p == best],
                      f"draining {short(M, 300)} by {'lowest' if low else 'highest'} "
                      f"priority gave {short(got)}")
            M = [x for x in M if x[0] != got]
        ctx.equal("is_empty() after draining", c.is_empty(), True)


class SeededPriorities(Scenario):
    """Equal seeds give equal queues."""

    required = ("seeded",)

    def __init__(self, name="seeded"):
        self.name = name

    def gen(self, r):
        return {"seed": r.choice([0, 1, 7, 2 ** 40, 1.5, r.randrange(10 ** 6)]),
                "n": r.choice([1, 3, 8, 30]), "cap": r.choice([None, 3, 10])}, []

    def run(self, ctx, cfg, ops):
        def build():
            kw = {} if cfg["cap"] is None else {"max_capacity": cfg["cap"]}
            c = ctx.do("PriorityQueue(seed)", PriorityQueue, seed=cfg["seed"], **kw)
            for i in range(cfg["n"]):
                c.enqueue(i)
            return [c.dequeue(i % 2 == 0) for i in range(len(c))]

        a = build()
        b = build()
        ctx.ev("seeded")
        ctx.equal(f"dequeue order for one seed ({cfg['seed']})", b, a)
        ctx.state(cfg["seed"], cfg["n"], tuple(a))


# ------------------------------------------------------------------ skip list --
def check_levels(ctx, c, want=None):
    """The tower structure: every level is a strictly increasing chain starting
    at the sentinel, each upper level is part of the one below, linked to it."""
    ninf = float("-inf")
    levels = c._level_lists
    ctx.ev("levels")
    ctx.equal("get_height()", c.get_height(), len(levels))
    ctx.check(len(levels) >= 1, "there are no levels at all")
    below = None
    for k, lst in enumerate(levels):
        nodes, node, seen = [], lst._head, set()
        while node is not None:
            ctx.check(id(node) not in seen, f"level {k} loops")
            seen.add(id(node))
            nodes.append(node)
            node = node.get_next()
        ctx.check(nodes and nodes[0].get_data() == ninf, f"level {k} has no sentinel")
        vals = [x.get_data() for x in nodes[1:]]
        ctx.check(all(a < b for a, b in zip(vals, vals[1:])),
                  f"level {k} isn't strictly increasing: {short(vals)}")
        ctx.equal(f"the size level {k} reports", len(lst), len(nodes))
        if k == 0:
            ctx.check(all(x.get_down() is None for x in nodes),
                      "a node of the lowest level has something below")
            if want is not None:
                ctx.check(same_seq(vals, want),
                          f"the lowest level holds {short(vals)}, expected {short(want)}")
        else:
            ctx.check(vals != [] or k == 0, f"level {k} of {len(levels)} is empty")
            ids = {id(x): x for x in below}
            for x in nodes:
                d = x.get_down()
                ctx.check(d is not None and id(d) in ids and d.get_data() == x.get_data(),
                          f"{short(x)} of level {k} isn't linked to itself on level {k - 1}")
            ctx.check(nodes[0].get_down() is below[0], f"sentinel of level {k} is misplaced")
            ctx.ev("tower")
        below = nodes


class SkipHistory(Scenario):
    def __init__(self, name, monitors=("set",), big=False):
        self.name = name
        self.monitors = monitors
        self.big = big
        self.required = {"set": ("insert", "remove", "in", "get", "del", "absent")}.get(
            monitors[0], ("levels", "tower"))

    def gen(self, r):
        kind, nxt = num_pool(r)
        w = r.choice([(6, 3, 2, 2, 2, 0), (8, 1, 1, 2, 1, 0), (4, 6, 1, 1, 3, 0),
                      (6, 5, 2, 1, 1, 1)])
        n = r.choice([8, 25, 60, 150])
        ops = [(o, nxt(), frac(r), r.randrange(1 << 20)) for o in
               r.choices(["insert", "remove", "in", "get", "del", "clear"], w, k=n)]
        start = [nxt() for _ in range(r.choice([0, 0, 3, 10, 60]))]
        if self.big:
            ops, n = ops[:40], r.choice([400, 1100, 2500])
            start = r.sample(range(5 * n), n)
            if r.random() < .3:
                start.sort(reverse=r.random() < .5)
        return {"kind": kind, "start": start, "coin": lean(r) if len(start) <= 400 else None}, ops

    def run(self, ctx, cfg, ops):
        with leaning(cfg["coin"]):
            self._run(ctx, cfg, ops)

    def _run(self, ctx, cfg, ops):
        judge = "set" in self.monitors
        c = ctx.do("SkipList(iterable)", SkipList, cfg["start"])
        M = {}
        for v in cfg["start"]:
            M.setdefault(v, v)
        for o, v, f, salt in ops:
            if not judge:
                M = {x: x for x in c.to_list()}
            ks = sorted(M)
            if o == "insert":
                ctx.do(o, c.insert, v)
                M.setdefault(v, v)
            elif o == "remove":
                t = ks[at(f, len(ks))] if ks and salt % 4 else v
                if t not in M:
                    ctx.ev("absent")
                ctx.do(o, c.remove, t)
                M.pop(t, None)
            elif o == "in":
                t = ks[at(f, len(ks))] if ks and salt % 2 else v
                got = ctx.do(o, c.__contains__, t)
                if judge:
                    ctx.equal(f"`{t} in` skip list {short(ks)}", got, t in M)
            elif o == "get":
                if ks:
                    i = at(f, len(ks))
                    got = ctx.do(o, c.__getitem__, i)
                    if judge:
                        ctx.check(same(got, M[ks[i]]),
                                  f"element {i} is {short(got)}, expected {short(M[ks[i]])}")
            elif o == "del":
                if ks:
                    i = at(f, len(ks))
                    ctx.do(o, c.__delitem__, i)
                    del M[ks[i]]
            else:
                ctx.do(o, c.clear)
                M = {}
            if judge:
                want = [M[k] for k in sorted(M)]
                ctx.equal_seq(f"skip list after {o} {v}", c.to_list(), want)
                it = list(c)
                ctx.check(same_seq(it, want), f"iterating gives {short(it)}, not {short(want)}")
                ctx.equal("len", len(c), len(want))
                ctx.equal("is_empty()", c.is_empty(), not want)
                h = c.get_height()
                ctx.check(type(h) is int and h >= 1, f"get_height() gives {short(h)}")
                if salt % 16 == 0:
                    for x in want:
                        ctx.check(x in c, f"{x} isn't found in {short(want)}")
                ctx.state(o, len(want), h, tuple(want[:4]))
            else:
                check_levels(ctx, c)
                ctx.state(o, len(c), c.get_height(),
                          tuple(len(x) for x in c._level_lists))
