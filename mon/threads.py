"""Interleavings: threads which pass a baton at lines (or single bytecodes) of the
library's code, in an order drawn from the case's seed, so that every schedule is
repeatable.  What each of them gets is compared with what it gets alone."""
import random
import sys
import threading

from . import runtime
from .engine import Scenario
from .kinds import BOUNDED, BY_NAME, KINDS, PriorityQueue, Treap, key, observe
from .memory import Footprint
from .plain import ASK, KINDS as PLAIN, Made, Plainly, PlainTrees, answer, gen_spec, \
    observe as observe_plain
from .runtime import COUNTER, EXTRA_DIR, Inconclusive, StepLimit, Violation, short
from .values import at, frac

_TOOL = 3
NAMES = [k.name for k in KINDS] + list(PLAIN)


class Schedule:
    """Who may run now: the others wait for their turn at a lock of their own."""

    def __init__(self, seed, n, span):
        self.r = random.Random(seed)
        self.span = span
        self.turn = [threading.Lock() for _ in range(n)]
        for t in self.turn:
            t.acquire()
        self.live = list(range(n))
        self.me = {}
        self.left = 1
        self.switches = self.points = 0
        self.free = False  # given up (the code waits for a lock of its own)

    def point(self):
        if self.free:
            return
        me = self.me.get(threading.get_ident())
        if me is None:
            return
        self.points += 1
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.r.choice(self.span)
        nxt = self.r.choice(self.live)
        if nxt != me:
            self.switches += 1
            self.turn[nxt].release()
            self.wait(me)

    def wait(self, me):
        seen = self.points
        while not self.turn[me].acquire(timeout=.5):
            if self.free:
                return
            if self.points == seen:  # nobody gets on: from here on it's up to the system
                self.free = True
                return
            seen = self.points

    def leave(self, me):
        if self.free:
            return
        self.live.remove(me)
        if self.live:
            self.left = self.r.choice(self.span)
            self.turn[self.r.choice(self.live)].release()


_NOW = [None]
_on = [False]


def _switch_on():
    if _on[0]:
        return
    _on[0] = True
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "verif-threads")
    ours = {}

    def point(code, x):
        r = ours.get(code)
        if r is None:
            r = ours[code] = code.co_filename.startswith(EXTRA_DIR)
        if not r:
            return mon.DISABLE
        s = _NOW[0]
        if s is not None:
            s.point()

    mon.register_callback(_TOOL, mon.events.LINE, point)
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, point)


def interleave(ctx, bodies, seed, span, fine, limit=20_000_000):
    """Runs the bodies, each in a thread; gives what each returned."""
    _switch_on()
    mon = sys.monitoring
    n = len(bodies)
    s = Schedule(seed, n, span)
    got = [None] * n
    failed = [None] * n

    def run(k):
        s.me[threading.get_ident()] = k
        s.wait(k)
        try:
            got[k] = bodies[k]()
        except BaseException as e:
            failed[k] = e
        finally:
            s.leave(k)

    threads = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(n)]
    ev = mon.events
    mon.set_events(_TOOL, ev.INSTRUCTION if fine else ev.LINE)
    COUNTER.steps, COUNTER.limit = 0, limit
    _NOW[0] = s
    try:
        for t in threads:
            t.start()
        while len(s.me) < n:
            pass
        s.turn[s.r.randrange(n)].release()
        for t in threads:
            t.join(60)
    finally:
        _NOW[0] = None
        COUNTER.limit = float("inf")
        mon.set_events(_TOOL, 0)
        runtime._WARNED.clear()
    if any(t.is_alive() for t in threads):
        s.free = True
        raise Inconclusive("the threads did not end")
    ctx.ev("schedules left to the system" if s.free else "schedules")
    ctx.ev("points where threads could change", s.points)
    ctx.ev("changes of thread", s.switches)
    for k, e in enumerate(failed):
        if isinstance(e, StepLimit):
            raise Violation(f"thread {k} did not finish, last inside {e.args[0]}")
        if isinstance(e, (Violation, Inconclusive)):
            raise e
        if e is not None:
            raise Violation(f"thread {k} crashed with {type(e).__name__}: {short(str(e))}, "
                            f"which alone it does not") from e
    return got, s


class settled:
    """No chance and no class-wide switch changes while threads run."""

    def __enter__(self):
        self.was = PriorityQueue.SHOW_PRIORITY, Treap.SHOW_PRIORITY
        PriorityQueue.SHOW_PRIORITY = Treap.SHOW_PRIORITY = True
        for k in KINDS:
            k.settled = True

    def __exit__(self, *exc):
        PriorityQueue.SHOW_PRIORITY, Treap.SHOW_PRIORITY = self.was
        for k in KINDS:
            k.settled = False


def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            if type(x) is list and type(y) is list:
                return first_difference(x, y)
            if type(x) is tuple and type(y) is tuple and len(x) == len(y) == 2 and x[0] == y[0]:
                return f"{x[0]}: {short(x[1], 250)} against {short(y[1], 250)}"
            return f"{short(x, 250)} against {short(y, 250)}"
    return f"{len(a)} answers against {len(b)}"


SPANS = [(1,), (1, 2, 3), (1, 5, 20), (2, 40), (1, 1, 1, 100)]


class Apart(Scenario):
    """Each thread works on an instance of its own."""

    name = "apart"
    required = tuple("apart:" + n for n in NAMES) + ("schedules", "changes of thread")

    def gen(self, r):
        names = [r.choice(NAMES)] * 2
        if r.random() < .25:
            names.append(r.choice(NAMES))
        if r.random() < .15:
            names[1] = r.choice(NAMES)
        specs = [gen_spec(r, n) if n in PLAIN else None for n in names]
        caps = [r.choice([1, 2, 4]) if n in BOUNDED and r.random() < .3 else None for n in names]
        pools = [BY_NAME[n].values(r) if n in BY_NAME else None for n in names]
        ops = []
        for _ in range(r.choice([4, 8, 16, 24])):
            k = r.randrange(len(names))
            ops.append((k, r.randrange(1000), pools[k]() if pools[k] else r.randrange(9), frac(r),
                        r.randrange(1 << 20)))
        return {"names": names, "specs": specs, "caps": caps, "seed": r.randrange(1 << 40),
                "span": r.choice(SPANS), "fine": r.random() < .25}, ops

    def body(self, cfg, k, mine):
        name = cfg["names"][k]

        def plain():
            m = Made(Plainly, name, cfg["specs"][k])
            log = [observe_plain(name, m.c)]
            for _, o, v, f, salt in mine:
                self.change(m, o, v, f, salt)
                log.append(observe_plain(name, m.c))
            return log

        def filled():
            kind = BY_NAME[name]
            c = kind.make(cfg["caps"][k])
            log = []
            for j, (_, o, v, f, salt) in enumerate(mine):
                x = o % 8
                if x < 6 or not len(c):
                    name_ = kind.ops[o // 8 % len(kind.ops)]
                    log.append((name_, key(kind.apply(c, name_, v, f, salt))))
                elif x == 6:
                    for q, fn in kind.reads(c, v, f, salt):
                        if q != "in" or kind.name != "SplayTree":
                            log.append((q, key(fn())))
                elif o < 40:
                    c.clear()
                elif Footprint.size(kind, c):
                    kind.drain(c, kind.drains[o // 8 % len(kind.drains)], salt)
                if kind.iterable and x % 3 == 0:
                    log.append(("iteration", [key(i) for i in c]))
                if x % 2:
                    log.append(observe(c, False))
            log.append(observe(c, False))
            return log

        return plain if name in PLAIN else filled

    @staticmethod
    def change(m, o, v, f, salt):
        PlainTrees.change(Plainly, m, o % 900, f, v, salt)

    def run(self, ctx, cfg, ops):
        n = len(cfg["names"])
        for name in cfg["names"]:
            ctx.ev("apart:" + name)
        mine = [[o for o in ops if o[0] == k] for k in range(n)]
        with settled():
            runtime.seed_all(cfg["seed"])
            alone = [ctx.do(f"alone {k} ({cfg['names'][k]})", self.body(cfg, k, mine[k]),
                            limit=20_000_000) for k in range(n)]
            for o in ops:
                ctx.note(f"thread {o[0]} of", cfg["names"], "op", o[1:])
            runtime.seed_all(cfg["seed"])
            got, s = interleave(ctx, [self.body(cfg, k, mine[k]) for k in range(n)], cfg["seed"],
                                cfg["span"], cfg["fine"])
        for k in range(n):
            if got[k] != alone[k]:
                raise Violation(
                    f"a {cfg['names'][k]}, used by its own thread only while others used "
                    f"instances of their own, gave {first_difference(got[k], alone[k])} alone "
                    f"(schedule {cfg['seed']}, {s.switches} changes of thread)")
        ctx.state(tuple(cfg["names"]), s.points, s.switches, s.r.random())


class Together(Scenario):
    """All threads ask one and the same instance, none changes it."""

    name = "together"
    required = tuple("together:" + n for n in NAMES) + ("schedules", "changes of thread")

    def gen(self, r):
        name = r.choice(NAMES)
        kind = BY_NAME.get(name)
        pool = kind.values(r) if kind else None
        fill = [pool() for _ in range(r.choice([0, 1, 3, 6, 10, 16]))] if kind else None
        n = r.choice([2, 2, 3])
        ops = [(r.randrange(n), r.randrange(1000), pool() if pool else r.randrange(9), frac(r),
                r.randrange(1 << 20)) for _ in range(r.choice([3, 6, 10]))]
        return {"name": name, "fill": fill, "n": n, "seed": r.randrange(1 << 40),
                "spec": None if kind else gen_spec(r, name),
                "span": r.choice(SPANS), "fine": r.random() < .25}, ops

    @staticmethod
    def asks(name, c, mine, cfg):
        log = []
        for _, o, v, f, salt in mine:
            if name in PLAIN:
                x = o % 4
                if x == 0:
                    log.append(observe_plain(name, c))
                elif x == 1:
                    log.append([key(i) for i in c])
                elif x == 2:
                    log.append(("len", len(c)))
                    q = ASK[name][o // 4 % len(ASK[name])]
                    log.append((q, answer(c, q)))
                elif name == "SuffixTrie":
                    w = cfg["spec"]
                    i, j = sorted((at(f, len(w) + 1), salt % (len(w) + 1)))
                    log.append(("has", c.has_substring(w[i:j]),
                                c.count_pattern_occurrences(w[i:j] + "a" * (salt & 1)),
                                c.get_lowest_common_ancestor(i, j)))
                else:
                    log.append(("in", v in c))
                continue
            kind = BY_NAME[name]
            x = o % 3
            if x == 0:
                log.append(observe(c, False))
            elif x == 1 and kind.iterable:
                log.append([key(i) for i in c])
            else:
                for q, fn in kind.reads(c, v, f, salt):
                    log.append((q, key(fn())))
        return log

    def run(self, ctx, cfg, ops):
        name, n = cfg["name"], cfg["n"]
        ctx.ev("together:" + name)
        mine = [[o for o in ops if o[0] == k] for k in range(n)]
        with settled():
            if name in PLAIN:
                c = Made(ctx, name, cfg["spec"]).c
            else:
                kind = BY_NAME[name]
                c = kind.make()
                for i, v in enumerate(cfg["fill"]):
                    ctx.do("add", kind.add, c, v, i)
            see = (lambda: observe_plain(name, c)) if name in PLAIN else \
                (lambda: observe(c, False))
            before = see()
            alone = [ctx.do(f"alone {k}", lambda: self.asks(name, c, mine[k], cfg),
                            limit=20_000_000) for k in range(n)]
            for o in ops:
                ctx.note(f"thread {o[0]} asks", o[1:])
            bodies = [lambda k=k: self.asks(name, c, mine[k], cfg) for k in range(n)]
            got, s = interleave(ctx, bodies, cfg["seed"], cfg["span"], cfg["fine"])
            for k in range(n):
                if got[k] != alone[k]:
                    raise Violation(
                        f"a {name} asked by {n} threads at once answered "
                        f"{first_difference(got[k], alone[k])} when asked alone "
                        f"(schedule {cfg['seed']}, {s.switches} changes of thread)")
            after = see()
            ctx.check(before == after, lambda: f"a {name} asked by {n} threads at once changed: "
                                               f"{first_difference(after, before)} before")
        ctx.state(name, s.points, s.switches, s.r.random())
