"""What is taken out is let go: weak references to the values put into a collection
show which of them something still holds on to; the interpreter's allocation
records (tracemalloc) show whether long histories leave anything behind."""
import gc
import random
import sys
import tracemalloc
import weakref

from . import runtime  # noqa: F401
from .engine import Scenario
from .kinds import BOUNDED, BY_NAME, KINDS, CircularLinkedList, observe
from .plain import KINDS as PLAIN, Made, Plainly, gen_spec
from .runtime import Violation
from .trees import BinaryTreeNode
from .values import at, frac

HOLDERS = [k.name for k in KINDS if k.pool == "obj"]
LISTS = ("LinkedList", "DoublyLinkedList", "CircularLinkedList")


class Marked:
    """A value whose end can be observed; equal to the others of its group."""

    __slots__ = ("n", "group", "__weakref__")

    def __init__(self, n, group):
        self.n, self.group = n, group

    def __eq__(self, other):
        return self is other or (self.group >= 0 and isinstance(other, Marked)
                                 and self.group == other.group)

    __hash__ = None

    def __repr__(self):
        return f"Marked#{self.n}"


def holds(name, c):
    """How many of the marked values the collection says it holds."""
    if name in LISTS:
        return len({id(x) for x in c.to_list() if type(x) is Marked})
    return len(c)


class LetGo(Scenario):
    name = "let_go"
    required = tuple("let go:" + n for n in HOLDERS) + ("cleared", "dropped", "derived")

    def gen(self, r):
        name = r.choice(HOLDERS)
        cap = r.choice([1, 2, 3, 5]) if name in BOUNDED and r.random() < .3 else None
        ops = []
        for _ in range(r.choice([6, 12, 25, 40])):
            x = r.random()
            what = ("op" if x < .8 else "drain" if x < .9 else "reads" if x < .95
                    else "derive" if name in LISTS else "reads")
            if r.random() < .02:
                what = "clear"
            ops.append((what, r.randrange(1000), frac(r), r.choice([-1, -1, 0, 1, 2]),
                        r.randrange(1 << 20)))
        return {"kind": name, "cap": cap, "bias": r.choice(["grow", "even", "even"])}, ops

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        ctx.ev("let go:" + kind.name)
        alive = {}
        made = [0]

        def new(group):
            made[0] += 1
            m = Marked(made[0], group)
            alive[made[0]] = weakref.ref(m)
            return m

        def left():
            for n in [n for n, w in alive.items() if w() is None]:
                del alive[n]
            return len(alive)

        def judge(why, boxes):
            want = sum(holds(kind.name, b) for b in boxes)
            ctx.state(kind.name, why, want, len(boxes), len(alive), made[0])
            if left() <= want:
                return
            gc.collect()  # what refers to itself may take until here
            if left() > want:
                raise Violation(f"{kind.name}: {why} it holds {want} of the values, but "
                                f"{left()} of them are still referred to "
                                f"(e.g. Marked#{min(alive)})")

        c = kind.make(cfg["cap"])
        for what, o, f, group, salt in ops:
            if what == "op":
                name = kind.ops[o % len(kind.ops)]
                if cfg["bias"] == "grow" and o % 3 == 0:
                    name = kind.ops[0]
                ctx.do(name, lambda: kind.apply(c, name, new(group), f, salt))
            elif what == "drain":
                if len(c):
                    name = kind.drains[o % len(kind.drains)]
                    ctx.do("drain:" + name, lambda: kind.drain(c, name, salt))
            elif what == "reads":
                q = fn = None
                for q, fn in kind.reads(c, new(group), f, salt):
                    ctx.do("q:" + q, fn)
                q = fn = None
                self.look(ctx, c, salt)
            elif what == "derive":
                self.derive(ctx, kind, c, f, salt, judge)
            else:
                ctx.do("clear", c.clear)
                ctx.ev("cleared")
            judge(f"after {what}", [c])
        if len(ops) % 3 == 0:
            while len(c):
                how = kind.drains[len(c) % len(kind.drains)]
                ctx.do("drain:" + how, lambda: kind.drain(c, how, 5))
                judge("being emptied", [c])
        elif len(ops) % 3 == 1:
            ctx.do("clear", c.clear)
            ctx.ev("cleared")
            judge("after clear", [c])
        gone = weakref.ref(c)
        ctx.log.clear()
        c = None
        judge("after being dropped", [])
        if gone() is not None:
            gc.collect()
            ctx.check(gone() is None, f"a dropped {kind.name} is still referred to")
        ctx.ev("dropped")

    @staticmethod
    def look(ctx, c, salt):
        if salt & 1:
            ctx.do("observe", lambda: observe(c) and None)
        if salt & 2 and hasattr(c, "__iter__"):
            for _ in range(salt >> 2 & 3):  # loops given up
                next(iter(c), None)

    @staticmethod
    def derive(ctx, kind, c, f, salt, judge):
        """What comes out of a list holds just its own values, whatever becomes of
        the list it came out of."""
        source = ctx.do("copy", lambda: c.copy()) if salt & 64 else c
        n = len(source)
        circ = kind.cls is CircularLinkedList
        which = salt % 7
        if which == 0:
            box = [ctx.do("copy", lambda: source.copy())]
        elif which == 1:
            box = list(ctx.do("split", lambda: source.split(at(f, n + 1))))
        elif which == 2 and not circ:
            box = [ctx.do("slice", lambda: source[at(f, n + 1):n:1 + salt % 3])]
        elif which == 3:
            box = [ctx.do("reverse", lambda: source.reverse())]
        elif which == 4:
            box = [ctx.do("construct", lambda: kind.cls(source))]
        elif which == 5:
            box = [kind.cls([1, 2][:salt >> 7 & 3])]
            ctx.do("extend", lambda: box[0].extend(source))
        else:
            box = [ctx.do("rotate", lambda: source.rotate_left(salt % 7, inplace=False))]
        ctx.ev("derived")

        class Held:  # counts a value which several of them hold once
            @staticmethod
            def to_list():
                return [x for b in box + [c] for x in b.to_list() if type(x) is Marked]

        gone = weakref.ref(source)
        dropped = source is not c
        source = None
        for k in range(salt >> 8 & 3):
            b = max(box, key=len)
            if len(b):
                del b[(salt >> 10) % len(b)]
            b = None
        if salt >> 11 & 1:
            ctx.do("clear", c.clear)
        judge("with what was derived from it", [Held])
        if dropped and gone() is not None:
            gc.collect()
            ctx.check(gone() is None, f"a dropped {kind.name} is still referred to by what was "
                                      f"derived from it")
        if salt >> 12 & 1 and len(box) > 1:  # one of two parts is enough
            box.pop(salt >> 13 & 1)
            judge("with a part of what was derived from it", [Held])
        if salt >> 14 & 1:
            ctx.do("clear", c.clear)
            judge("cleared, with what was derived from it before,", [Held])
        box.clear()


class Footprint(Scenario):
    """Long histories at a small size, and growing large and shrinking again."""

    name = "footprint"
    required = tuple("footprint:" + k.name for k in KINDS)
    SLACK = 6_000  # bytes, for a few thousand changes

    def gen(self, r):
        name = r.choice([k.name for k in KINDS])
        big = r.random() < .3
        return {"kind": name, "big": big, "seed": r.randrange(1 << 30),
                "cap": r.choice([3, 8]) if name in BOUNDED and r.random() < .3 else None,
                "top": r.choice([2, 5, 12]), "cleared": r.random() < .25}, \
            [("cycles",)] * r.choice([1, 2])

    @staticmethod
    def fresh(kind, i, r):
        """Values which were never there before."""
        if kind.pool == "word":
            s, k = "", i * 7 + 3
            while k:
                s += "abcdefghij"[k % 10]
                k //= 10
            return r.choice(["", "z", "zz"]) + s
        return i * 3 % 100_003 + i / (1 << 20) if kind.pool == "num" and i % 2 else i + 10 ** 6

    @staticmethod
    def size(kind, c):
        """How many values there are to remove."""
        return len(c.auto_complete()) if kind.pool == "word" else len(c)

    @staticmethod
    def taken():
        runtime._WARNED.clear()
        gc.collect()
        return tracemalloc.get_traced_memory()[0]

    def cycle(self, kind, c, i, r, top, n):
        """n changes which end with nothing left inside."""
        for k in range(n):
            i += 1
            has = self.size(kind, c)
            if has >= top or (has and r.random() < .4):
                kind.drain(c, kind.drains[r.randrange(len(kind.drains))], r.randrange(1 << 16))
            else:
                kind.apply(c, kind.ops[0], self.fresh(kind, i, r), .5, r.randrange(1 << 16))
        while self.size(kind, c):
            kind.drain(c, kind.drains[r.randrange(len(kind.drains))], r.randrange(1 << 16))
        return i

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        ctx.ev("footprint:" + kind.name)
        r = random.Random(cfg["seed"])
        tracemalloc.start(1)
        try:
            c = kind.make(cfg["cap"])
            n = 2500 if kind.name not in ("Trie", "RadixTrie") else 900
            i = ctx.do("warm up", self.cycle, kind, c, 0, r, cfg["top"], 300, limit=10 ** 8)
            grown = []
            # what is kept once is a reserve: only what grows every time is a leak
            while len(grown) < max(1, len(ops)) or grown[-1] > self.SLACK and len(grown) < 3:
                before = self.taken()
                if cfg["big"]:
                    i = ctx.do("grow", self.grow, kind, c, i, r, cfg["cleared"], limit=10 ** 9)
                else:
                    i = ctx.do("cycles", self.cycle, kind, c, i, r, cfg["top"], n,
                               limit=10 ** 9)
                grown.append(self.taken() - before)
                ctx.state(kind.name, cfg["big"], cfg["top"], cfg["cap"], grown[-1] // 256)
            if len(grown) >= 3 and min(grown) > self.SLACK:
                raise Violation(
                    f"an emptied {kind.name} takes more memory each time "
                    f"{'it grew large' if cfg['big'] else f'{n} changes were made at a size up to '}"
                    f"{'' if cfg['big'] else cfg['top']}: by {grown} bytes")
        finally:
            tracemalloc.stop()

    def grow(self, kind, c, i, r, cleared):
        n = 250 if kind.pool == "word" or kind.name in ("PriorityQueue",) else 500
        for k in range(n):
            i += 1
            kind.apply(c, kind.ops[0], self.fresh(kind, i, r), .5, r.randrange(1 << 16))
        if cleared:
            c.clear()
        while self.size(kind, c):
            kind.drain(c, kind.drains[r.randrange(len(kind.drains))], r.randrange(1 << 16))
        return i


class Numbers(Scenario):
    """The collections of numbers: a number can't be referred to weakly, but each
    knows how many references there are to it."""

    name = "numbers"
    required = tuple("numbers:" + k.name for k in KINDS if k.pool == "num") + ("dropped",)

    def gen(self, r):
        name = r.choice([k.name for k in KINDS if k.pool == "num"])
        k = r.choice([4, 10, 30, 100])
        return {"kind": name, "end": r.choice(["drop", "clear", "drain"])}, \
            [(r.randrange(1000), r.randrange(k), frac(r), r.randrange(1 << 20))
             for _ in range(r.choice([6, 12, 25, 50]))]

    def run(self, ctx, cfg, ops):
        kind = BY_NAME[cfg["kind"]]
        ctx.ev("numbers:" + kind.name)
        made = []

        def new(v):
            made.append(float(repr(v + .25)))  # an object of its own
            return made[-1]

        def held(inside):
            refs, bad = sys.getrefcount, []
            for x in made:
                if id(x) not in inside and refs(x) > 3:  # the list's, x and the argument
                    bad.append(x)
            return bad

        def judge(why, c):
            inside = {id(x) for x in c.to_list()} if c is not None else ()
            ctx.state(kind.name, why, len(inside), len(made))
            if held(inside):
                gc.collect()
                bad = held(inside)
                ctx.check(not bad, f"{kind.name}: {why} it still refers to",
                          bad[:5])

        c = kind.make()
        for o, v, f, salt in ops:
            if o % 5 < 3:
                name = kind.ops[o // 5 % len(kind.ops)]
                ctx.do(name, lambda: kind.apply(c, name, new(v), f, salt))
            elif o % 5 == 3 and len(c):
                name = kind.drains[o // 5 % len(kind.drains)]
                ctx.do("drain:" + name, lambda: kind.drain(c, name, salt))
            elif o % 5 == 4 and o < 990:
                x = new(v)
                for q, fn in kind.reads(c, x, f, salt):
                    ctx.do("q:" + q, fn)
                q = fn = x = None
                LetGo.look(ctx, c, salt)
            elif o >= 990:
                ctx.do("clear", c.clear)
            name = None
            judge("later", c)
        if cfg["end"] == "clear":
            ctx.do("clear", c.clear)
            judge("cleared", c)
        elif cfg["end"] == "drain":
            while len(c):
                how = kind.drains[len(c) % len(kind.drains)]
                ctx.do("drain:" + how, lambda: kind.drain(c, how, 5))
                judge("being emptied", c)
        gone = weakref.ref(c)
        ctx.log.clear()
        c = None
        judge("after it was dropped", c)
        if gone() is not None:
            gc.collect()
            ctx.check(gone() is None, f"a dropped {kind.name} is still referred to")
        ctx.ev("dropped")


class Dropped(Scenario):
    """Many instances, made, used and dropped one after another."""

    name = "instances"
    required = tuple("instances:" + n for n in [k.name for k in KINDS] + list(PLAIN))
    SLACK = 6_000

    def gen(self, r):
        return {"kind": r.choice([k.name for k in KINDS] + list(PLAIN) + ["SuffixTrie"] * 2),
                "seed": r.randrange(1 << 30), "look": r.random() < .5}, [("instances",)]

    @staticmethod
    def several(name, r, i, n, look):
        ref = None
        for _ in range(n):
            if name in PLAIN:
                spec = gen_spec(r, name)
                if name == "SuffixTrie":
                    i += 1
                    spec = (Footprint.fresh(BY_NAME["Trie"], i, r) + spec)[:14]
                c = Made(Plainly, name, spec)
                ref = weakref.ref(c.c)
                if look:
                    c.look()
                c = None
            else:
                kind = BY_NAME[name]
                c = kind.make()
                for k in range(6):
                    i += 1
                    kind.apply(c, kind.ops[r.randrange(len(kind.ops)) if k % 2 else 0],
                               Footprint.fresh(kind, i, r), .3, r.randrange(1 << 10))
                if look:
                    observe(c)
                ref = weakref.ref(c)
                c = None
        return i, ref

    def run(self, ctx, cfg, ops):
        name, r = cfg["kind"], random.Random(cfg["seed"])
        ctx.ev("instances:" + name)
        n = 250 if name not in PLAIN else 120
        tracemalloc.start(1)
        try:
            i, _ = ctx.do("warm up", self.several, name, r, 0, 30, cfg["look"], limit=10 ** 9)
            grown = []
            while len(grown) < max(1, len(ops)) or grown[-1] > self.SLACK and len(grown) < 3:
                before = Footprint.taken()
                i, ref = ctx.do(f"{n} instances", self.several, name, r, i, n, cfg["look"],
                                limit=10 ** 9)
                grown.append(Footprint.taken() - before)
                ctx.state(name, cfg["look"], cfg["seed"], grown[-1] // 256)
                ctx.check(ref() is None, f"a dropped {name} is still referred to")
            if len(grown) >= 3 and min(grown) > self.SLACK:
                raise Violation(f"{n} instances of {name}, each dropped after use, leave {grown} "
                                f"bytes behind every time")
        finally:
            tracemalloc.stop()


class Trees(Scenario):
    """Cleared trees let go of their values, dropped ones as well."""

    name = "trees_let_go"
    required = ("trees let go:Tree", "trees let go:BinaryTree")

    def gen(self, r):
        kind = r.choice(["Tree", "BinaryTree"])
        return {"kind": kind, "spec": gen_spec(r, kind)}, \
            [(r.randrange(4), r.randrange(1 << 20)) for _ in range(r.choice([1, 3, 6]))]

    def run(self, ctx, cfg, ops):
        kind = cfg["kind"]
        ctx.ev("trees let go:" + kind)
        refs = []

        def mark(s):
            m = Marked(len(refs), -1)
            refs.append(weakref.ref(m))
            if kind == "Tree":
                return [m, [mark(k) for k in s[1]]]
            return [m] + [None if k is None else mark(k) for k in s[1:]]

        m = Made(ctx, kind, None if cfg["spec"] is None else mark(cfg["spec"]))
        c, _ = m.c, m.nodes.clear()
        m = None
        for o, salt in ops:
            if o == 0 and kind != "Tree":
                ctx.do("invert", c.invert)
            elif o == 1:
                for q in ("get_height", "count_leaf_nodes", "get_nodes_per_level", "to_list"):
                    ctx.do("q:" + q, getattr(c, q))
            elif o == 2 and c._root is not None:
                self.cut(ctx, kind, c, salt)
            else:
                sum(1 for _ in c)
                len(c)
            gc.collect()
            want = sum(type(x) is Marked for x in c.to_list())
            have = sum(w() is not None for w in refs)
            ctx.state(kind, o, want)
            ctx.check(have == want, f"a {kind} of {want} values keeps {have} of those it was "
                                    f"given")
        if len(ops) % 2:
            ctx.do("clear", c.clear)
        gone = weakref.ref(c)
        if len(ops) % 2 == 0:
            c = None
        ctx.log.clear()
        gc.collect()
        have = sum(w() is not None for w in refs)
        ctx.check(not have, f"a {kind} {'cleared' if len(ops) % 2 else 'dropped'} keeps {have} "
                            f"of its {len(refs)} values alive")
        ctx.check(c is not None or gone() is None, f"a dropped {kind} is still referred to")

    @staticmethod
    def cut(ctx, kind, c, salt):
        n = c._root
        for b in range(3):
            kids = n.get_children()
            if not kids or salt >> b & 1:
                break
            n = kids[(salt >> 4) % len(kids)]
        if kind == "Tree":
            ctx.do("set_children", lambda: n.set_children([]))
        elif salt & 8:
            ctx.do("set_left", lambda: n.set_left(BinaryTreeNode(7)))
        else:
            ctx.do("set_right", lambda: n.set_right(BinaryTreeNode(7)))
